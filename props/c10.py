"""C10: every reported sample carries its own likelihood, prior and blob."""
from sim.core import Violation
from sim.world import gen_cfg, rec, POST_MODES, gen_invalid
from sim import life, oracle

CASES = dict(quick=144, thorough=20000)
RULE = ("A case is a random sampler configuration (blob type, pool, invalid values, prior with a hole, kernels, ...) and a random history of "
        "runs, extensions, failures, crashes with resume, restarts and queries. Likelihood, prior, blob, support and latent map of every sample "
        "in the history and in every form of posterior output are recomputed from the point itself, during and after each operation. "
        "Non-trivial: at least one complete run was judged. Distinct: by configuration and what was judged.")
FAULTS = ["eval:", "prior:", "pool:", "crash", "out-of-order-completion"]
PROBES = ["blobs:", "invalid", "hole:half", "hole:most", "hole:ring", "precond", "periodic", "reflective", "restart", "resume-after-crash", "vec", "pool", "inside"]
REAL = ["pocomc sampler, particles, kernels, scaler, flow, prior", "dill", "torch, numpy, scipy"]
STUB = ["process pools (completion order chosen by the simulator)", "process death and restart", "disk (observed)", "user likelihood and prior (pure, logged)"]
ASSUME = ["the user's likelihood is a pure function of the point"]
MODES = ("serial", "serial", "vec", "pool", "exec", "intpool")


class Mon(life.Monitor):
    def __init__(self, case, st):
        life.Monitor.__init__(self, case, st)
        self.peek = case["peek"]
        self.state = dict(calls=[])
        self.base = 0

    def before(self, op):
        self.base = len(self.state["calls"]) if not hasattr(self, "_b") else self.base
        self._b = 1

    def publish(self):
        self.sync()

    def sync(self):
        r = rec("a")
        self.state["calls"] = self.state["calls"][:self.base] + r.calls

    def inside(self, i):
        if not hasattr(self, "_b"):
            self.before(None)
        res = oracle.history(self.s)
        if res:
            self.st.probes["inside"] += 1
            self.judge(res, "inside the run", full=False)

    def judge(self, res, where, full=True):
        c = self.c
        self.sync()
        called = set(self.state["calls"])
        oracle.shape_of_history(res, c)
        f = oracle.flat(res)
        b = f["blobs"] if c["t"].get("blobs") else None
        oracle.attribution(c, f["x"], f["logl"], f["logp"], b, "history " + where, called)
        oracle.latent(c, res, "history " + where)
        if not full:
            return
        for m in POST_MODES:
            for hb in ([False, True] if b is not None else [False]):
                o = oracle.query(self.s, m, hb)
                if m.get("resample"):
                    x, l, p = o[0], o[1], o[2]
                else:
                    x, l, p = o[0], o[2], o[3]
                oracle.attribution(c, x, l, p, o[-1] if hb else None, "posterior(%s) %s" % (m, where), called)
                self.st.units += 1

    def after(self, op, failed):
        res = oracle.history(self.s)
        if res:
            self.judge(res, "after a failed run" if failed is not None else "after " + op["op"])
            self.st.nontrivial = True
            t = self.c["t"]
            P = self.st.probes
            if t.get("blobs"):
                P["blobs:" + t["blobs"]] += 1
            P["invalid"] += bool(t.get("invalid"))
            P["precond"] += bool(self.c["precond"])
            if t.get("hole"):
                P["hole:" + t["hole"]] += 1
            for k in ("periodic", "reflective"):
                P[k] += bool(self.c.get(k))
            P["vec"] += self.c["mode"] == "vec"
            P["pool"] += self.c["mode"] in ("pool", "exec", "intpool")
            self.st.mark(res["x"][-1].tobytes())


def gen(r, tier, i):
    hole = r.choice([None, None, None, "half", "most", "ring", "ring"])
    c = gen_cfg(r, precond=r.flip(0.35), modes=MODES, blobs=r.flip(0.6), hole=hole or False, invalid=r.flip(0.4))
    return dict(cfg=c, ops=life.gen_ops(r, fail=0.2, restart=0.2, crash=0.15, query=0.1, maxruns=2, precond=c["precond"], sites=("eval", "prior", "pool")),
                pool=r.randrange(1000), peek=r.choice([0, 97, 331, 31]))


def run(case, st):
    life.play(case, st, Mon)


def shrink(case):
    for c in life.shrink_ops(case):
        yield c
    if case["peek"]:
        yield dict(case, peek=0)
