"""C17: invalid likelihood values never contaminate the run."""
import numpy as np
from sim.core import Violation
from sim.world import gen_cfg, rec, POST_MODES, gen_invalid
from sim import life, oracle, ref

CASES = dict(quick=176, thorough=20000)
RULE = ("A case is a random configuration whose likelihood returns minus infinity or NaN in a region or for a scattered set of points, and a random history "
        "of runs, extensions, evidence estimations, failures, crashes and restarts. The run must complete; no point whose likelihood is invalid may "
        "appear in the history or any posterior output; weights and evidence must be finite. Non-trivial: an invalid value was really returned.")
FAULTS = ["invalid:nan", "invalid:-inf", "eval:", "crash"]
PROBES = ["initial-phase", "sampling", "evidence-stage", "region", "spor", "vec", "serial", "pool", "blobs", "precond", "restart", "first-point"]
REAL = ["pocomc sampler, particles, kernels, flow, prior", "dill", "torch, numpy, scipy"]
STUB = ["process pools", "process death and restart", "disk (observed)", "user likelihood (returns the invalid values) and prior"]
ASSUME = ["every initial batch keeps at least one valid point (otherwise there is nothing to redraw from)"]


class Mon(life.Monitor):
    peek = 1

    def __init__(self, case, st):
        life.Monitor.__init__(self, case, st)
        self.seen = 0

    def inside(self, i):
        if i % 113 == 0:
            res = oracle.history(self.s)
            if res:
                self.judge(res, "inside the run", False)

    def judge(self, res, where, full=True):
        c = self.c
        oracle.shape_of_history(res, c)
        L = res["logl"]
        if not np.all(np.isfinite(L)):
            k = np.argwhere(~np.isfinite(L))[0]
            oracle.V("invalid-in-history", "%s: particle %d of iteration %d has log-likelihood %r", where, k[1], k[0], L[tuple(k)])
        f = oracle.flat(res)
        hb = bool(c["t"].get("blobs"))
        self.valid(f["x"], "history " + where)
        oracle.attribution(c, f["x"], f["logl"], f["logp"], f["blobs"] if hb else None, "history " + where)
        for k in ("logw", "logz", "beta", "ess", "u", "logdetj", "logp", "efficiency", "accept"):
            if not np.all(np.isfinite(np.asarray(res[k], float))):
                oracle.V("not-finite", "%s: results[%r] has non-finite entries", where, k)
        oracle.ladder(res, c)
        oracle.weights(res, c)
        if not full:
            return
        for m in POST_MODES:
            o = oracle.query(self.s, m, hb)
            self.valid(o[0], "posterior(%s) %s" % (m, where))
            for v in o[1:4] if not m.get("resample") else o[1:3]:
                if not np.all(np.isfinite(v)):
                    oracle.V("not-finite", "posterior(%s) %s has non-finite entries", m, where)

    def valid(self, x, where):
        from sim.world import loglike
        v = loglike(self.c["t"], x)
        bad = np.flatnonzero(~np.isfinite(v))
        if len(bad):
            oracle.V("invalid-in-history", "%s contains %s, whose likelihood is %r", where, x[bad[0]], v[bad[0]])

    def after(self, op, failed):
        c, P, t = self.c, self.st.probes, self.c["t"]
        res = oracle.history(self.s)
        if res:
            self.judge(res, "after a failed run" if failed is not None else "after " + op["op"])
        if op["op"] in ("run", "crash") and failed is None:
            n = int(c["n_eff"] * op["mult"])
            oracle.stopped_right(res, c, n, 10 ** 9)
            z = self.s.evidence()
            if not np.isfinite(float(z[0])):
                oracle.V("not-finite", "evidence() is %r", z)
            ev = op["ev"] if op.get("ev") is not None else c["n_evidence"]
            if c["precond"] and ev and (z[1] is None or not np.isfinite(float(z[1]))):
                oracle.V("not-finite", "evidence() is %r", z)
            r = rec("a")
            from sim.world import loglike
            if r.n > self.seen:
                x = np.array([np.frombuffer(b) for b in r.calls])
                bad = ~np.isfinite(loglike(t, x))
                new = bad.copy()
                new[:self.seen] = False
                self.seen = r.n
                if t.get("invalid"):
                    self.st.faults["invalid:" + t["invalid"]["val"]] += int(new.sum())
                    P[t["invalid"]["kind"]] += bool(new.any())
                if new.any():
                    self.st.nontrivial = True
                    w = np.flatnonzero(bad)
                    n0 = max(1, (c["n_prior"] or 2 * max(c["n_eff"] // c["n_act"], 1) * c["n_act"]) // c["n_act"]) * c["n_act"]
                    P["first-point"] += bool(bad[0])
                    P["initial-phase"] += bool(bad[:n0].any())
                    P["sampling"] += bool(bad[n0:].any())
                    P["evidence-stage"] += bool(c["precond"] and ev and bad[-min(ev, len(bad)) // 2:].any())
                    m = c["mode"]
                    P["pool" if m in ("pool", "exec", "intpool") else m] += 1
                    P["blobs"] += bool(t.get("blobs"))
                    P["precond"] += bool(c["precond"])
                    self.st.mark(w.tolist())


def gen(r, tier, i):
    c = gen_cfg(r, precond=r.flip(0.4), modes=("serial", "serial", "vec", "vec", "pool", "exec", "intpool"), hole=False, invalid=False)
    if c["t"]["lik"] == "flat" and r.flip(0.7):
        c["t"]["lik"] = "gauss"
    c["t"]["invalid"] = gen_invalid(r)
    if c["t"]["lik"] == "flat":
        c["t"]["invalid"] = dict(kind="spor", permille=r.choice([20, 100, 300]), val=r.choice(["nan", "-inf"]))
    return dict(cfg=c, ops=life.gen_ops(r, fail=0.1, restart=0.2, crash=0.15, query=0.0, maxruns=2, evidence=0.5, precond=c["precond"], sites=("eval", "prior")),
                pool=r.randrange(1000))


def run(case, st):
    life.play(case, st, Mon)


def shrink(case):
    for c in life.shrink_ops(case):
        yield c
