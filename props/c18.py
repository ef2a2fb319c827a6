"""C18: the recorded history is append-only, complete and current."""
import numpy as np
from sim.world import gen_cfg, rec, plain, same
from sim import life, oracle
from sim.proc import sut

CASES = dict(quick=152, thorough=20000)
RULE = ("A case is a random configuration and history of runs, queries, extensions, failures, crashes and restarts. results are read from inside "
        "likelihood evaluations (every k-th) and after every operation, and compared with everything read before: complete, unchanged, and showing "
        "exactly the iterations whose evaluations are over. Non-trivial: results were read at least three times. Distinct: by when they were read.")
FAULTS = ["eval:", "prior:", "pool:", "crash"]
PROBES = ["inside", "inside:initial", "inside:sampling", "current", "after-failure", "restart", "resume-after-crash", "extended", "posterior-matches"]
REAL = ["pocomc sampler, particles, kernels, flow, prior", "dill", "torch, numpy, scipy"]
STUB = ["process pools", "process death and restart", "disk (observed)", "user likelihood and prior (which read results)"]


class Mon(life.Monitor):
    def __init__(self, case, st):
        life.Monitor.__init__(self, case, st)
        self.peek = case["peek"]
        self.state = dict(old={}, failed=0, n=0)
        self.base = None
        self.seen = []                     # (evaluations before, iterations shown) within this call

    def total(self):
        if self.base is None:
            self.base = self.state["n"]
        return self.base + rec("a").n

    def attach(self, s, how):
        self.s = s
        self.pending = how == "load"       # resumes only when run() is called
        if how == "loaded":
            self.look("after loading", exactly=True)

    def look(self, where, exactly=False):
        old = self.state["old"]
        res = oracle.history(self.s)
        T = oracle.shape_of_history(res, self.c)
        oracle.append_only(old, res, where)
        if exactly and T != len(old.get("beta", [])):
            oracle.V("not-current", "%s results show %d iterations, %d were completed", where, T, len(old.get("beta", [])))
        if T:
            x = oracle.query(self.s, dict(trim_importance_weights=False), False)[0]
            if not same(x, res["x"].reshape(-1, x.shape[1])):
                oracle.V("not-current", "%s posterior() and results show different histories (%d and %d samples)", where, len(x), T * self.c["n_act"])
            self.st.probes["posterior-matches"] += 1
        self.state["old"] = res
        return T

    def inside(self, i):
        n = self.total()
        T = self.look("inside the run")
        self.seen.append((n, T))
        self.st.probes["inside"] += 1
        old = self.state["old"]
        self.st.probes["inside:sampling" if T and old["beta"][-1] > 0 else "inside:initial"] += 1

    def publish(self):
        self.total()
        self.look("when a checkpoint appeared")
        self.state["n"] = self.total()

    def before(self, op):
        self.total()
        self.seen = []
        self.T0 = len(self.state["old"].get("beta", []))
        # reading results must not go stale or raise before the next call either
        if self.T0 and not self.pending:
            self.look("before an operation", exactly=True)

    def after(self, op, failed):
        S, P = self.state, self.st.probes
        self.pending = False
        n = self.total()
        T = self.look("after a failed run" if failed is not None else "after " + op["op"])
        S["n"] = n
        if failed is not None:
            S["failed"] = 1
            P["after-failure"] += 1
        res = S["old"]
        if op["op"] in ("run", "crash") and failed is None and not S["failed"] and T:
            calls = np.asarray(res["calls"], float)
            for k, shown in self.seen:
                done = int(np.sum(calls <= k))
                if shown != done:
                    oracle.V("not-current", "after %d evaluations results showed %d iterations; %d were complete", k, shown, done)
                P["current"] += 1
            # each initial batch costs n_active evaluations, so the length of the history is known independently
            w = max(1, (self.c["n_prior"] or 2 * max(self.c["n_eff"] // self.c["n_act"], 1) * self.c["n_act"]) // self.c["n_act"])
            if T < w + 1:
                oracle.V("not-current", "after a complete run results show %d iterations, the initial phase alone has %d", T, w)
            ev = op["ev"] if op.get("ev") is not None else self.c["n_evidence"]
            if T > self.T0 and not (self.c["precond"] and ev) and calls[-1] != n:
                oracle.V("not-current", "after the run %d points were evaluated, the last iteration shown ended at %d", n, calls[-1])
        P["extended"] += op["op"] == "run" and 0 < self.T0 < T
        if len(self.seen) >= 3:
            self.st.nontrivial = True
        self.st.mark(self.seen, T)


def gen(r, tier, i):
    c = gen_cfg(r, precond=r.flip(0.3), modes=("serial", "serial", "vec", "pool", "exec", "intpool"))
    return dict(cfg=c, ops=life.gen_ops(r, fail=0.2, restart=0.3, crash=0.2, query=0.4, maxruns=3, precond=c["precond"], sites=("eval", "prior", "pool")),
                pool=r.randrange(1000), peek=r.choice([5, 7, 13, 16, 29, 53]))


def run(case, st):
    life.play(case, st, Mon)


def shrink(case):
    return life.shrink_ops(case)
