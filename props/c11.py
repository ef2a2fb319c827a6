"""C11: reported likelihood call counts are exact."""
import numpy as np
from sim.world import gen_cfg, rec, SimPrior
from sim import life, oracle

CASES = dict(quick=160, thorough=20000)
RULE = ("A case is a random configuration and history of runs (with and without evidence estimation), extensions, failures, crashes, restarts. "
        "The simulator owns the likelihood and knows, before every single evaluation, how many points were evaluated so far; whenever a new "
        "iteration is first visible its recorded count must equal that number. Non-trivial: counts of at least one run were compared.")
FAULTS = ["eval:", "prior:", "pool:", "crash"]
PROBES = ["counted", "evidence-calls", "extended-after-evidence", "restart", "resume-after-crash", "outside-skipped", "vec", "pool", "serial"]
REAL = ["pocomc sampler, particles, kernels, scaler, flow, prior", "dill", "torch, numpy, scipy"]
STUB = ["process pools", "process death and restart", "disk (observed)", "user likelihood and prior (logged)"]


class Mon(life.Monitor):
    peek = 1

    def __init__(self, case, st):
        life.Monitor.__init__(self, case, st)
        self.state = dict(n=0, lost=0, T=0, mark=0, ev=0)
        self.prior = SimPrior(self.c["t"]["prior"], "oracle", self.c["t"].get("hole"))
        self.base = None

    def total(self):
        if self.base is None:
            self.base = self.state["n"]
        return self.base + rec("a").n

    def look(self, n, exact=True):
        res = oracle.history(self.s)
        S = self.state
        if not res:
            return
        T = len(res["beta"])
        if "calls" not in res or len(res["calls"]) != T:
            oracle.V("no-count", "%d iterations, %d call counts", T, len(res.get("calls", [])))
        if T > S["T"]:
            if T == S["T"] + 1 or not exact:
                k = float(res["calls"][-1])
                if not (n - S["lost"] <= k <= n):
                    oracle.V("wrong-calls", "iteration %d records %r likelihood calls; %d points had been evaluated when it ended%s", T - 1, res["calls"][-1], n,
                             " (%d of them in aborted iterations)" % S["lost"] if S["lost"] else "")
                self.st.probes["counted"] += 1
            S["T"], S["mark"] = T, n
        S["n"] = n

    def inside(self, i):
        n = self.total()
        self.look(n)

    def publish(self):
        self.look(self.total())
        self.state["n"] = self.total()

    def before(self, op):
        self.total()
        self.state["T0"] = self.state["T"]

    def after(self, op, failed):
        n = self.total()
        S = self.state
        if op["op"] in ("run", "crash"):
            ev = op["ev"] if op.get("ev") is not None else self.c["n_evidence"]
            with_ev = bool(self.c["precond"] and ev)
            if failed is not None:
                # an iteration may have ended just before the failing evaluation (seen by inside()); the rest was aborted
                S["lost"] += n - S["mark"]
                S["mark"] = n
            else:
                if not with_ev:
                    self.look(n)
                else:
                    res = oracle.history(self.s)
                    if len(res["beta"]) > S["T"]:
                        k = int(res["calls"][-1])
                        if not (n - ev - S["lost"] <= k <= n):
                            oracle.V("wrong-calls", "iteration %d records %d calls; %d points were evaluated in all, at most %d of them for the evidence", len(res["beta"]) - 1, k, n, ev)
                        S["T"] = len(res["beta"])
                    self.st.probes["evidence-calls"] += 1
                    S["ev"] = 1
                res = oracle.history(self.s)
                if not with_ev and S["T"] > S["T0"] and not (n - S["lost"] <= int(res["calls"][-1]) <= n):
                    oracle.V("wrong-calls", "after the run the last iteration records %d calls, %d points were evaluated", int(res["calls"][-1]), n)
                if S["ev"] and S["T"] > S["T0"] and S["T0"] > 0:
                    self.st.probes["extended-after-evidence"] += 1
                if np.any(np.diff(np.asarray(res["calls"], float)) < 0):
                    oracle.V("wrong-calls", "call counts decrease: %s", res["calls"])
                self.st.nontrivial = True
                self.st.mark(res["calls"].tolist())
                S["mark"] = n
            S["n"] = n
            self.outside()
            m = self.c["mode"]
            self.st.probes["pool" if m in ("pool", "exec", "intpool") else m] += 1

    def outside(self):
        """No point outside the prior support is ever evaluated."""
        r = rec("a")
        if r.n:
            x = np.array([np.frombuffer(b) for b in r.calls])
            lp = self.prior.pure(x)
            bad = np.flatnonzero(~np.isfinite(lp))
            if len(bad):
                oracle.V("evaluated-outside", "the likelihood was evaluated at %s, outside the prior support", x[bad[0]])
            self.st.probes["outside-skipped"] += bool(self.c["t"].get("hole"))


def gen(r, tier, i):
    c = gen_cfg(r, precond=r.flip(0.4), modes=("serial", "serial", "vec", "pool", "exec", "intpool"), hole=r.choice([False, False, "half", "most", "ring", "ring"]))
    return dict(cfg=c, ops=life.gen_ops(r, fail=0.2, restart=0.3, crash=0.2, query=0.0, maxruns=3, precond=c["precond"], sites=("eval", "prior", "pool")),
                pool=r.randrange(1000))


def run(case, st):
    life.play(case, st, Mon)


def shrink(case):
    return life.shrink_ops(case)
