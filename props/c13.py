"""C13: runs climb monotonically to the posterior and stop exactly when promised."""
import numpy as np
from sim.world import gen_cfg, rec
from sim import life, oracle, ref

CASES = dict(quick=240, thorough=30000)
RULE = ("A case is a random configuration and history of runs with growing, equal or smaller targets, failures, crashes and restarts. After every "
        "run the recorded temperatures are checked (start, monotone, range) and the requested sample-size metric is recomputed from the "
        "history, at the end and after every earlier iteration of that call. Non-trivial: a run ended. Distinct: by temperatures recorded.")
FAULTS = ["eval:", "prior:", "pool:", "crash"]
PROBES = ["added-nothing", "added-more", "smaller-target", "after-failure", "after-restart", "metric:ess", "metric:uss", "bounded", "tiny-total"]
REAL = ["pocomc sampler, particles, kernels, flow, prior", "dill", "torch, numpy, scipy"]
STUB = ["process pools", "process death and restart", "disk (observed)", "user likelihood and prior"]
ASSUME = ["temperature one is taken as reached within 1e-4, as documented in the code", "bounded: 300 iterations per call, about ten times what these targets need"]
LIMIT = 300


class Mon(life.Monitor):
    def __init__(self, case, st):
        life.Monitor.__init__(self, case, st)
        self.state = dict(T=0, pend=0, restarted=0)
        self.peek = 61

    def attach(self, s, how):
        self.s = s
        self.fresh = how == "load"
        if how == "loaded":
            self.state["restarted"] = 1

    def inside(self, i):
        res = oracle.history(self.s)
        if res:
            oracle.ladder(res, self.c)
            if len(res["beta"]) > self.state["T"] + LIMIT:
                oracle.V("unbounded", "%d iterations without reaching the end", len(res["beta"]) - self.state["T"])

    def publish(self):
        self.state["T"] = len(oracle.history(self.s).get("beta", []))

    def before(self, op):
        self.T0 = self.state["T"]

    def after(self, op, failed):
        S, P = self.state, self.st.probes
        res = oracle.history(self.s)
        if res:
            oracle.ladder(res, self.c)
        T = len(res.get("beta", []))
        if op["op"] in ("run", "crash") and failed is None:
            n = int(self.c["n_eff"] * op["mult"])
            oracle.stopped_right(res, self.c, n, self.T0)
            P["metric:" + self.c["metric"]] += 1
            P["bounded"] += 1
            P["added-nothing"] += T == self.T0
            P["added-more"] += 0 < self.T0 < T
            P["smaller-target"] += op["mult"] < 0.5 + S.get("maxm", 0) and T == self.T0
            S["maxm"] = max(S.get("maxm", 0), op["mult"])
            P["after-failure"] += S["pend"] > 0
            P["after-restart"] += S["restarted"] > 0
            P["tiny-total"] += n <= self.c["n_act"]
            S["pend"] = S["restarted"] = 0
            self.st.nontrivial = True
            self.st.mark(res["beta"].tolist())
            if T - self.T0 > LIMIT:
                oracle.V("unbounded", "%d iterations in one run", T - self.T0)
        elif failed is not None:
            S["pend"] += 1
        elif op["op"] == "restart":
            S["restarted"] = 1
        S["T"] = T


def gen(r, tier, i):
    c = gen_cfg(r, precond=r.flip(0.25), modes=("serial", "serial", "vec", "pool"), n_max_steps=r.choice([1, 2, 3, 8]), invalid=r.flip(0.15), hole=r.flip(0.1))
    c["n_evidence"] = 0 if r.flip(0.7) else c["n_evidence"]
    ops = life.gen_ops(r, fail=0.35, restart=0.35, crash=0.2, query=0.0, maxruns=4, precond=False, sites=("eval", "eval", "prior", "pool"))
    if r.flip(0.2):
        for o in ops:
            if o["op"] in ("run", "crash") and r.flip():
                o["mult"] = r.choice([0.0, 0.1, 0.25])
    return dict(cfg=c, ops=ops, pool=r.randrange(1000))


def run(case, st):
    life.play(case, st, Mon)


def shrink(case):
    return life.shrink_ops(case)
