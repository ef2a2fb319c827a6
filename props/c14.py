"""C14: weights, evidence and effective sizes follow from the recorded history."""
import numpy as np
from sim.world import gen_cfg, rec
from sim import life, oracle, ref

CASES = dict(quick=224, thorough=30000)
RULE = ("A case is a random configuration and history of runs, extensions, failures, crashes and restarts. An independent reference model recomputes, "
        "from the recorded likelihoods, temperatures and evidences of the earlier iterations, each iteration's temperature decision, sample size "
        "and evidence, and the importance weights, trimming, resampling and evidence that are returned. Non-trivial: a run was judged. "
        "Distinct: by recorded temperatures and evidences.")
FAULTS = ["eval:", "prior:", "pool:", "crash"]
PROBES = ["step:hold", "step:jump", "step:bisect", "step:grow", "step:shrink", "metric:ess", "metric:uss", "evidence-off", "after-failure", "restart",
          "resample:mult", "resample:syst", "trimmed", "invalid"]
REAL = ["pocomc sampler, particles, kernels, flow, prior, tools", "dill", "torch, numpy, scipy"]
STUB = ["process pools", "process death and restart", "disk (observed)", "user likelihood and prior"]
ASSUME = ["reference and recorded values agree to 1e-6 (the reference sums in another order)",
          "after an aborted iteration the target of the temperature search is not known to the reference, which then checks size and evidence at the recorded temperature only"]


class Mon(life.Monitor):
    def __init__(self, case, st):
        life.Monitor.__init__(self, case, st)
        self.state = dict(failed=0)
        self.peek = 151

    def inside(self, i):
        res = oracle.history(self.s)
        if res:
            oracle.weights(res, self.c)

    def after(self, op, failed):
        S, P, c = self.state, self.st.probes, self.c
        S["failed"] += failed is not None
        res = oracle.history(self.s)
        if not res:
            return
        if op["op"] == "query" or failed is not None or op["op"] in ("run", "crash"):
            hit = oracle.reference(res, c, known=S["failed"] == 0)
            for k, v in hit.items():
                P["step:" + k] += v
            oracle.weights(res, c)
            hb = bool(c["t"].get("blobs"))
            case = self.case
            oracle.posterior_weights(self.s, res, c, hb, case["ess_trim"], case["bins"])
            oracle.resampled(self.s, res, c, hb, seeds=(case["pool"], case["pool"] + 1))
            P["trimmed"] += 1
            P["resample:" + c["resample"]] += 1
            P["metric:" + c["metric"]] += 1
            P["invalid"] += bool(c["t"].get("invalid"))
            P["after-failure"] += S["failed"] > 0 and failed is None
            self.st.nontrivial = True
            self.st.mark(res["beta"].tolist(), res["logz"].tolist())
        if op["op"] in ("run", "crash") and failed is None:
            ev = op["ev"] if op.get("ev") is not None else c["n_evidence"]
            if not (c["precond"] and ev):
                oracle.evidence_is_mixture(self.s, res)
                P["evidence-off"] += 1


def gen(r, tier, i):
    c = gen_cfg(r, precond=r.flip(0.25), modes=("serial", "serial", "vec", "pool"), n_max_steps=r.choice([1, 2, 3, 8]), hole=r.flip(0.1), invalid=r.flip(0.25),
                dynamic=r.flip(0.7), metric=r.choice(["ess", "uss"]))
    if r.flip(0.3):
        c["n_eff"] = r.choice([1, 5, 6]) * c["n_act"]
    return dict(cfg=c, ops=life.gen_ops(r, fail=0.15, restart=0.25, crash=0.15, query=0.1, maxruns=3, precond=c["precond"], sites=("eval", "prior", "pool")),
                pool=r.randrange(1000), ess_trim=r.choice([0.5, 0.9, 0.99, 0.999, 1.0]), bins=r.choice([10, 100, 1000]))


def run(case, st):
    life.play(case, st, Mon)


def shrink(case):
    return life.shrink_ops(case)
