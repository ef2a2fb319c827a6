"""C12: a failing likelihood evaluation aborts the run cleanly."""
import os
import numpy as np
from sim.core import Violation, Choices
from sim.world import gen_cfg, rec, observe, diff, keep_rng, get_rng, set_rng, make_sampler, run_args, Lik
from sim.proc import sut, run_child
from sim import life, oracle, ref, scratch, mpijob

CASES = dict(quick=152, thorough=20000)
RULE = ("A case is a random configuration and history in which the likelihood, the prior or the pool raises one of thirteen exception types at a chosen evaluation "
        "(initial phase, any step of any iteration, evidence stage), once or several times, with checkpoints, restarts and continued runs in "
        "between; or a run whose likelihood fails on a worker of a simulated MPI pool. Judged: the error reaches the caller, the history is "
        "exactly what it was when user code raised, queries and checkpointing work, and the completed run satisfies the guarantees on "
        "samples, temperatures, weights and history. Non-trivial: a failure really struck.")
FAULTS = ["eval:", "prior:", "pool:", "crash", "mpi-task"]
PROBES = ["failed:first-batch", "failed:warm-up", "failed:sampling", "failed:at-one", "failed:evidence", "completed-after-failure", "restart-after-failure", "mpi", "repeated"]
REAL = ["pocomc sampler, particles, kernels, flow, prior, parallel.MPIPool", "dill", "torch, numpy, scipy"]
STUB = ["process pools", "MPI library (simulated ranks and messages)", "process restart", "disk (observed)", "user likelihood and prior"]
ASSUME = ["StopIteration is not among the exceptions: Python's own iteration protocol consumes it inside map()"]
CPU = 180


class Mon(life.Monitor):
    def __init__(self, case, st):
        life.Monitor.__init__(self, case, st)
        self.state = dict(failed=0, old={}, pend=0)
        self.at_fail = None

    def attach(self, s, how):
        self.s = s
        if how == "loaded":
            res = oracle.history(s)
            oracle.append_only(self.state["old"], res, "after loading")
            if self.state["old"] and len(res["beta"]) != len(self.state["old"]["beta"]):
                oracle.V("history-changed", "after loading there are %d iterations, %d when saved", len(res["beta"]), len(self.state["old"]["beta"]))

    def before(self, op):
        self.at_fail = None

    def failing(self, op, inj):
        self.at_fail = oracle.history(self.s)
        ev = None
        try:
            ev = self.s.evidence()
        except Exception:
            pass

    def publish(self):
        self.state["old"] = oracle.history(self.s)

    def after(self, op, failed):
        s, c, S = self.s, self.c, self.state
        if op["op"] == "restart":
            self.st.probes["restart-after-failure"] += bool(S["pend"])
            S["old"] = oracle.history(s)
            return
        res = oracle.history(s)
        oracle.append_only(S["old"], res, "after a failed run" if failed is not None else "after a run")
        if failed is not None:
            a = self.at_fail
            if len(a.get("beta", [])) != len(res.get("beta", [])):
                oracle.V("history-changed", "%d iterations were recorded when user code raised, %d after run() had failed", len(a.get("beta", [])), len(res.get("beta", [])))
            oracle.append_only(a, res, "by the failure")
            T = oracle.shape_of_history(res, c)
            P = self.st.probes
            w = max(1, (c["n_prior"] or 2 * max(c["n_eff"] // c["n_act"], 1) * c["n_act"]) // c["n_act"])
            done = bool(T) and 1 - res["beta"][-1] < 1e-4 and ref.final_size(res, c["metric"]) >= int(c["n_eff"] * op["mult"])
            P["failed:" + ("first-batch" if T == 0 else "warm-up" if T < w else "evidence" if done else "at-one" if res["beta"][-1] == 1.0 else "sampling")] += 1
            S["failed"] += 1
            P["repeated"] += S["pend"] > 0
            S["pend"] += 1
            self.st.nontrivial = True
            self.st.mark(T, rec("a").n)
            if T:
                self.usable(res)
            p = os.path.join(str(s.output_dir), "after-failure.state")
            sut("save_state() after a failed run", s.save_state, p)
            with keep_rng():
                q = make_sampler(c, rid="probe", out=str(s.output_dir), label="probe", seed=3)
                sut("load_state() of a checkpoint saved after a failed run", q.load_state, p)
                qres = oracle.history(q)
            if len(qres.get("beta", [])) != T:
                oracle.V("checkpoint-after-failure", "the checkpoint saved after the failure holds %d iterations, the sampler %d", len(qres.get("beta", [])), T)
            oracle.append_only(res, qres, "in the checkpoint saved after the failure")
        else:
            self.usable(res)
            if op["op"] == "run":
                oracle.stopped_right(res, c, int(c["n_eff"] * op["mult"]), len(S["old"].get("beta", [])) if not S["pend"] else 10 ** 9)
                ev = op["ev"] if op.get("ev") is not None else c["n_evidence"]
                z = s.evidence()
                if z[0] is None or not np.isfinite(float(z[0])):
                    oracle.V("no-evidence", "after a completed run evidence() is %r", z)
                if not (c["precond"] and ev):
                    oracle.evidence_is_mixture(s, res)
                elif z[1] is None or not np.isfinite(float(z[1])):
                    oracle.V("no-evidence", "after a completed run with evidence estimation evidence() is %r", z)
                self.st.probes["completed-after-failure"] += S["pend"] > 0
                S["pend"] = 0
        S["old"] = res

    def usable(self, res):
        """All guarantees on what is recorded."""
        s, c = self.s, self.c
        oracle.shape_of_history(res, c)
        f = oracle.flat(res)
        hb = bool(c["t"].get("blobs"))
        oracle.attribution(c, f["x"], f["logl"], f["logp"], f["blobs"] if hb else None, "history")
        oracle.ladder(res, c)
        oracle.reference(res, c, known=self.state["failed"] == 0)
        oracle.weights(res, c)
        oracle.posterior_weights(s, res, c, hb)


# ---------------------------------------------------------------- failing worker of an MPI pool

def mpi_case(case):
    from sim.core import Stats
    st = Stats()
    c = case["cfg"]
    import pocomc.parallel as P
    mpijob.JOB.clear()
    out = {}
    r = rec("a")
    armed = dict(on=True, at=case["at"], fired=0)

    def on_eval(i, x):
        if armed["on"] and i >= armed["at"]:
            armed["on"] = False
            armed["fired"] += 1
            st.faults["mpi-task"] += 1
            raise life.make_exc(case["exc"], 0)
    r.on_eval = on_eval

    def main(rank):
        pool = P.MPIPool()               # worker ranks stay in here until the pool is closed
        s = make_sampler(c, pool=pool)
        n = int(c["n_eff"] * 1.0)
        try:
            s.run(**run_args(c, n_total=n))
        except (Violation,):
            raise
        except BaseException as e:
            if not armed["fired"]:
                raise
            if life.MARK not in "".join(str(q) for q in life.chain(e)) and not any(type(q) is life.EXC[case["exc"] % len(life.EXC)] for q in life.chain(e)):
                raise Violation("error-replaced", "a worker raised %s, run() raised %r" % (life.EXC[case["exc"] % len(life.EXC)].__name__, e))
            res = oracle.history(s)
            out["failed_at"] = len(res.get("beta", []))
            armed["on"] = False
            sut("run() after a failed run", s.run, **run_args(c, n_total=n))
            oracle.append_only(res, oracle.history(s), "by running again")
            out["again"] = True
        else:
            if armed["fired"]:
                raise Violation("error-swallowed", "run() returned normally although a likelihood evaluation raised on a worker")
        res = oracle.history(s)
        oracle.shape_of_history(res, c)
        f = oracle.flat(res)
        oracle.attribution(c, f["x"], f["logl"], f["logp"], f["blobs"] if c["t"].get("blobs") else None, "history")
        oracle.ladder(res, c)
        oracle.stopped_right(res, c, n, 10 ** 9)
        pool.close()
        return True
    sc, w, tasks = mpijob.job(case["size"], case["sched"], main, st)
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    if out.get("again"):
        st.nontrivial = True
        st.probes["completed-after-failure"] += 1
        st.probes["mpi"] += 1
    return st.dump()


def gen(r, tier, i):
    if i % 8 == 7:
        c = gen_cfg(r, precond=False, hole=False, modes=("serial",))
        return dict(kind="mpi", cfg=c, size=r.choice([2, 3, 4, 6]), sched=dict(seed=r.randrange(10 ** 6)), at=int(10 ** (2.7 * r.random())) - 1, exc=r.choice([0, 1, 2, 5, 6]))
    pre = r.flip(0.4)
    c = gen_cfg(r, precond=pre, modes=("serial", "serial", "vec", "pool", "exec", "intpool"), hole=r.choice([False, False, False, "half"]),
                n_max_steps=r.choice([None, 3, 8]))
    ops = []
    while not any(o.get("fault") for o in ops):
        ops = life.gen_ops(r, fail=0.6, restart=0.3, crash=0.05, query=0.0, maxruns=2, precond=pre, evidence=0.6, sites=("eval", "eval", "prior", "pool"))
    return dict(kind="life", cfg=c, ops=ops, pool=r.randrange(1000))


def run(case, st):
    if case["kind"] == "mpi":
        _, d = run_child(mpi_case, (case,))
        st.absorb(d)
    else:
        life.play(case, st, Mon)


def shrink(case):
    if case["kind"] == "mpi":
        if case["size"] > 2:
            yield dict(case, size=2)
        if case["exc"]:
            yield dict(case, exc=0)
        if case["at"]:
            yield dict(case, at=case["at"] // 2)
            yield dict(case, at=0)
        from sim.world import shrink_cfg
        for c in shrink_cfg(case["cfg"]):
            yield dict(case, cfg=c)
        if case["sched"] != dict(list=[]):
            yield dict(case, sched=dict(list=[]))
    else:
        for c in life.shrink_ops(case):
            yield c
