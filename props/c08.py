"""C08: results do not depend on how likelihood evaluations are scheduled."""
import os
from sim.core import Violation, Stats, Choices
from sim.world import gen_cfg, shrink_cfg, make_sampler, run_args, observe, diff, rec, plain
from sim.proc import run_child, sut
from sim import mpijob, pool as simpool

CASES = dict(quick=104, thorough=12000)
RULE = ("A case is a random configuration and one or two run() calls, executed once serially and then in three or four other ways: vectorised, external "
        "process pool, pool created by the sampler, lazy executor, MPI pool, with random worker counts; the order in which evaluations complete "
        "and the message timing are chosen by the simulator. Everything a user can query must be identical, and the same points must have been "
        "evaluated. Non-trivial: at least one evaluation completed out of order. Distinct: by configuration, modes and completion schedule.")
MEASURE = "hash of configuration, evaluation modes and the sequence of completion choices"
FAULTS = ["out-of-order-completion", "message-delay", "cross-source-reorder", "unbuffered-send"]
PROBES = ["mode:vec", "mode:pool", "mode:exec", "mode:intpool", "mode:mpi", "blobs", "precond", "evidence", "workers:1", "workers:many"]
REAL = ["pocomc sampler, particles, kernels, flow, prior, parallel.MPIPool", "dill serialisation of tasks and results", "torch, numpy, scipy"]
STUB = ["process pools and executor (completion order chosen by the simulator)", "MPI library (simulated ranks and messages)", "user likelihood and prior (pure)"]
ASSUME = ["the likelihood gives the same bits one point at a time and vectorised"]
CPU = 240


def gen(r, tier, i):
    c = gen_cfg(r, precond=r.flip(0.35), modes=("serial",), n_max_steps=r.choice([None, 3, 8]))
    steps = [r.choice([0.5, 1.0, 1.5])]
    if r.flip(0.4):
        steps.append(steps[0] + 1.0)
    modes = ["pool", "exec", "intpool"]
    if not c["t"].get("blobs"):
        modes += ["vec", "vec"]
    var = []
    for _ in range(2):
        m = r.choice(modes)
        var.append(dict(mode=m, procs=r.choice([1, 2, 3, 4, 7, 40]) if m != "intpool" else r.choice([2, 3, 5, 16, 40, 64]), sched=dict(seed=r.randrange(10 ** 6))))
    if r.flip(0.5):
        var.append(dict(mode="mpi", procs=r.choice([2, 3, 4, 7]), sched=dict(seed=r.randrange(10 ** 6))))
    return dict(cfg=c, steps=steps, var=var)


def go(case, s):
    c = case["cfg"]
    obs = []
    for m in case["steps"]:
        sut("run()", s.run, **run_args(c, n_total=int(c["n_eff"] * m)))
        obs.append(observe(s, blobs=bool(c["t"].get("blobs"))))
        obs[-1]["resampled"] = plain(list(sut("posterior(resample=True)", s.posterior, resample=True)))   # goes on with the seeded stream
    return obs


def life(case, v):
    st = Stats()
    c = dict(case["cfg"])
    from sim.world import make_pool
    if v is None:
        s = make_sampler(c)
        obs = go(case, s)
    elif v["mode"] == "mpi":
        import pocomc.parallel as P
        mpijob.JOB.clear()
        out = {}

        def main(rank):
            pool = P.MPIPool()
            s = make_sampler(c, pool=pool)
            out["obs"] = go(case, s)
            pool.close()
        sc, w, tasks = mpijob.job(v["procs"] + 1, v["sched"], main, st)
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        obs = out["obs"]
    else:
        ch = Choices(v["sched"])
        simpool.ENV.update(choose=ch, stats=st)
        c["mode"] = v["mode"]
        s = make_sampler(c, pool=make_pool(v["mode"], v["procs"]))
        obs = go(case, s)
        st.mark(ch.rec)
    st.events += rec("a").n
    return obs, sorted(rec("a").calls), st.dump()


def run(case, st):
    _, (a, calls, _) = run_child(life, (case, None))
    c = case["cfg"]
    for v in case["var"]:
        _, (b, calls2, d) = run_child(life, (case, v), sound=True)
        st.absorb(d)
        st.units += 1
        st.probes["mode:" + v["mode"]] += 1
        st.probes["blobs"] += bool(c["t"].get("blobs"))
        st.probes["precond"] += bool(c["precond"])
        st.probes["evidence"] += bool(c["precond"] and c["n_evidence"])
        st.probes["workers:" + ("1" if v["procs"] == 1 else "many")] += 1
        st.mark(v)
        for k, (x, y) in enumerate(zip(a, b)):
            e = diff(x, y, ("serial", v["mode"]))
            if e:
                raise Violation("mode-differs", "after run %d, %s evaluation with %d workers gives another result than serial: %s" % (k, v["mode"], v["procs"], e))
        if calls != calls2:
            raise Violation("mode-differs", "%s evaluation visited other points than serial (%d and %d)" % (v["mode"], len(calls2), len(calls)))
    if st.faults["out-of-order-completion"] or st.faults["cross-source-reorder"] or any(v["mode"] == "vec" for v in case["var"]):
        st.nontrivial = True


def shrink(case):
    if len(case["var"]) > 1:
        for v in case["var"]:
            yield dict(case, var=[v])
    if len(case["steps"]) > 1:
        yield dict(case, steps=case["steps"][:1])
    for i, v in enumerate(case["var"]):
        put = lambda v2: dict(case, var=case["var"][:i] + [v2] + case["var"][i + 1:])
        if v["procs"] > 2:
            yield put(dict(v, procs=2))
        if v["sched"] != dict(list=[]):
            yield put(dict(v, sched=dict(list=[])))
    for c in shrink_cfg(case["cfg"]):
        yield dict(case, cfg=c)
