"""C09: a seeded run is bit-reproducible."""
import json, os, pickle, subprocess, sys
import numpy as np
from sim.core import Violation, Stats, Rand
from sim.world import gen_cfg, shrink_cfg, make_sampler, run_args, observe, diff, rec, plain, set_fixed_rng
from sim.proc import run_child, sut
from sim import seams, scratch

CASES = dict(quick=96, thorough=12000)
RULE = ("A case is a random configuration (seed zero included) with one or two run() calls, executed several times with the same arguments in different "
        "simulated environments: another clock (start, speed, jumps), other operating-system entropy, other process id, other previous use of the global "
        "random generators, other samplers run before, and (in every eighth case) a new interpreter with another hash seed. Everything a user can "
        "query must be bit-identical. Non-trivial: always. Distinct: by configuration and environments.")
FAULTS = ["clock", "clock-jump", "entropy", "pid", "hash-seed", "dirty-rng", "earlier-sampler", "unseeded-earlier-sampler"]
PROBES = ["seed:0", "precond", "blobs", "evidence", "fresh-interpreter", "twice-in-process"]
REAL = ["pocomc sampler, particles, kernels, flow, prior, tools", "torch, numpy, scipy", "Python interpreter (fresh processes with other hash seeds)"]
STUB = ["clock", "operating-system entropy", "process id", "user likelihood and prior (pure)"]
ASSUME = ["one thread, same machine and library versions"]
CPU = 240
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def gen(r, tier, i):
    c = gen_cfg(r, precond=r.flip(0.5), modes=("serial", "serial", "vec", "pool"), n_max_steps=r.choice([None, 3, 8]))
    c["seed"] = r.choice([0, 0, 1, 2 ** 31 - 1, r.randrange(2 ** 31), r.randrange(2 ** 31)])
    steps = [r.choice([0.5, 1.0, 1.5])]
    if r.flip(0.3):
        steps.append(steps[0] + 1.0)
    envs = [gen_env(r) for _ in range(2)]
    return dict(cfg=c, steps=steps, envs=envs, fresh=r.choice([1, 77, 4242]) if i % 8 == 3 else None)


def gen_env(r):
    return dict(env=r.randrange(10 ** 6), dirty=r.randrange(5), before=r.choice([None, None, "seeded", "unseeded", "same"]), twice=r.flip(0.25))


def noise(k):
    """Earlier, unrelated use of the global generators."""
    import random, torch
    if k == 0:
        return
    for _ in range(k):
        np.random.rand(k * 3)
        random.random()
        torch.randn(k)
    if k > 2:
        np.random.seed(k)
        torch.manual_seed(k)
    if k > 3:
        np.random.randn()          # leaves a cached normal deviate behind
        random.seed(k)


def once(case, rid="a"):
    c = case["cfg"]
    s = make_sampler(c, rid=rid)
    obs = []
    for m in case["steps"]:
        sut("run()", s.run, **run_args(c, n_total=int(c["n_eff"] * m)))
        obs.append(observe(s, blobs=bool(c["t"].get("blobs"))))
        obs[-1]["resampled"] = plain(list(sut("posterior(resample=True)", s.posterior, resample=True)))   # goes on with the seeded stream
    return obs


def life(case, e):
    env = None
    if e is not None:
        env = seams.Env(e["env"]).install()
        noise(e["dirty"])
        if e["before"]:
            c2 = dict(case["cfg"])
            if e["before"] != "same":
                c2 = dict(c2, seed=(c2["seed"] + 5) & 0x7fffffff, sample="rwm" if c2["sample"] == "tpcn" else "tpcn", n_eff=2 * c2["n_act"])
            s2 = make_sampler(c2, rid="z")
            if e["before"] == "unseeded":
                import pocomc as pc
                from sim.world import kwargs_of
                kw = kwargs_of(c2, rid="z")
                kw["random_state"] = None
                s2 = pc.Sampler(**kw)
            sut("run()", s2.run, **run_args(c2, n_total=c2["n_act"]))
    obs = once(case)
    if e is not None and e["twice"]:
        obs2 = once(case, rid="b")
        for k, (x, y) in enumerate(zip(obs, obs2)):
            d = diff(x, y, ("first", "second"))
            if d:
                raise Violation("not-reproducible", "the same seeded run repeated in one process gives another result: %s" % d)
    return obs, (env.reads, env.entropy) if env else None


def run(case, st):
    c = case["cfg"]
    _, (ref, _) = run_child(life, (case, None))
    st.nontrivial = True
    st.mark(case["envs"], c["seed"])
    st.probes["seed:0"] += c["seed"] == 0
    st.probes["precond"] += bool(c["precond"])
    st.probes["blobs"] += bool(c["t"].get("blobs"))
    st.probes["evidence"] += bool(c["precond"] and c["n_evidence"])
    st.events += len(ref[-1]["results.beta"])
    for e in case["envs"]:
        _, (obs, used) = run_child(life, (case, e), sound=True)
        st.units += 1
        st.faults["clock"] += 1
        st.faults["clock-jump"] += seams.Env(e["env"]).jump != 0
        st.faults["entropy"] += 1
        st.faults["pid"] += 1
        st.faults["dirty-rng"] += e["dirty"] > 0
        if e["before"]:
            st.faults["unseeded-earlier-sampler" if e["before"] == "unseeded" else "earlier-sampler"] += 1
        st.probes["twice-in-process"] += bool(e["twice"])
        compare(ref, obs, e)
    if case["fresh"] is not None:
        st.faults["hash-seed"] += 1
        st.probes["fresh-interpreter"] += 1
        with scratch.scratch() as root:
            p = os.path.join(root, "case.json")
            with open(p, "w") as f:
                json.dump(case, f)
            out = subprocess.run([sys.executable, os.path.join(HERE, "sim", "fresh.py"), p, os.path.join(root, "out.pkl")],
                                 env=dict(os.environ, PYTHONHASHSEED=str(case["fresh"])), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if out.returncode != 0:
                from sim.proc import HarnessError
                raise HarnessError("fresh interpreter: " + out.stdout.decode()[-800:])
            with open(os.path.join(root, "out.pkl"), "rb") as f:
                obs = pickle.load(f)
        compare(ref, obs, "a new interpreter with hash seed %d" % case["fresh"])


def compare(a, b, e):
    for k, (x, y) in enumerate(zip(a, b)):
        d = diff(x, y, ("first", "again"))
        if d:
            raise Violation("not-reproducible", "same seed and arguments, other environment (%s): after run %d %s" % (e, k, d))


def shrink(case):
    if case["fresh"] is not None:
        yield dict(case, fresh=None)
        yield dict(case, envs=[])
    if len(case["envs"]) > 1:
        for e in case["envs"]:
            yield dict(case, envs=[e], fresh=None)
    if len(case["steps"]) > 1:
        yield dict(case, steps=case["steps"][:1])
    for i, e in enumerate(case["envs"]):
        for k, v in (("dirty", 0), ("before", None), ("twice", False)):
            if e[k] != v:
                yield dict(case, envs=case["envs"][:i] + [dict(e, **{k: v})] + case["envs"][i + 1:])
    for c in shrink_cfg(case["cfg"]):
        yield dict(case, cfg=c)
