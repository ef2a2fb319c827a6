"""C15: samplers living in one process do not influence each other."""
import copy, os
import numpy as np
from sim.core import Violation, Stats, Choices, shrink_list
from sim.world import (gen_cfg, gen_invalid, shrink_cfg, make_sampler, run_args, observe, diff, rec, get_rng, set_rng, set_fixed_rng, plain, same, keep_rng, RECS, SimPrior)
from sim.proc import run_child, sut
from sim import disk as D, sched as S, ckpt, scratch, pool as simpool

CASES = dict(quick=88, thorough=12000)
RULE = ("A case is two or three samplers with equal or different configurations, sharing prior, likelihood, option dictionaries, pool and/or output directory, each with "
        "one or two run() calls, queries and checkpoints. They are executed in one process as tasks of a scheduler that switches between them "
        "at likelihood evaluations, prior evaluations and storage operations (or one after the other), each with its own random stream; every "
        "sampler must produce exactly what it produces alone in a fresh process. Non-trivial: at least two switches. Distinct: by switch sequence.")
MEASURE = "hash of the sequence in which the samplers were scheduled"
FAULTS = ["switch:eval", "switch:prior", "switch:disk"]
PROBES = ["shared-arguments", "shared-directory", "same-configuration", "three", "precond", "blobs", "checkpoint-compared", "sequential", "created-first", "shared-pool", "user-objects", "prior-with-stored-draws"]
REAL = ["pocomc sampler, particles, kernels, flow, prior", "dill", "torch, numpy, scipy", "real threads, one running at a time"]
STUB = ["thread scheduling (chosen by the simulator)", "random streams (the global generators' state is switched with the sampler)", "process pools", "disk (observed)", "user likelihood and prior"]
ASSUME = ["each sampler is given its own random stream: the global generators are shared by design"]
CPU = 240


def gen(r, tier, i):
    n = r.choice([2, 2, 2, 3])
    share = r.flip(0.5)
    samecfg = share and r.flip(0.4)
    base = gen_cfg(r, precond=r.flip(0.35), modes=("serial", "serial", "vec", "pool"), n_max_steps=r.choice([None, 3, 8]))
    if share and r.flip(0.3):
        base["t"] = dict(base["t"], bank=True)
        if r.flip(0.7) and not base["t"]["hole"] and base["t"]["lik"] != "flat":
            base["t"]["invalid"] = gen_invalid(r)
    acts = []
    for k in range(n):
        if samecfg:
            c = dict(base, seed=r.choice([base["seed"], r.randrange(2 ** 31)]))
        elif share:
            c = gen_cfg(r, precond=base["precond"] if r.flip() else r.flip(0.3), modes=("serial",), n_max_steps=r.choice([None, 3, 8]))
            c["t"], c["mode"] = base["t"], base["mode"]
            c["periodic"], c["reflective"] = base.get("periodic"), base.get("reflective")
            c["epochs"] = base["epochs"]
            c["tc"] = base.get("tc", {})
        else:
            c = gen_cfg(r, precond=r.flip(0.35), modes=("serial", "serial", "vec", "pool"), n_max_steps=r.choice([None, 3, 8]))
        steps = [[r.choice([0.5, 1.0, 1.5]), r.choice([None, None, 1, 2])]]
        if r.flip(0.4):
            steps.append([steps[0][0] + 1.0, r.choice([None, 1])])
        acts.append(dict(cfg=c, steps=steps, query=r.flip(0.4)))
    return dict(acts=acts, share=share, dir=r.choice(["same", "same", "own"]), sched=r.choice([dict(seed=r.randrange(10 ** 6))] * 4 + [dict(list=[])]),
                first=r.flip(0.3), every=r.choice([1, 1, 3, 10]), pool=r.flip(0.5))


def actor(case, root, k, shared, st, boxed, pool=None):
    a = case["acts"][k]
    c = a["cfg"]
    out = os.path.join(root, "o" if case["dir"] == "same" else "o%d" % k)
    s = boxed.get("s") or make_sampler(c, rid="shared" if case["share"] else "w%d" % k, out=out, label="lab%d" % k, shared=shared, pool=pool if c["mode"] == "pool" else None)
    obs = []
    for m, save in a["steps"]:
        sut("run()", s.run, **run_args(c, n_total=int(c["n_eff"] * m), save_every=save))
        obs.append(observe(s, full=False, blobs=bool(c["t"].get("blobs"))) if a["query"] else None)
    boxed["s"] = s
    boxed["out"] = out
    return obs


def finish(case, k, boxed):
    """What sampler k shows at the end, and what its checkpoints contain."""
    c = case["acts"][k]["cfg"]
    hb = bool(c["t"].get("blobs"))
    fin = observe(boxed["s"], blobs=hb)
    cks = {}
    out = boxed["out"]
    if os.path.isdir(out):
        for fn in sorted(os.listdir(out)):
            if fn.startswith("lab%d_" % k):
                with keep_rng():
                    q = make_sampler(c, rid="probe", out=out, label="x", seed=5)
                    sut("load_state() of %s" % fn, q.load_state, os.path.join(out, fn))
                    cks[fn] = ckpt.obs_light(q)
    return fin, cks


def solo(case, root, k):
    st = Stats()
    simpool.ENV.update(choose=Choices(dict(list=[])), stats=None)
    set_fixed_rng(1000 + k)
    b = {}
    obs = actor(case, root, k, {} if case["share"] else None, st, b)
    return obs, finish(case, k, b)


def together(case, root):
    st = Stats()
    simpool.ENV.update(choose=Choices(dict(list=[])), stats=None)
    n = len(case["acts"])
    d = D.Disk(root)
    choose = Choices(case["sched"])

    def on_in(t):
        set_rng(t.data["rng"])

    def on_out(t):
        t.data["rng"] = get_rng()
    sc = S.Sched(choose, max_steps=10 ** 6, on_in=on_in, on_out=on_out)
    cnt = [0]

    def yp(kind):
        t = S.current()
        if t is None or t.data.get("hold"):
            return
        cnt[0] += 1
        if cnt[0] % case["every"]:
            return
        was = sc.switches
        sc.yield_()
        if sc.switches != was:
            st.faults["switch:" + kind] += 1
    shared = {} if case["share"] else None
    pool = simpool.SimPool(4) if case["pool"] else None
    boxes = [{} for _ in range(n)]
    outs = {}
    for rid in (["shared"] if case["share"] else ["w%d" % k for k in range(n)]):
        r = rec(rid)
        r.on_eval = lambda i, x: yp("eval")
        r.on_prior = lambda i, x: yp("prior")
    rngs = []
    for k in range(n):
        set_fixed_rng(1000 + k)
        rngs.append(get_rng())
    if case["first"]:                       # all samplers exist before any of them runs
        for k in range(n):
            a = case["acts"][k]
            set_rng(rngs[k])
            out = os.path.join(root, "o" if case["dir"] == "same" else "o%d" % k)
            boxes[k]["s"] = make_sampler(a["cfg"], rid="shared" if case["share"] else "w%d" % k, out=out, label="lab%d" % k, shared=shared,
                                         pool=pool if a["cfg"]["mode"] == "pool" else None)
            rngs[k] = get_rng()
        st.probes["created-first"] += 1
    d.on_op = lambda kind, path: yp("disk")
    d.install()

    def body(k):
        def go():
            outs[k] = actor(case, root, k, shared, st, boxes[k], pool)
        return go
    for k in range(n):
        t = sc.spawn("s%d" % k, body(k))
        t.data["rng"] = rngs[k]
    sc.run()
    d.on_op = None
    for t in sc.tasks:
        if t.exc is not None:
            raise t.exc
    d.uninstall()
    if shared is not None:
        t = case["acts"][0]["cfg"]["t"]
        c0 = case["acts"][0]["cfg"]
        st.probes["user-objects"] += 1
        want = dict(args=[1.5, [2.0]] if t.get("args") else None, kw={"k": 3.0} if t.get("args") else None,
                    tc=dict(dict(epochs=c0.get("epochs", 2), patience=50), **c0.get("tc", {})), periodic=c0.get("periodic"), reflective=c0.get("reflective"))
        for k, v in want.items():
            if shared[k] != v or (isinstance(v, dict) and list(shared[k]) != list(v)):
                raise Violation("argument-modified", "the user's %s was changed from %r to %r" % (k, v, shared[k]))
        fresh, used = SimPrior(t["prior"], "oracle", t.get("hole"), t.get("bank", False)), shared["prior"]
        if t.get("bank"):
            st.probes["prior-with-stored-draws"] += 1
            if not same(fresh.bank, used.bank):
                raise Violation("argument-modified", "draws stored in the user's prior were overwritten")
            for k, v in used.memo.items():
                if not same(v, fresh.pure(np.frombuffer(k).reshape(-1, fresh.dim))):
                    raise Violation("argument-modified", "densities stored in the user's prior were overwritten")
        with keep_rng():
            set_fixed_rng(4)
            x = fresh.rvs(20)
            set_fixed_rng(4)
            x2 = used.rvs(20)
        if used.kinds != t["prior"] or not same(x, x2) or not same(fresh.pure(x), used.pure(x)) or not same(plain(fresh.bounds), plain(used.bounds)) or len(used.dists) != len(fresh.dists):
            raise Violation("argument-modified", "the user's prior object behaves differently after it was used")
        if set(shared["lik"].__dict__) != {"t", "rid"}:
            raise Violation("argument-modified", "the user's likelihood object was modified: %s" % sorted(shared["lik"].__dict__))
    for r in RECS.values():
        r.on_eval = r.on_prior = None
    st.mark(sc.trace)
    st.events += sc.steps
    st.nontrivial = sc.switches >= 2
    st.probes["sequential"] += sc.switches <= n
    return [(outs[k], finish(case, k, boxes[k])) for k in range(n)], st.dump()


def run(case, st):
    n = len(case["acts"])

    def alone():
        for k in range(n):
            with scratch.scratch() as r2:
                run_child(solo, (case, r2, k))
    with scratch.scratch() as root:
        _, (got, d) = run_child(together, (case, root), cpu=200, sound=alone)
    st.absorb(d)
    P = st.probes
    P["three"] += n == 3
    P["shared-arguments"] += case["share"]
    P["shared-directory"] += case["dir"] == "same"
    P["same-configuration"] += case["acts"][0]["cfg"]["n_eff"] == case["acts"][1]["cfg"]["n_eff"] and case["share"]
    for k in range(n):
        with scratch.scratch() as root:
            _, (obs, (fin, cks)) = run_child(solo, (case, root, k))
        st.units += 1
        c = case["acts"][k]["cfg"]
        P["precond"] += bool(c["precond"])
        P["blobs"] += bool(c["t"].get("blobs"))
        P["shared-pool"] += case["pool"] and c["mode"] == "pool"
        gobs, (gfin, gcks) = got[k]
        for q, (x, y) in enumerate(zip(obs, gobs)):
            if x is not None:
                e = diff(x, y, ("alone", "with others"))
                if e:
                    raise Violation("samplers-interfere", "sampler %d after run %d: %s" % (k, q, e))
        e = diff(fin, gfin, ("alone", "with others"))
        if e:
            raise Violation("samplers-interfere", "sampler %d: %s" % (k, e))
        if sorted(cks) != sorted(gcks):
            raise Violation("samplers-interfere", "sampler %d wrote %s alone and %s with others" % (k, sorted(cks), sorted(gcks)))
        for fn in cks:
            P["checkpoint-compared"] += 1
            e = diff(cks[fn], gcks[fn], ("alone", "with others"))
            if e:
                raise Violation("samplers-interfere", "checkpoint %s of sampler %d: %s" % (fn, k, e))


def shrink(case):
    if len(case["acts"]) > 2:
        for l in shrink_list(case["acts"]):
            if len(l) >= 2:
                yield dict(case, acts=l)
    for i, a in enumerate(case["acts"]):
        put = lambda a2: dict(case, acts=case["acts"][:i] + [a2] + case["acts"][i + 1:])
        if len(a["steps"]) > 1:
            yield put(dict(a, steps=a["steps"][:1]))
        if a["steps"][0][1]:
            yield put(dict(a, steps=[[s[0], None] for s in a["steps"]]))
        if a["query"]:
            yield put(dict(a, query=False))
    if case["sched"] != dict(list=[]):
        yield dict(case, sched=dict(list=[]))
    if case["every"] == 1:
        yield dict(case, every=30)
    if case["pool"]:
        yield dict(case, pool=False)
    if case["first"]:
        yield dict(case, first=False)
    if not case["share"]:
        for i, a in enumerate(case["acts"]):
            for c in shrink_cfg(a["cfg"]):
                yield dict(case, acts=case["acts"][:i] + [dict(a, cfg=c)] + case["acts"][i + 1:])
    else:
        for key in ("precond", "dynamic", "n_evidence", "train_freq", "n_prior"):
            v = dict(precond=False, dynamic=False, n_evidence=0, train_freq=None, n_prior=None)[key]
            if any(a["cfg"][key] != v for a in case["acts"]):
                yield dict(case, acts=[dict(a, cfg=dict(a["cfg"], **{key: v})) for a in case["acts"]])
