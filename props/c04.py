"""C04: checkpoints appear on schedule, as named, and do not disturb the run."""
import os, sys
from pathlib import Path
from sim.core import Violation, shrink_list
from sim.world import gen_cfg, shrink_cfg, diff, same, make_sampler, run_args, observe, get_rng, set_rng, keep_rng, plain
from sim.proc import run_child, sut
from sim import disk as D, ckpt, scratch

CASES = dict(quick=88, thorough=6000)
RULE = ("A case is a random sampler configuration, one to three run() calls with growing targets and a checkpoint interval each, an output "
        "directory (existing, missing, nested, default; string or path), a label and the progress display on or off; some runs are crashed "
        "and resumed in a fresh process with another interval. Every file present at the end of each life is accounted for and read back, and "
        "the whole is compared with a twin without checkpoints. Non-trivial: at least one intermediate checkpoint was due. Distinct: by file lists.")
FAULTS = ["crash"]
PROBES = ["dir:missing", "dir:nested", "dir:default", "label:default", "extended", "resumed", "interval>1", "warm-up-checkpoint", "progress", "left-over", "nothing-to-do"]
REAL = ["pocomc sampler, particles, kernels, flow, prior", "dill serialisation", "Python I/O on a scratch directory"]
STUB = ["process death (real fork and immediate exit)", "random stream carried over at resume", "user likelihood", "process pools"]


def gen(r, tier, i):
    cfg = gen_cfg(r, precond=r.flip(0.25), flow="tiny", modes=("serial", "serial", "vec", "pool"), n_total=1)
    steps = [[r.choice([0.5, 1.0, 1.5]), r.choice([1, 1, 2, 3, 4, 5, 7, 100])]]
    if r.flip(0.6):
        steps.append([r.choice([2.0, 2.5, 3.0]), r.choice([1, 1, 2, 3, None])])
    if r.flip(0.25):                        # a call that has nothing left to do
        steps.insert(r.choice([1, len(steps)]), [r.choice([0.2, 0.5]), r.choice([1, 2, None])])
        if r.flip():
            steps[0][1] = None
    return dict(cfg=cfg, steps=steps, dir=r.choice(["existing", "missing", "nested", "default"]), path=r.flip(),
                label=r.choice([None, "lab", "my.lab", "run 1", "a_b"]), progress=r.flip(0.3), stale=r.flip(0.3),
                resume=dict(pick=r.random(), save=r.choice([1, 2, 3])) if r.flip(0.4) else None)


def outdir(case, root):
    d = {"existing": "o", "missing": "o", "nested": "a/b/o", "default": "states"}[case["dir"]]
    return d


def life(case, root, resume, ref):
    c = case["cfg"]
    os.chdir(root)
    rel = outdir(case, root)
    out = None if case["dir"] == "default" else (Path(root, rel) if case["path"] else os.path.join(root, rel))
    if resume is None:
        if case["dir"] == "existing":
            os.mkdir(os.path.join(root, rel))
            if case["stale"]:      # what an earlier crash left behind, and somebody else's file
                for n in ("%s_1.temp" % (case["label"] or "pmc"), "%s_1.state.temp" % (case["label"] or "pmc")):
                    with open(os.path.join(root, rel, n), "wb") as f:
                        f.write(b"left-over")
                with open(os.path.join(root, rel, "notes.txt"), "w") as f:
                    f.write("mine")
    stale = {n for n, v in D.snapshot(root).items() if v is not None}
    sys.stderr = open(os.devnull, "w")
    s = make_sampler(c, out=out, label=case["label"], seed=None if resume is None else c["seed"] + 7)
    lab = case["label"] or "pmc"
    rngs = {}
    d = D.Disk(root)
    d.on_publish = lambda k, p: rngs.__setitem__(d.rel(p), get_rng())
    d.install()
    expected, T = {}, 0
    if resume is not None:
        set_rng(resume["rng"])
        expected = dict(resume["expected"])
        T = resume["t"]
    steps = case["steps"] if resume is None else [[case["steps"][0][0], resume["save"]]]
    lens, fin = [], None
    for q, (f, k) in enumerate(steps):
        a = run_args(c, n_total=int(c["n_eff"] * f), save_every=k, progress=case["progress"])
        if resume is not None and q == 0:
            a["resume_state_path"] = os.path.join(root, resume["path"])
        sut("run() with checkpoints", s.run, **a)
        res = s.results
        t0, T = T, len(res["beta"])
        if k is not None:
            for t in range(t0 + k, T, k):
                expected[os.path.join(rel, "%s_%d.state" % (lab, t))] = t
            expected[os.path.join(rel, lab + "_final.state")] = T
            fin = s.evidence()
        lens.append(T)
        d.armed = False
        got = {n for n, v in D.snapshot(root).items() if v is not None}
        mine = got - {n for n in stale if n not in expected}
        miss, extra = sorted(set(expected) - got), sorted(mine - set(expected))
        if miss:
            raise Violation("checkpoint-missing", "after run(save_every=%r) from iteration %d to %d: %s missing (found %s)" % (k, t0, T, miss, sorted(got)))
        if extra:
            raise Violation("unexpected-file", "after run(save_every=%r) from iteration %d to %d: unexpected %s" % (k, t0, T, extra))
        for n in sorted(expected):
            with keep_rng():
                p = make_sampler(c, rid="load", out=os.path.join(root, "zz"), seed=3)
                sut("loading " + n, p.load_state, os.path.join(root, n))
            o = p.results
            if n.endswith("_final.state") and fin and not same(plain(p.evidence()), plain(fin)):
                raise Violation("wrong-content", "%s holds evidence %r, the run's was %r" % (n, p.evidence(), fin))
            if len(o["beta"]) != expected[n]:
                raise Violation("wrong-content", "%s holds %d iterations instead of %d" % (n, len(o["beta"]), expected[n]))
            for key in o:
                if key == "logw" or (key == "blobs" and not c["t"].get("blobs")):
                    continue
                if not same(o[key], res[key][:expected[n]]):
                    raise Violation("wrong-content", "%s: %s is not that of the first %d iterations of the run" % (n, key, expected[n]))
        d.armed = True
    d.uninstall()
    return dict(obs=observe(s, blobs=bool(c["t"].get("blobs"))), lens=lens, expected=expected, rngs=rngs,
                warm=int((s.results["beta"] == 0).sum()))


def twin(case, root):
    c = case["cfg"]
    os.chdir(root)
    s = make_sampler(c, out=os.path.join(root, "never"))
    mid = None
    for f, k in case["steps"]:
        sut("run() without checkpoints", s.run, **run_args(c, n_total=int(c["n_eff"] * f)))
        if mid is None:
            mid = observe(s, blobs=bool(c["t"].get("blobs")))
    left = D.snapshot(root)
    if len(left) > 1:
        raise Violation("unexpected-file", "a run without checkpoints left %s" % sorted(left))
    return mid, observe(s, blobs=bool(c["t"].get("blobs")))


def run(case, st):
    with scratch.scratch() as root, scratch.scratch() as root2:
        _, (mid, t) = run_child(twin, (case, root2))
        _, o = run_child(life, (case, root, None, None), sound=True)
        x = diff(t, o["obs"], ("without", "with"))
        if x:
            raise Violation("run-disturbed", "checkpoints or progress display change a seeded run: %s" % x)
        st.probes["dir:" + case["dir"]] += 1
        st.probes["label:default"] += case["label"] is None
        st.probes["extended"] += len(case["steps"]) > 1
        st.probes["interval>1"] += any((k or 0) > 1 for f, k in case["steps"])
        st.probes["nothing-to-do"] += any(a == b and k for a, b, k in zip(o["lens"], o["lens"][1:], [k for f, k in case["steps"]][1:]))
        st.probes["progress"] += case["progress"]
        st.probes["left-over"] += case["dir"] == "existing" and case["stale"]
        inter = sorted(n for n, v in o["expected"].items() if not n.endswith("_final.state"))
        st.probes["warm-up-checkpoint"] += any(o["expected"][n] <= o["warm"] for n in inter)
        st.nontrivial = bool(inter)
        st.events += len(o["rngs"]) * 5
        st.mark(sorted(o["expected"].items()))
        st.units += 2
        first = [n for n in inter if o["expected"][n] < o["lens"][0] and n in o["rngs"]]
        if case["resume"] and first:
            n = first[int(case["resume"]["pick"] * len(first))]
            # the crash left every checkpoint up to and including n
            keep = {m: v for m, v in o["expected"].items() if v <= o["expected"][n] and not m.endswith("_final.state")}
            for m in o["expected"]:
                if m not in keep:
                    os.unlink(os.path.join(root, m))
            st.faults["crash"] += 1
            st.probes["resumed"] += 1
            _, o2 = run_child(life, (case, root, dict(path=n, t=o["expected"][n], rng=o["rngs"][n], expected=keep, save=case["resume"]["save"]), None), sound=True)
            x = diff(mid, o2["obs"], ("uninterrupted", "resumed with checkpoints"))
            if x:
                raise Violation("run-disturbed", "a resumed run with checkpoints differs: %s" % x)
            st.units += 1
            st.mark(sorted(o2["expected"].items()))


def shrink(case):
    if case["resume"]:
        yield dict(case, resume=None)
    if len(case["steps"]) > 1:
        yield dict(case, steps=case["steps"][:1])
        yield dict(case, steps=case["steps"][1:])
    for k, v in (("progress", False), ("stale", False), ("label", "lab"), ("dir", "existing"), ("path", False)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for c in shrink_cfg(case["cfg"]):
        yield dict(case, cfg=c)
