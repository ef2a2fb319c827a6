"""C03: resuming from any checkpoint continues exactly the interrupted run."""
import os
from sim.core import Violation, Rand, Stats, shrink_list
from sim.world import (gen_cfg, shrink_cfg, diff, make_sampler, run_args, observe, rec, get_rng, set_rng)
from sim.proc import run_child, sut, die
from sim import disk as D, ckpt, scratch

CASES = dict(quick=88, thorough=6000)
RULE = ("A case is a random sampler configuration, one to three successive run() calls with growing targets, checkpoints before, during "
        "(every k iterations) and after them, and a chain of one to three crash-and-resume links: each link starts a fresh process that "
        "resumes from a checkpoint picked among those that exist, and crashes at a random likelihood evaluation or storage operation (the "
        "last link runs to the end). Non-trivial: at least one resume happened. Distinct: by picked checkpoints, crash points and trace.")
FAULTS = ["crash:eval", "crash:op"]
PROBES = ["resume:before-run", "resume:warm-up", "resume:mid-run", "resume:final", "chain>1", "resume:extended", "how:load", "how:resume"]
REAL = ["pocomc sampler, particles, kernels, flow, prior", "dill serialisation", "torch, numpy, scipy"]
STUB = ["process death (real fork and immediate exit at the chosen point)", "disk (observed)", "process pools (simulated)", "user likelihood",
        "random stream carried over by the simulator (the checkpoint does not contain it)"]
ASSUME = ["the random generators' state at the moment the checkpoint appeared is restored by the simulator before resuming"]


def gen(r, tier, i):
    cfg = gen_cfg(r, precond=r.flip(0.4), modes=("serial", "serial", "vec", "pool", "exec", "intpool"), flow=r.choice(["tiny", "tiny", "tiny", "maf3"]), n_total=1)
    if cfg["precond"] and r.flip(0.5):      # resumed iterations that do not train
        cfg["train_freq"] = r.choice([2, 3, 5])
        cfg["t"]["width"] = r.choice([0.2, 0.5])
    steps = [[r.choice([0.5, 1.0, 1.5, 2.0]), r.choice([1, 1, 2, 3, 4])]]
    if r.flip(0.5):
        steps.append([r.choice([2.5, 3.0, 3.5]), r.choice([1, 2])])
    links = []
    for j in range(r.choice([1, 1, 2, 3])):
        links.append(dict(pick=r.choice([r.random(), 0.3 + 0.6 * r.random(), 0.4 + 0.5 * r.random(), 0.5 + 0.4 * r.random(), 0.0, 0.15, 0.999]), how=r.choice(["resume", "load"]),
                          save=r.choice([1, 1, 2, 3]), crash=dict(kind=r.choice(["eval", "eval", "op"]), at=r.random()),
                          swap=r.flip(0.3)))
    return dict(cfg=cfg, steps=steps, pre=r.flip(0.5), links=links)


def _blobs(c):
    return bool(c["t"].get("blobs"))


def life(case, root, start, rng, link, first, final):
    """One process life. start: None, or (path, step index, 'mid'|'final'|'pre'). Returns published checkpoints."""
    c = dict(case["cfg"])
    if link is not None and link["swap"] and c["mode"] in ("serial", "pool", "exec", "intpool"):
        c["mode"] = {"serial": "serial", "pool": "exec", "exec": "serial", "intpool": "pool"}[c["mode"]]
    d = D.Disk(root)
    pubs = []
    step = [start[1] if start else 0]
    s = make_sampler(c, out=os.path.join(root, "o"), label="lab", seed=None if first else (c["seed"] + 991) & 0x7fffffff)
    kind = ["mid"]

    def on_publish(k, path):
        rel = d.rel(path)
        if not rel.endswith(".state"):
            return
        o = ckpt.obs_light(s)
        if "no-results" not in o:
            o = observe(s, full=False, blobs=_blobs(c))
        kd = "final" if "final" in os.path.basename(rel) else kind[0]
        pubs.append(dict(path=rel, img=None, step=step[0], kind=kd, rng=get_rng(), obs=o, t=len(o.get("results.beta", []))))

    def payload():
        return pubs
    d.on_publish = on_publish
    d.crash_payload = payload
    if not final:
        cr = link["crash"]
        if cr["kind"] == "eval":
            rec("a").on_eval = lambda i, x: die(payload()) if i >= cr["n"] else None
        else:
            d.faults[cr["n"]] = dict(kind="kill")
    d.install()
    steps = case["steps"]
    if start is None:
        if case["pre"]:
            kind[0] = "pre"
            sut("save_state() before the run", s.save_state, os.path.join(root, "o", "pre.state"))
            kind[0] = "mid"
        todo = list(range(len(steps)))
        resume = None
    else:
        path, q, kd = start[:3]
        resume = os.path.join(root, path)
        todo = list(range(q + 1 if kd == "final" else q, len(steps)))
        obs0 = start[3]
        # right after loading (in an otherwise unused sampler, so that loading twice cannot matter)
        p = make_sampler(c, out=os.path.join(root, "o"), label="lab", seed=5)
        sut("load_state()", p.load_state, resume)
        o = ckpt.obs_light(p)
        if "no-results" not in o:
            o = observe(p, full=False, blobs=_blobs(c), what="querying right after loading")
        x = diff(obs0, o, ("at saving", "after loading"))
        if x:
            raise Violation("load-differs", "right after loading %s: %s" % (path, x))
        if link["how"] == "load":
            sut("load_state()", s.load_state, resume)
            resume = None
        set_rng(rng)
    for q in todo:
        step[0] = q
        a = run_args(c, n_total=int(c["n_eff"] * steps[q][0]), save_every=link["save"] if link is not None else steps[q][1])
        if resume is not None:
            a["resume_state_path"] = resume
            resume = None
        sut("run()", s.run, **a)
        if q + 1 < len(steps):
            kind[0] = "final"
            sut("save_state()", s.save_state, os.path.join(root, "o", "between%d.state" % q))
            kind[0] = "mid"
    if resume is not None:
        sut("load_state()", s.load_state, resume)
    d.uninstall()
    ops, evals = d.n, rec("a").n
    return dict(pubs=pubs, obs=observe(s, blobs=_blobs(c)), ops=ops, evals=evals)


def run(case, st):
    with scratch.scratch() as root:
        _, ref = run_child(life, (case, root, None, None, None, True, True))
        st.events += ref["evals"] + ref["ops"]
        img = D.snapshot(root)
        pubs = {p["path"]: p for p in ref["pubs"]}
        for j, link in enumerate(case["links"]):
            final = j == len(case["links"]) - 1
            order = sorted(pubs.values(), key=lambda p: (p["step"], p["t"], p["kind"] == "final", p["path"]))
            if not order:
                break
            p = order[min(int(link["pick"] * len(order)), len(order) - 1)]
            if not final:
                # crash somewhere in what is left to do
                lk = dict(link, crash=dict(link["crash"]))
                frac = p["t"] / max(1, len(ref["obs"]["results.beta"]))
                tot = (ref["evals"] if lk["crash"]["kind"] == "eval" else ref["ops"]) * max(0.02, 1 - frac)
                lk["crash"]["n"] = int(lk["crash"]["at"] * tot)
            else:
                lk = link
            kindname = {"pre": "before-run", "final": "final"}.get(p["kind"]) or ("warm-up" if p["obs"]["results.beta"][-1] == 0.0 else "mid-run")
            st.probes["resume:" + kindname] += 1
            st.probes["how:" + link["how"]] += 1
            st.probes["resume:extended"] += p["kind"] == "final" and p["step"] + 1 < len(case["steps"])
            st.probes["chain>1"] += j > 0
            st.nontrivial = True
            st.mark(p["path"], p["t"], lk["crash"].get("n"), link["how"])
            out = run_child(life, (case, root, (p["path"], p["step"], p["kind"], p["obs"]), p["rng"], lk, False, final), sound=True)
            st.units += 1
            if out[0] == "crash":
                st.faults["crash:" + link["crash"]["kind"]] += 1
                for q in out[1]:
                    pubs[q["path"]] = q
            else:
                for q in out[1]["pubs"]:
                    pubs[q["path"]] = q
                st.events += out[1]["evals"]
                if p["kind"] == "final" and p["step"] == len(case["steps"]) - 1:
                    x = diff({k: v for k, v in ref["obs"].items() if not k.startswith("posterior")}, {k: v for k, v in out[1]["obs"].items() if not k.startswith("posterior")})
                else:
                    x = diff(ref["obs"], out[1]["obs"], ("uninterrupted", "resumed"))
                if x:
                    raise Violation("resume-differs", "resuming from %s (%s, iteration %d) does not continue the interrupted run: %s" % (p["path"], kindname, p["t"], x))
            # every checkpoint a resumed life wrote is a prefix of the uninterrupted history
            for q in (out[1] if out[0] == "crash" else out[1]["pubs"]):
                full = ref["obs"]
                for k, v in q["obs"].items():
                    if k.startswith("results.") and k not in ("results.logw", "results.blobs"):
                        if not _prefix(v, full[k]):
                            raise Violation("resume-differs", "checkpoint %s written by a resumed run is not a prefix of the uninterrupted history (%s)" % (q["path"], k))


def _prefix(v, full):
    from sim.world import same
    return len(v) <= len(full) and same(v, full[:len(v)])


def shrink(case):
    for l in shrink_list(case["links"]):
        if l:
            yield dict(case, links=l)
    if len(case["steps"]) > 1:
        yield dict(case, steps=case["steps"][:1])
    if case["pre"]:
        yield dict(case, pre=False)
    for i, l in enumerate(case["links"]):
        if l["swap"]:
            yield dict(case, links=case["links"][:i] + [dict(l, swap=False)] + case["links"][i + 1:])
    for c in shrink_cfg(case["cfg"]):
        yield dict(case, cfg=c)
