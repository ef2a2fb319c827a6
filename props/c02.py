"""C02: a failed checkpoint save is reported and does no damage."""
import os
from sim.core import Violation, Rand, shrink_list
from sim.world import gen_cfg, shrink_cfg, diff, make_sampler, run_args, observe
from sim.proc import run_child, sut
from sim import disk as D, ckpt, scratch

CASES = dict(quick=120, thorough=8000)
RULE = ("A case is a random sampler configuration, a sequence of runs (with or without checkpoints every k iterations) and explicit "
        "saves, and storage faults: at randomly chosen storage operations of chosen saves, one of ENOSPC, EIO, EACCES, EMFILE, EDQUOT, EROFS "
        "(transient or lasting), or a short or interrupted write; after each failure the old checkpoint is read back, the save retried and "
        "the run continued, and the end is compared with a twin in which nothing failed. Non-trivial: at least one fault fired. "
        "Distinct: by fault history and operation trace.")
FAULTS = ["ENOSPC", "EIO", "EACCES", "EMFILE", "short:write", "EINTR:write"]
PROBES = ["fault:in-run", "fault:explicit", "fault:overwrite", "retry-ok", "continued-run", "lasting-fault"]
REAL = ["pocomc sampler, particles, kernels, flow", "dill serialisation", "Python buffered I/O", "real file system below the simulated disk"]
STUB = ["disk errors (simulated at the system-call boundary)", "user likelihood and prior"]
ERR = ["ENOSPC", "EIO", "EACCES", "EMFILE", "EDQUOT", "EROFS"]


def gen(r, tier, i):
    cfg = gen_cfg(r, precond=r.flip(0.15), flow="tiny", modes=("serial", "serial", "vec", "pool"), n_total=1)
    steps = []
    if r.flip(0.2):
        steps.append(["save", "o/x.state"])
    steps.append(["run", 1.0, r.choice([None, 1, 2, 3])])
    for _ in range(r.randint(0, 3)):
        steps.append(["save", r.choice(["o/x.state", "o/x.state", "o/x.state", "o/y", "n/m/x.state"])])
    if r.flip(0.7):
        steps.append(["run", r.choice([1.5, 2.0]), r.choice([None, 1, 2])])
        for _ in range(r.randint(0, 2)):
            steps.append(["save", "o/x.state"])
    if not any(s[0] == "save" or s[2] for s in steps):
        steps += [["save", "o/x.state"], ["save", "o/x.state"]]
    if r.flip(0.4):                       # only explicit saves: faults land on them
        steps = [s if s[0] == "save" else ["run", s[1], None] for s in steps] + [["save", "o/x.state"]] * 2
    faults = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        kind = r.choice(["err", "err", "err", "err", "short", "eintr"])
        f = dict(save=r.randrange(r.choice([1, 2, 4, 8])), op=r.choice([0, 0, 1, 2, 3, 4, 5, 6, "fsync", "rename", "open", "last"]), kind=kind)
        if kind == "err":
            f["errno"] = r.choice(ERR)
            f["sticky"] = r.flip(0.3)
        else:
            f["frac"] = r.random()
        faults.append(f)
    return dict(cfg=cfg, steps=steps, faults=faults)


def _read(root, cfg, rel):
    from sim.world import keep_rng
    with keep_rng():
        return _read_(root, cfg, rel)


def _read_(root, cfg, rel):
    s = make_sampler(cfg, rid="load", out=os.path.join(root, "o"), seed=(cfg["seed"] ^ 77) & 0x7fffffff)
    s.load_state(os.path.join(root, rel))
    return ckpt.obs_light(s)


def _files(root):
    return {n: c for n, c in D.snapshot(root).items() if c is not None}


def _synced(log):
    """Inodes whose every byte is synced."""
    dirty = set()
    for op in log:
        if op[0] in ("write", "trunc"):
            dirty.add(op[1])
        elif op[0] == "fsync":
            dirty.discard(op[1])
    return dirty


def life(case, root, st):
    from sim.world import rec, get_rng, set_rng
    c = case["cfg"]
    d = D.Disk(root, st)
    d.install()
    s = make_sampler(c, out=os.path.join(root, "o"), label="lab")
    pend = {}
    for f in case["faults"]:
        pend.setdefault(f["save"], []).append(f)
    state = dict(save=-1, ops=0, active=None, fired=[], inside=False)

    # a save starts with the first storage operation after anything else happened; retries are separate saves
    def on_op(kind, path):
        if not state["inside"]:
            state["inside"] = True
            state["save"] += 1
            state["ops"] = 0
            state["todo"] = pend.pop(state["save"], []) if state.get("arm") else []
        else:
            state["ops"] += 1
        for f in list(state["todo"]):
            hit = f["op"] == state["ops"] or f["op"] == kind or (f["op"] == "last" and kind == "rename")
            if f["kind"] in ("short", "eintr"):
                hit = kind == "write" and (not isinstance(f["op"], int) or state["ops"] >= f["op"])
            if hit:
                state["todo"].remove(f)
                d.faults[d.n] = f
                state["fired"].append((f, kind, path))
    d.on_op = on_op
    d.on_publish = lambda kind, path: None
    rec("a").on_eval = lambda i, x: state.update(inside=False)
    trace = []
    known = {}                                    # path -> observation last stored there

    def check_stored(skip=None):
        """Everything stored before is still there and complete."""
        d.armed = False
        for rel, want in sorted(known.items()):
            if not os.path.exists(os.path.join(root, rel)):
                raise Violation("old-checkpoint-lost", "%s vanished after a failed save" % rel)
            try:
                got = _read(root, c, rel)
            except Exception as e:
                raise Violation("old-checkpoint-damaged", "%s cannot be loaded after a failed save: %r" % (rel, e))
            x = diff(want, got)
            if x and rel != skip:
                raise Violation("old-checkpoint-changed", "%s after a failed save: %s" % (rel, x))
        d.armed = True

    def note_run_saves():
        """Remember what in-run checkpoints hold (read back from the files themselves)."""
        d.armed = False
        for n in _files(root):
            if n.startswith("o/lab_") and n.endswith(".state"):
                try:
                    known[n] = _read(root, c, n)
                except Exception as e:
                    raise Violation("saved-checkpoint-unreadable", "%s cannot be loaded: %r" % (n, e))
        d.armed = True

    def attempt(what, fn, explicit=None):
        """Call something that saves; returns True if it went through."""
        state.update(arm=True, inside=False, fired=[])
        n0 = len(d.log)
        before = ckpt.obs_light(s)
        try:
            fn()
            ok = True
        except (Violation,):
            raise
        except OSError as e:
            ok = False
            if not [f for f in state["fired"] if f[0]["kind"] == "err"]:
                raise Violation("spurious-failure", "%s failed although every storage operation succeeded or was to be retried (%s): %r" % (what, [f[1:] for f in state["fired"]], e))
        except Exception as e:
            ok = False
            if not [f for f in state["fired"] if f[0]["kind"] == "err"]:
                raise
        state.update(arm=False, inside=False)
        hard = [f for f in state["fired"] if f[0]["kind"] == "err"]
        d.sticky = None
        if state["fired"]:
            st.nontrivial = True
            st.probes["fault:explicit" if explicit else "fault:in-run"] += 1
            st.probes["lasting-fault"] += any(f[0].get("sticky") for f in hard)
        for f in state["fired"]:
            st.mark(f[0]["kind"], f[0].get("errno"), f[1], os.path.basename(f[2]))
        if ok and hard and any(f[1] != "unlink" for f in hard):
            # tolerated only if the save is complete and durable all the same (an internal retry)
            if explicit:
                x = None
                try:
                    x = diff(before, _read(root, c, explicit)) or (_synced(d.log[n0:]) and "data never synced")
                except Exception as e:
                    x = repr(e)
                if x:
                    raise Violation("failure-swallowed", "%s returned normally although %s failed with %s, and the checkpoint is not complete: %s" % (what, hard[0][1], hard[0][0]["errno"], x))
            else:
                raise Violation("failure-swallowed", "%s returned normally although a checkpoint's %s failed with %s" % (what, hard[0][1], hard[0][0]["errno"]))
        return ok

    for step in case["steps"]:
        if step[0] == "save":
            rel = step[1]
            over = rel in known
            for tries in range(6):
                o = ckpt.obs_light(s)
                if attempt("save_state()", lambda: s.save_state(os.path.join(root, rel)), explicit=rel):
                    break
                st.probes["fault:overwrite"] += over
                x = diff(o, ckpt.obs_light(s))
                if x:
                    raise Violation("sampler-changed", "the sampler changed during a failed save: %s" % x)
                check_stored()
            else:
                raise Violation("save-never-succeeds", "save_state() keeps failing after storage recovered")
            if tries:
                st.probes["retry-ok"] += 1
            known[rel] = o
            check_stored()
        else:
            cc = run_args(c, n_total=int(c["n_eff"] * step[1]), save_every=step[2])
            tr = []
            trace.append(tr)
            for tries in range(8):
                ok = attempt("run()", lambda: s.run(**cc))
                tr.append((ok, rec("a").n))
                if ok:
                    break
                check_stored()
                note_run_saves()
                st.probes["continued-run"] += 1
            else:
                raise Violation("run-never-succeeds", "run() keeps failing after storage recovered")
            note_run_saves()
            check_stored()
    d.uninstall()
    st.units += 1
    return observe(s, blobs=bool(c["t"].get("blobs"))), st.dump(), trace


def twin(case, root, trace):
    """The same calls of run() on a disk that never fails. A failure of the last save of a run (all evaluations done)
    means that the caller called run() on a finished run, so the twin does too."""
    from sim.world import rec
    c = case["cfg"]
    s = make_sampler(c, out=os.path.join(root, "o"), label="lab")
    k = 0
    for step in case["steps"]:
        if step[0] == "run":
            a = run_args(c, n_total=int(c["n_eff"] * step[1]))
            sut("run()", s.run, **a)
            for ok, n in trace[k]:
                if not ok and n == rec("a").n:
                    sut("run()", s.run, **a)
            k += 1
    return observe(s, blobs=bool(c["t"].get("blobs")))


def run(case, st):
    from sim.core import Stats
    with scratch.scratch() as root:
        out = run_child(life, (case, root, Stats()))
        obs, dump, trace = out[1]
        st.absorb(dump)
        if st.nontrivial and any(s[0] == "run" for s in case["steps"]):
            with scratch.scratch() as root2:
                _, t = run_child(twin, (case, root2, trace))
            x = diff(t, obs, ("without failing saves", "with failing saves"))
            if x:
                raise Violation("run-disturbed", "a run with failing checkpoint saves ends differently: %s" % x)


def shrink(case):
    for l in shrink_list(case["faults"]):
        if l:
            yield dict(case, faults=l)
    for l in shrink_list(case["steps"]):
        if l:
            yield dict(case, steps=l)
    for f in case["faults"]:
        if f["save"] > 0:
            yield dict(case, faults=[dict(g, save=0) if g is f else g for g in case["faults"]])
        if f.get("sticky"):
            yield dict(case, faults=[dict(g, sticky=False) if g is f else g for g in case["faults"]])
    for c in shrink_cfg(case["cfg"]):
        yield dict(case, cfg=c)
