"""C05: a checkpoint that cannot be read is rejected and changes nothing."""
import os
from sim.core import Violation, Stats, shrink_list
from sim.world import gen_cfg, shrink_cfg, diff, make_sampler, run_args, observe, rec, get_rng, set_rng, keep_rng
from sim.proc import run_child, sut
from sim import disk as D, ckpt, scratch

CASES = dict(quick=96, thorough=8000)
RULE = ("A case is a random sampler configuration, a donor process that leaves a checkpoint, and a sampler (unstarted, stopped in the middle "
        "by an error, or finished) that attempts to load or resume from it one to six times while the file is missing, a directory, unreadable, "
        "truncated at a random byte, or a read operation fails part-way; then it runs on or loads the intact checkpoint, and is compared with a "
        "twin that never tried. Short reads are injected too and must not matter. Non-trivial: at least one bad read. Distinct: by fault history.")
FAULTS = ["missing", "directory", "truncated", "empty", "EIO:read", "EACCES:open", "short:read"]
PROBES = ["via:load", "via:resume", "sampler:fresh", "sampler:partial", "sampler:finished", "then:run", "then:load"]
REAL = ["pocomc sampler, particles, kernels, flow, prior", "dill serialisation", "Python buffered I/O"]
STUB = ["read errors and truncation (simulated)", "user likelihood"]


def gen(r, tier, i):
    cfg = gen_cfg(r, precond=r.flip(0.2), flow="tiny", modes=("serial", "serial", "vec", "pool"), n_total=1)
    bad = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        k = r.choice(["missing", "directory", "truncated", "truncated", "truncated", "truncated", "empty", "readerr", "readerr", "openerr"])
        b = dict(kind=k, via=r.choice(["load", "resume"]), as_path=r.flip())
        if k == "truncated":
            b["at"] = r.choice([r.random(), r.random(), 1.0, 0.999, 0.0])
        if k == "readerr":
            b["nth"] = r.choice([0, 1, 2, 3, 5])
            b["errno"] = r.choice(["EIO", "ESTALE"])
        if k == "openerr":
            b["errno"] = r.choice(["EACCES", "EMFILE", "EIO"])
        bad.append(b)
    return dict(cfg=cfg, bad=bad, when=r.choice(["fresh", "partial", "finished"]), partial=r.random(),
                then=r.choice(["run", "run", "load"]), short=r.flip(0.4), donor=r.choice([0.5, 1.0, 2.0]))


class Boom(Exception):
    pass


def donor(case, root):
    c = dict(case["cfg"], seed=(case["cfg"]["seed"] + 17) & 0x7fffffff)
    s = make_sampler(c, out=os.path.join(root, "o"), rid="d")
    sut("run()", s.run, **run_args(c, n_total=int(c["n_eff"] * case["donor"])))
    sut("save_state()", s.save_state, os.path.join(root, "good.state"))
    return observe(s, full=False, blobs=bool(c["t"].get("blobs"))), rec("d").n


def life(case, root, attempts, donor_obs, nev, st):
    c = case["cfg"]
    good = os.path.join(root, "good.state")
    data = open(good, "rb").read()
    d = D.Disk(root, st)
    d.install()
    s = make_sampler(c, out=os.path.join(root, "o"))
    bl = bool(c["t"].get("blobs"))
    args = run_args(c, n_total=c["n_eff"], n_evidence=c["n_evidence"])
    if case["when"] == "partial":
        stop = int(case["partial"] * nev)
        r = rec("a")

        def bomb(i, x):
            if i >= stop:
                r.on_eval = None
                raise Boom()
        r.on_eval = bomb
        try:
            s.run(**args)
        except Boom:
            pass
        r.on_eval = None
    elif case["when"] == "finished":
        sut("run()", s.run, **args)
    before = ckpt.obs_light(s)
    st.probes["sampler:" + case["when"]] += 1
    if attempts:
        import pathlib
        for b in case["bad"]:
            p = os.path.join(root, "bad.state")
            if os.path.isdir(p):
                os.rmdir(p)
            elif os.path.exists(p):
                os.unlink(p)
            d.rfaults = {}
            if b["kind"] == "directory":
                os.mkdir(p)
            elif b["kind"] in ("truncated", "empty"):
                n = 0 if b["kind"] == "empty" else min(int(b["at"] * len(data)), len(data) - 1)
                with open(p, "wb") as f:
                    f.write(data[:n])
            elif b["kind"] in ("readerr", "openerr"):
                with open(p, "wb") as f:
                    f.write(data)
                if b["kind"] == "openerr":
                    d.rfaults = {d.rn: dict(kind="err", errno=b["errno"])}
                else:
                    d.rfaults = {d.rn + 1 + b["nth"]: dict(kind="err", errno=b["errno"])}
            f0 = sum(st.faults.values())
            arg = pathlib.Path(p) if b["as_path"] else p
            rng0 = get_rng()
            try:
                if b["via"] == "load":
                    s.load_state(arg)
                else:
                    s.run(**dict(args, resume_state_path=arg))
                err = None
            except Violation:
                raise
            except Exception as e:
                err = e
            if b["kind"] in ("readerr", "openerr"):
                if sum(st.faults.values()) == f0:     # fewer reads than expected: the file was read completely
                    if err is not None:
                        raise Violation("good-load-failed", "loading an intact checkpoint failed: %r" % (err,))
                    if b["via"] == "load":
                        raise_if_diff(donor_obs, s, bl)
                    return None, st.dump()
            else:
                st.faults[b["kind"]] += 1
            if err is None:
                raise Violation("bad-checkpoint-accepted", "%s of a checkpoint that is %s returned normally" % ("load_state()" if b["via"] == "load" else "run(resume_state_path)", b["kind"] + (" at byte %d of %d" % (n, len(data)) if b["kind"] == "truncated" else "")))
            st.nontrivial = True
            st.probes["via:" + b["via"]] += 1
            st.mark(b["kind"], b.get("at"), b.get("nth"), b["via"], case["when"])
            st.units += 1
            d.rfaults = {}
            x = diff(before, ckpt.obs_light(s), ("before", "after"))
            if x:
                raise Violation("failed-load-changed-sampler", "after a failed load (%s): %s" % (b["kind"], x))
    d.rfaults = {}
    if case["short"] and attempts:
        for q in range(d.rn, d.rn + 40):
            d.rfaults[q] = dict(kind="short", frac=0.3)
    st.probes["then:" + case["then"]] += attempts
    if case["then"] == "load":
        sut("loading an intact checkpoint", s.load_state, good)
        raise_if_diff(donor_obs, s, bl)
        sut("run() after loading", s.run, **run_args(c, n_total=int(c["n_eff"] * 2.5)))
    else:
        sut("run() after failed loads", s.run, **args)
    d.uninstall()
    return observe(s, blobs=bl), st.dump()


def raise_if_diff(want, s, bl):
    x = diff(want, observe(s, full=False, blobs=bl), ("saved", "loaded"))
    if x:
        raise Violation("load-differs", "a good checkpoint loaded after failed loads: %s" % x)


def run(case, st):
    with scratch.scratch() as root:
        _, (dobs, nev) = run_child(donor, (case, root))

        def twin():
            with scratch.scratch() as root2:
                with open(os.path.join(root, "good.state"), "rb") as f, open(os.path.join(root2, "good.state"), "wb") as g:
                    g.write(f.read())
                return run_child(life, (case, root2, False, dobs, nev, Stats()))[1][0]
        out = run_child(life, (case, root, True, dobs, nev, Stats()), sound=twin)[1]
        st.absorb(out[1])
        if out[0] is None:
            return
        t = twin()
        x = diff(t, out[0], ("never tried", "after failed loads"))
        if x:
            raise Violation("failed-load-had-effect", "the sampler ends differently after failed loads: %s" % x)


def shrink(case):
    for l in shrink_list(case["bad"]):
        if l:
            yield dict(case, bad=l)
    for k, v in (("short", False), ("when", "fresh"), ("then", "run")):
        if case[k] != v:
            yield dict(case, **{k: v})
    for c in shrink_cfg(case["cfg"]):
        yield dict(case, cfg=c)
