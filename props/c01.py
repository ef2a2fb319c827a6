"""C01: a crash while checkpointing never leaves a partial or mixed checkpoint."""
import os
from sim.core import Violation, Rand, shrink_list
from sim.world import gen_cfg, shrink_cfg, diff, make_sampler, run_args
from sim.proc import run_child, sut, HarnessError
from sim import disk as D, ckpt, scratch

CASES = dict(quick=64, thorough=6000)
RULE = ("A case is a story: one or two samplers (random configuration) run with checkpoints every k iterations and save "
        "explicitly (first saves and overwrites, odd file names, same or nested directories; two samplers are interleaved at "
        "every storage operation), plus crash points: after any storage operation or inside any write, by process kill or by "
        "power loss (un-synced data lost, torn or punched, un-journaled directory changes lost), and restarts that go on saving "
        "over the left-overs. Non-trivial: at least one crash image differed from the state before and after the save. "
        "Distinct: by hash of story trace and crash images.")
MEASURE = "hash of the operation trace and of every crash image examined"
FAULTS = ["kill", "power-loss"]
PROBES = ["kill:mid-write", "kill:before-publish", "leftover-temp", "absent-before-first", "old-version-survived", "restart", "interleaved", "overwrite"]
REAL = ["pocomc sampler, particles, kernels, flow", "dill serialisation", "Python buffered I/O", "real file system below the simulated disk"]
STUB = ["disk: operation log, crash and power-loss images (simulated)", "process kill (offline from the log, validated by real kills)", "user likelihood and prior"]
ASSUME = ["metadata operations become durable in order, at the latest with the next fsync (journaling file system)",
          "a power loss may undo an acknowledged save whose directory entry was not yet journaled (the code does not sync the directory)"]

NAMES = ["o/x.state", "o/x.state", "o/y", "o/x.bak", "o/x.y.state", "o/x.temp", "sub/dir/x.state", "x.state"]


def gen(r, tier, i):
    two = r.flip(0.4)
    acts = []
    for a in range(2 if two else 1):
        cfg = gen_cfg(r, precond=r.flip(0.2), flow="tiny", modes=("serial", "serial", "vec", "pool"), n_total=1)
        if i % 3 and not cfg["precond"]:
            cfg["n_prior"] = None
        steps = []
        if r.flip(0.3):
            steps.append(["save", r.choice(NAMES), r.flip()])
        steps.append(["run", r.choice([0.5, 1.0]), r.choice([None, 1, 2, 3, 5])])
        for _ in range(r.randint(1, 3)):
            steps.append(["save", r.choice(NAMES), r.flip()])
        if r.flip(0.6):
            steps.append(["run", r.choice([1.5, 2.0]), r.choice([None, 1, 2])])
            for _ in range(r.randint(1, 2)):
                steps.append(["save", r.choice(NAMES), r.flip()])
        if a == 1:      # different files in the same directory
            used = {s[1] for s in acts[0]["steps"] if s[0] == "save"}
            free = [n for n in NAMES if n not in used] or ["o/z.state"]
            steps = [s if s[0] != "save" or s[1] not in used else ["save", free[k % len(free)], s[2]] for k, s in enumerate(steps)]
        acts.append(dict(cfg=cfg, out="o", label=["pmc", "b.lab"][a], steps=steps))
    pts = []
    for _ in range(14):
        pts.append(dict(kind="kill", at=r.random(), frac=r.choice([None, None, r.random()])))
    for _ in range(18):
        pts.append(dict(kind="power", at=r.random(), seed=r.randrange(10 ** 9)))
    return dict(actors=acts, inter=dict(seed=r.randrange(10 ** 9)) if two and r.flip(0.8) else None, points=pts,
                restarts=[r.randrange(len(pts)) for _ in range(2)], realkill=r.flip(0.3))


def _verify(case, root, images, story):
    """Runs in its own process: load every checkpoint in every crash image and compare with the published versions."""
    notes = []
    for k, img, kind, seed in images:
        D.restore(root, img)
        hist = {}
        for n, ev, rel, v, who in story["events"]:
            hist.setdefault(rel, []).append((n, ev, v))
        for rel in sorted(hist):
            before = [v for n, ev, v in hist[rel] if n <= k]
            acked = [v for n, ev, v in hist[rel] if n <= k and ev == "ack"]
            after = [v for n, ev, v in hist[rel] if n > k][:1]
            present = rel in img
            # what may be found there
            if kind == "kill":
                allowed = before[-1:] + after
                may_be_absent = not before
            else:
                allowed = before + after
                may_be_absent = True
            if not present:
                if not may_be_absent:
                    raise Violation("checkpoint-lost", "%s: the checkpoint saved before is gone after a %s at operation %d" % (rel, kind, k))
                notes.append("absent-before-first")
                continue
            try:
                _, got = ckpt.load_obs(case, root, rel)
            except Exception as e:
                raise Violation("checkpoint-torn", "%s cannot be loaded after a %s at operation %d of %d (%s): %s: %s" % (
                    rel, kind, k, len(story["log"]), story["log"][k][0] if k < len(story["log"]) else "end", type(e).__name__, str(e)[:200]))
            ok = [v for v in allowed if diff(story["versions"][v], got) is None]
            if not ok:
                raise Violation("checkpoint-mixed", "%s after a %s at operation %d loads as neither the previous nor the new checkpoint (%s)" % (
                    rel, kind, k, diff(story["versions"][allowed[-1]], got) if allowed else "no version expected"))
            if after and before and before[-1] in ok:
                notes.append("old-version-survived")
            if kind == "kill" and after and before and ok == after and after != before[-1:]:
                notes.append("new-version")
    return notes


def _restart(case, root, img):
    """A process that comes up after the crash: saves over the left-overs and runs on."""
    D.restore(root, img)
    act = case["actors"][0]
    c = act["cfg"]
    s = make_sampler(c, rid="re", out=os.path.join(root, act["out"]), label=act["label"], seed=c["seed"] + 1)
    names = sorted({st[1] for a in case["actors"] for st in a["steps"] if st[0] == "save"})
    loaded = False
    for rel in sorted(img, key=str):
        if img[rel] is not None and ckpt.is_ckpt(case, rel) and ckpt.owner_cfg(case, rel) is c:
            sut("resuming after a crash", s.load_state, os.path.join(root, rel))
            loaded = True
            break
    if any(st[0] == "run" for st in act["steps"]):
        sut("run() after a crash", s.run, **run_args(c, n_total=c["n_eff"], save_every=1))
    for rel in names:
        sut("save_state() after a crash", s.save_state, os.path.join(root, rel))
    want = ckpt.obs_light(s)
    for rel in names + [os.path.join(act["out"], act["label"] + "_final.state")]:
        p = os.path.join(root, rel)
        if rel not in names and not any(st[0] == "run" for st in act["steps"]):
            continue
        if not os.path.exists(p):
            raise Violation("save-after-crash-lost", "%s missing after a save in a restarted process" % rel)
        try:
            _, got = ckpt.load_obs(case, root, rel)
        except Exception as e:
            raise Violation("save-after-crash-torn", "%s saved by a restarted process over left-overs cannot be loaded: %r" % (rel, e))
        d = diff(want, got)
        if d:
            raise Violation("save-after-crash-mixed", "%s saved by a restarted process over left-overs: %s" % (rel, d))
    return loaded


def run(case, st):
    with scratch.scratch() as root:
        _, story = run_child(ckpt.story, (case, root))
        log = story["log"]
        if case.get("inter"):
            st.probes["interleaved"] += story["switches"] > 2
        images = []
        for p in case["points"]:
            k = min(int(p["at"] * (len(log) + 1)), len(log))
            if p["kind"] == "kill":
                img = ckpt.apply_prefix(story["base"], log, k, p["frac"])
                st.faults["kill"] += 1
                if p["frac"] is not None and k < len(log) and log[k][0] == "write":
                    st.probes["kill:mid-write"] += 1
                lost = True
                kind = "kill"
            else:
                img, lost = D.power_loss(story["base"], log[:k], Rand("pl", p["seed"]))
                st.faults["power-loss" + ("" if lost else "(nothing lost)")] += 1
                kind = "power loss"
            left = [n for n, c in img.items() if c is not None and not ckpt.is_ckpt(case, n)]
            st.probes["leftover-temp"] += bool(left)
            st.probes["kill:before-publish"] += bool(left)
            if left:
                st.nontrivial = True
            st.mark(kind, k, sorted((n, len(c)) for n, c in img.items() if c is not None))
            images.append((k, img, "kill" if p["kind"] == "kill" else "power loss", 0))
            st.units += 1
        st.events += len(log)
        seen = {}
        for n, ev, rel, v, who in story["events"]:
            if ev == "pub":
                st.probes["overwrite"] += rel in seen
                seen[rel] = 1
        # final image: everything acknowledged must be there
        images.append((len(log), ckpt.apply_prefix(story["base"], log, len(log)), "kill", 0))
        _, notes = run_child(_verify, (case, root, images, story))
        for n in notes:
            st.probes[n] += 1
        for j in case["restarts"]:
            if j < len(images):
                run_child(_restart, (case, root, images[j][1]))
                st.probes["restart"] += 1
                st.units += 1
        if case.get("realkill") and images and story["kinds"]:
            # the off-line crash images are faithful: a really killed process leaves exactly that
            p = case["points"][0] if case["points"] else dict(at=0.5)
            op = int(p["at"] * len(story["kinds"]))
            D.restore(root, story["base"])
            out = run_child(ckpt.story, (case, root, dict(op=op)))
            if out[0] != "crash":
                raise HarnessError("kill at operation %d did not happen" % op)
            snap = D.snapshot(root)
            st.faults["kill(real)"] += 1
            _verify_real(case, root, snap, story, st)


def _verify_real(case, root, snap, story, st):
    """The real crash image must equal the off-line image at some prefix of the log."""
    for k in range(len(story["log"]) + 1):
        if ckpt.apply_prefix(story["base"], story["log"], k) == snap:
            return
    # file names may legitimately be random (temporary files): fall back to checking what is loadable
    for rel in snap:
        if snap[rel] is not None and ckpt.is_ckpt(case, rel):
            try:
                run_child(ckpt_load, (case, root, rel))
            except HarnessError as e:
                raise Violation("checkpoint-torn", "%s cannot be loaded after a kill: %s" % (rel, str(e)[-200:]))


def ckpt_load(case, root, rel):
    ckpt.load_obs(case, root, rel)


def shrink(case):
    if case.get("realkill"):
        yield dict(case, realkill=False)
    if case["restarts"]:
        yield dict(case, restarts=[])
        for l in shrink_list(case["restarts"]):
            yield dict(case, restarts=l)
    if len(case["actors"]) > 1:
        for a in case["actors"]:
            yield dict(case, actors=[a], inter=None)
        if case.get("inter"):
            yield dict(case, inter=None)
    if not case["restarts"] or len(case["points"]) > 1 + max(case["restarts"]):
        for l in shrink_list(case["points"]):
            if len(l) >= (max(case["restarts"]) + 1 if case["restarts"] else 0):
                yield dict(case, points=l)
    for i, a in enumerate(case["actors"]):
        for l in shrink_list(a["steps"]):
            yield dict(case, actors=case["actors"][:i] + [dict(a, steps=l)] + case["actors"][i + 1:])
        for c in shrink_cfg(a["cfg"]):
            yield dict(case, actors=case["actors"][:i] + [dict(a, cfg=c)] + case["actors"][i + 1:])
