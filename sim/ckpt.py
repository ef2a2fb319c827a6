"""Helpers shared by the checkpoint properties: stories (sequences of runs and saves by one or two samplers) executed
over the simulated disk, and the log of which state was published where and when."""
import os
import numpy as np
from .core import Choices, Violation
from .world import make_sampler, run_args, plain, diff, rec, make_pool
from .proc import sut
from . import disk as D, sched as S


def obs_light(s):
    """Results and evidence of a sampler (an unstarted sampler has none)."""
    o = {"evidence": plain(list(s.evidence()))}
    try:
        res = s.results
    except Exception as e:
        o["no-results"] = type(e).__name__
        return o
    for k in sorted(res):
        o["results." + k] = plain(res[k])
    return o


def is_ckpt(case, rel):
    """Is this path (relative to the scratch root) one a checkpoint was asked for?"""
    name = os.path.basename(rel)
    for a, act in enumerate(case["actors"]):
        if rel in [st[1] for st in act["steps"] if st[0] == "save"]:
            return True
        if os.path.dirname(rel) == act["out"] and name.startswith(act["label"] + "_") and name.endswith(".state"):
            return True
    return False


def story(case, root, kill=None, setup=None, on_event=None):
    """Execute the actors' steps; returns what was published. Runs inside a simulated process."""
    d = D.Disk(root)
    if kill is not None:
        d.faults[kill["op"]] = dict(kind="kill", frac=kill.get("frac", 0.0))
    events, versions = [], []        # events: (log length, kind, path, version index)
    samplers = {}
    cur = [0]

    def note(kind, rel, who):
        versions.append(obs_light(samplers[who]))
        events.append((len(d.log), kind, rel, len(versions) - 1, who))

    def on_publish(kind, path):
        rel = d.rel(path)
        if is_ckpt(case, rel):
            t = S.current()
            note("pub", rel, t.data["who"] if t is not None else cur[0])
    d.on_publish = on_publish
    d.install()

    def actor(i):
        act = case["actors"][i]
        samplers[i] = make_sampler(act["cfg"], rid="w%d" % i, out=os.path.join(root, act["out"]), label=act["label"])
        s = samplers[i]
        for st in act["steps"]:
            cur[0] = i
            if st[0] == "run":
                c = act["cfg"]
                sut("run()", s.run, **run_args(c, n_total=int(c["n_eff"] * st[1]), save_every=st[2]))
            else:
                p = os.path.join(root, st[1])
                sut("save_state()", s.save_state, p if not st[2] else __import__("pathlib").Path(p))
                note("ack", st[1], i)
    if case.get("inter") is not None and len(case["actors"]) > 1:
        sc = S.Sched(Choices(case["inter"]))
        d.on_op = lambda kind, path: sc.yield_() if S.current() is not None else None
        for i in range(len(case["actors"])):
            t = sc.spawn("sampler%d" % i, lambda i=i: actor(i))
            t.data["who"] = i
        sc.run()
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
        trace = sc.trace
    else:
        for i in range(len(case["actors"])):
            actor(i)
        trace = []
    d.uninstall()
    return dict(base=d.base, log=d.log, kinds=d.kinds, events=events, versions=versions, switches=len(trace))


def apply_prefix(base, log, k, frac=None):
    """The directory as the kernel shows it after k operations (and a torn k+1-th if that is a write)."""
    l = list(log[:k])
    if frac is not None and k < len(log) and log[k][0] == "write":
        o = log[k]
        l.append(("write", o[1], o[2], o[3][:int(len(o[3]) * frac)]))

    class Keep:
        def randint(self, a, b):
            return b

        def choice(self, seq):
            return "all"

        def random(self):
            return 0.0
    return D.power_loss(base, l, Keep())[0]


def owner_cfg(case, rel):
    for act in case["actors"]:
        if rel in [st[1] for st in act["steps"] if st[0] == "save"]:
            return act["cfg"]
    for act in case["actors"]:
        if os.path.basename(rel).startswith(act["label"] + "_"):
            return act["cfg"]
    return case["actors"][0]["cfg"]


def load_obs(case, root, rel):
    """What a fresh sampler shows after loading that checkpoint."""
    c = owner_cfg(case, rel)
    s = make_sampler(c, rid="load", out=os.path.join(root, "o"), seed=(c["seed"] ^ 0x5555) & 0x7fffffff)
    s.load_state(os.path.join(root, rel))
    return s, obs_light(s)
