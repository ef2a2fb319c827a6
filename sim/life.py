"""Histories of one sampler: runs, extensions, failures, queries, checkpoints, restarts and crashes, executed as a chain
of simulated process lives and watched by a monitor (the property's oracle) at every step.

A history is a list of operations:
  run      one run() call, possibly with an injected failure (likelihood, prior or pool raises)
  crash    one run() call with checkpoints, killed at a chosen evaluation; a fresh process resumes from the newest checkpoint
  restart  save_state(), end of process, fresh process loads / resumes
  query    posterior/results/evidence in all forms
"""
import os, pickle, traceback
import numpy as np
from .core import Violation, Inconclusive, Stats, Choices, shrink_list
from .world import (gen_cfg, shrink_cfg, make_sampler, run_args, rec, get_rng, set_rng, set_fixed_rng, keep_rng, plain, same)
from .proc import run_child, sut, die, is_degenerate, HarnessError, NoProgress
from . import disk as D, scratch, pool as simpool


class Injected(Exception):
    """The error user code raises (class 0); other classes are standard ones carrying the same mark."""


EXC = [Injected, ValueError, TypeError, IndexError, KeyError, RuntimeError, ZeroDivisionError, MemoryError, KeyboardInterrupt,
       AttributeError, AssertionError, OSError, ArithmeticError]
MARK = "injected failure #"


def make_exc(k, n):
    return EXC[k % len(EXC)](MARK + str(n))


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def carries(e, inj):
    """Does the error that reached the caller carry the injected one?"""
    return any(x is inj or (type(x) is type(inj) and x.args == inj.args) or (MARK in str(x) and str(inj.args[0]) in str(x)) for x in chain(e))


class Monitor:
    """Base oracle: sees the sampler at every moment; `state` survives restarts (as of the checkpoint resumed from)."""
    peek = 0                     # look at every peek-th evaluation (0: never)

    def __init__(self, case, st):
        self.case, self.c, self.st = case, case["cfg"], st
        self.state = {}
        self.s = None

    def attach(self, s, how):
        self.s = s

    def inside(self, i):
        """About to evaluate point i (counted within this life)."""

    def before(self, op):
        pass

    def failing(self, op, inj):
        """The moment user code raises."""

    def after(self, op, failed):
        """An operation ended (failed: the injected exception or None)."""

    def snapshot(self):
        return pickle.dumps(self.state)


def gen_ops(r, fail=0.3, restart=0.3, crash=0.2, query=0.2, maxruns=3, evidence=0.3, precond=False, sites=("eval", "eval", "prior")):
    ops, m = [], r.choice([0.5, 1.0, 1.0, 1.5, 2.0])
    n = r.choice(range(1, maxruns + 1))
    for j in range(n):
        if r.flip(crash):
            ops.append(dict(op="crash", mult=m, save=r.choice([1, 1, 2, 3]), at=int(10 ** (0.5 + 2.8 * r.random())), how=r.choice(["load", "resume"]), rng=r.flip()))
        while r.flip(fail):
            ops.append(dict(op="run", mult=m, save=r.choice([None, None, 1, 2]), fault=gen_fault(r, sites)))
            if r.flip(restart * 0.7):
                ops.append(dict(op="restart", how=r.choice(["load", "resume"]), rng=r.flip()))
        ops.append(dict(op="run", mult=m, save=r.choice([None, None, None, 1, 2]), fault=None))
        if precond and r.flip(evidence):
            ops.append(dict(op="run", mult=m, save=None, ev=r.choice([64, 100]), fault=dict(gen_fault(r, sites), at=r.randrange(0, 70))))
            if r.flip():
                ops.append(dict(op="run", mult=m, save=None, ev=r.choice([0, 64, 100]), fault=None))
        if r.flip(0.2):
            ops.append(dict(op="run", mult=m * r.choice([0.5, 1.0]), save=None, fault=None))
        if r.flip(query):
            ops.append(dict(op="query"))
        if r.flip(restart):
            ops.append(dict(op="restart", how=r.choice(["load", "resume"]), rng=r.flip()))
        m = m + r.choice([0.5, 1.0, 1.5])
    return ops


def gen_fault(r, sites):
    return dict(site=r.choice(list(sites)), at=int(10 ** (3.3 * r.random())) - 1, exc=r.randrange(len(EXC)), times=r.choice([1, 1, 1, 2, 5]))


def shrink_ops(case, last_is_run=True):
    for l in shrink_list(case["ops"]):
        if l and any(o["op"] == "run" for o in l):
            yield dict(case, ops=l)
    for i, o in enumerate(case["ops"]):
        put = lambda o2: dict(case, ops=case["ops"][:i] + [o2] + case["ops"][i + 1:])
        if o["op"] == "run" and o.get("fault"):
            f = o["fault"]
            if f["at"] > 0:
                yield put(dict(o, fault=dict(f, at=f["at"] // 2)))
                yield put(dict(o, fault=dict(f, at=f["at"] - 1)))
            if f["exc"]:
                yield put(dict(o, fault=dict(f, exc=0)))
            if f.get("times", 1) > 1:
                yield put(dict(o, fault=dict(f, times=1)))
        if o.get("save") not in (None,) and o["op"] == "run":
            yield put(dict(o, save=None))
        if o["op"] == "crash":
            yield put(dict(op="run", mult=o["mult"], save=None, fault=None))
    for c in shrink_cfg(case["cfg"]):
        yield dict(case, cfg=c)


def _life(case, idx, start, mstate, mon_cls, root):
    """Plays operations from idx on; returns ('restart'|'done', next index, start, monitor state, stats)."""
    c = case["cfg"]
    st = Stats()
    mon = mon_cls(case, st)
    if mstate is not None:
        mon.state = pickle.loads(mstate)
    r = rec("a")
    simpool.ENV.update(choose=Choices(dict(seed=case.get("pool", 0) * 1000 + idx)), stats=st)
    d = D.Disk(root)
    last = [start]
    out = os.path.join(root, "o")
    s = make_sampler(c, out=out, label="lab", seed=None if start is None else (c["seed"] + 17 * idx) & 0x7fffffff)
    mon.attach(s, "new" if start is None else "load")
    resume = None
    if start is not None:
        path = os.path.join(root, start["path"])
        if start["how"] == "load":
            sut("load_state()", s.load_state, path)
            mon.attach(s, "loaded")
        else:
            resume = path
        if start["rng"]:
            set_rng(start["rngstate"])
    peeks = [0]

    def on_eval(i, x):
        if mon.peek and i % mon.peek == 0:
            peeks[0] += 1
            mon.inside(i)
        if armed and armed["site"] == "eval":
            trigger(i - armed["base"])
        if crash_at[0] is not None and i >= crash_at[0]:
            st.faults["crash"] += 1
            st.events += r.n
            die(dict(last=last[0], mon=pub_mon[0], st=st.dump(), idx=cur[0]))

    def on_prior(i, x):
        if armed and armed["site"] == "prior":
            trigger(i - armed["pbase"])

    def on_pool(when):
        if armed and armed["site"] == "pool" and when == armed["when"]:
            trigger(armed["np"])
            armed["np"] += 1

    def trigger(k):
        if armed["left"] and k >= armed["at"]:
            armed["left"] -= 1
            e = make_exc(armed["exc"], armed["left"])
            if not armed["fired"]:
                mon.failing(armed["op"], e)
            armed["fired"].append(e)
            st.faults["%s:%s" % (armed["site"], type(e).__name__)] += 1
            raise e
    armed, crash_at, cur, pub_mon = {}, [None], [idx], [mstate]
    r.on_eval, r.on_prior = on_eval, on_prior
    simpool.ENV["fail"] = on_pool

    def on_publish(kind, path):
        rel = d.rel(path)
        if rel.endswith(".state"):
            last[0] = dict(path=rel, rngstate=get_rng(), how=case["ops"][cur[0]].get("how", "resume"), rng=case["ops"][cur[0]].get("rng", True))
            mon.publish() if hasattr(mon, "publish") else None
            pub_mon[0] = mon.snapshot()
    d.on_publish = on_publish
    d.install()
    i = idx
    while i < len(case["ops"]):
        op = case["ops"][i]
        cur[0] = i
        st.mark(i, op["op"])
        mon.before(op)
        if op["op"] in ("run", "crash"):
            a = run_args(c, n_total=int(c["n_eff"] * op["mult"]), save_every=op.get("save"))
            if op.get("ev") is not None:
                a["n_evidence"] = op["ev"]
            if resume is not None:
                a["resume_state_path"] = resume
                resume = None
            f = op.get("fault")
            if f:
                site = f["site"]
                if site == "pool" and c["mode"] not in ("pool", "exec", "intpool"):
                    site = "eval"
                at = f["at"]
                if site == "prior":
                    at = at // c["n_act"]
                elif site == "pool":
                    at = at // c["n_act"]
                armed.update(site=site, at=at, exc=f["exc"], left=f.get("times", 1) if site == "eval" and c["mode"] in ("pool", "exec", "intpool") else 1,
                             base=r.n, pbase=r.np, np=0, when=f["at"] % 2, op=op, fired=[])
            if op["op"] == "crash":
                crash_at[0] = r.n + op["at"]
            err = None
            try:
                s.run(**a)
            except (Violation, Inconclusive, HarnessError, NoProgress):
                raise
            except BaseException as e:
                err = e
            crash_at[0] = None
            fired = armed.get("fired") or []
            armed.clear()
            if err is not None:
                if not fired:
                    if is_degenerate(err):
                        raise Inconclusive(repr(err)[:200])
                    raise err
                if not any(carries(err, e) for e in fired):
                    raise Violation("error-replaced", "the injected %r did not reach the caller of run(); it got %r" % (fired[0], err))
                st.probes["failure-reached-caller"] += 1
                mon.after(op, fired[0])
            else:
                if fired:
                    raise Violation("error-swallowed", "run() returned normally although %s raised %r" % (f["site"], fired[0]))
                mon.after(op, None)
            del err
        elif op["op"] == "restart":
            sut("save_state()", s.save_state, os.path.join(out, "r%d.state" % i))
            mon.after(op, None)
            st.events += r.n
            st.probes["restart"] += 1
            return ("restart", i + 1, last[0], mon.snapshot(), st.dump())
        elif op["op"] == "query":
            if resume is not None:
                sut("load_state()", s.load_state, resume)
                mon.attach(s, "loaded")
                resume = None
            mon.after(op, None)
        i += 1
    if resume is not None:
        sut("load_state()", s.load_state, resume)
        mon.attach(s, "loaded")
    d.uninstall()
    st.events += r.n
    st.probes["peeks"] += peeks[0]
    return ("done", i, None, mon.snapshot(), st.dump())


def play(case, st, mon_cls, cpu=120):
    """The whole history; returns the monitor state at the end."""
    with scratch.scratch() as root:
        idx, start, mstate = 0, None, None
        while True:
            kind, out = run_child(_life, (case, idx, start, mstate, mon_cls, root), cpu=cpu)
            st.units += 1
            if kind == "crash":
                st.absorb(out["st"])
                start, mstate = out["last"], out["mon"]
                if start is None:
                    mstate = None
                idx = out["idx"] + 1
                st.mark("crash", start and start["path"])
                st.probes["resume-after-crash"] += start is not None
                continue
            st.absorb(out[4])
            if out[0] == "done":
                return pickle.loads(out[3])
            _, idx, start, mstate, _ = out
