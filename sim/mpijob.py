"""A simulated MPI job: every rank is a task of the scheduler and executes the same user program."""
import atexit
import numpy as np
from .core import Choices, Violation
from . import sched as S, mpi as M
from .proc import HarnessError

JOB = {}


class TaskBoom(Exception):
    pass


def job(size, spec, main, stats, eager=64, max_steps=400000):
    """Run main(rank) on `size` ranks to completion; returns the scheduler and world."""
    choose = Choices(spec)
    sc = S.Sched(choose, max_steps=max_steps)
    w = M.World(sc, size, choose, eager=eager, stats=stats)
    real_register = atexit.register

    def register(fn, *a, **k):
        t = S.current()
        if t is None:
            return real_register(fn, *a, **k)
        t.data.setdefault("atexit", []).append((fn, a, k))
        return fn
    atexit.register = register

    def rank_main(r):
        def body():
            t = S.current()
            t.data["comm"] = M.Comm(w, r)
            t.data["rank"] = r
            exc = res = None
            try:
                res = main(r)
            except SystemExit:
                t.data["sysexit"] = True
            except BaseException as e:
                exc = e
            for fn, a, k in reversed(t.data.get("atexit", [])):     # interpreter shutdown on this rank
                fn(*a, **k)
            if exc is not None:
                raise exc
            return res
        return body
    tasks = []
    for r in range(size):
        t = sc.spawn("rank%d" % r, rank_main(r))
        tasks.append(t)
    JOB.update(sched=sc, world=w)
    try:
        sc.run()
    finally:
        atexit.register = real_register
        if stats is not None:
            stats.events += w.nmsg + sc.steps
            stats.simtime += sc.now
            stats.mark(sc.trace, w.order)
    return sc, w, tasks


def work_log():
    return JOB.setdefault("log", [])


class Work:
    """A task function: pure in its argument, takes simulated time, and logs where it ran."""
    def __init__(self, mid, kind, slow, fail, as_fn=False):
        self.mid, self.kind, self.slow, self.fail = mid, kind, slow, fail

    def __call__(self, arg):
        t = S.current()
        i = key_of(arg)
        work_log().append((self.mid, i, t.data["rank"]))
        dt = self.slow.get(str(i), 0.0) if self.slow else 0.0
        if dt:
            JOB["sched"].sleep(dt)
        how = self.fail.get(i)
        if how in ("result", "reload"):
            return Moody(i, "dump" if how == "result" else "load")
        if how is not None:
            raise EXC[how]("task %d failed" % i)
        return value(self.kind, self.mid, arg)


class Odd(Exception):
    """An exception that cannot be rebuilt from its pickled form."""
    def __init__(self, a, b=None, *, c=1):
        Exception.__init__(self, a)
        self.lock = (x for x in ())


EXC = [TaskBoom, ValueError, Odd, ZeroDivisionError]
TRANSFER = ["dump", "load", "result", "reload"]     # what cannot be serialised or rebuilt: the task or its result
FALSY = [0, None, "", [], (), {}, False, 0.0]


def _broken(i):
    raise ValueError("task or result %d cannot be rebuilt" % i)


class Moody:
    """An object that cannot be serialised, or not be rebuilt."""
    def __init__(self, i, how):
        self.i, self.how = i, how

    def __reduce__(self):
        if self.how == "dump":
            raise TypeError("cannot serialise %d" % self.i)
        return _broken, (self.i,)


def key_of(arg):
    if isinstance(arg, Moody):
        return arg.i
    if not isinstance(arg, (np.ndarray, int, float)) and not arg or arg is False:
        return [repr(f) for f in FALSY].index(repr(arg))
    if isinstance(arg, (tuple, list)):
        return int(arg[0])
    if isinstance(arg, np.ndarray):
        return int(arg.ravel()[0])
    return int(arg)


def value(kind, mid, arg):
    i = key_of(arg)
    if kind == "none":
        return None
    if kind == "falsy":
        return [0, None, [], "", False, 0.0, {}][(i + mid) % 7]
    if kind == "big":
        return np.arange(500) * (i + 1.0) + mid
    if kind == "pair":
        return (mid, i)
    if kind == "str":
        return "r%d.%d" % (mid, i)
    return float(i * i + mid)


def tasks_of(kind, n, bad=()):
    """The iterable of tasks; bad: index -> transfer fault."""
    if bad:
        return [Moody(i, bad[i]) if bad.get(i) in ("dump", "load") else a for i, a in enumerate(tasks_of(kind, n))]
    if kind == "range":
        return range(n)
    if kind == "list":
        return [i for i in range(n)]
    if kind == "gen":
        return (i for i in range(n))
    if kind == "array":
        return np.stack([np.full(3, float(i)) for i in range(n)]) if n else np.empty((0, 3))
    if kind == "tuples":
        return tuple((i, "x" * 200) for i in range(n))
    if kind == "same":
        one = (3, "y")
        return [one] * n
    if kind == "pairs":
        l = []
        for i in range((n + 1) // 2):
            one = [i, 0.5]
            l += [one, one]
        return l[:n]
    if kind == "falsy":
        return [FALSY[(i // 2) % len(FALSY)] for i in range(n)]
    if kind == "set":
        return set(range(n))
    if kind == "dict":
        return {i: "v" for i in range(n)}
    if kind == "iter":
        return iter([(i,) for i in range(n)])
    if kind == "2d":
        return np.arange(float(n)) if n else np.empty(0)
    raise ValueError(kind)


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) == type(b) and a == b


def gen_maps(r, fail=False):
    maps = []
    for m in range(r.choice([1, 1, 2, 2, 3, 4])):
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20])
        if r.flip(0.03):
            n = r.choice([40, 70, 140, 300])
        slow = {}
        if r.flip(0.5):
            for i in range(n):
                if r.flip(0.4):
                    slow[str(i)] = r.choice([0.0001, 0.002, 0.05, 0.4])
        mp = dict(n=n, it=r.choice(["range", "list", "gen", "array", "tuples", "same", "pairs", "falsy", "set", "dict", "iter", "2d"]), val=r.choice(["none", "falsy", "big", "pair", "str", "num"]), slow=slow, fail={})
        if fail and r.flip(0.5):
            for i in range(n):
                if r.flip(0.25):
                    mp["fail"][str(i)] = r.randrange(len(EXC)) if r.flip(0.7) else r.choice(TRANSFER)
            if mp["fail"] and mp["it"] in ("same", "pairs", "falsy"):
                mp["it"] = "list"
        maps.append(mp)
    return maps


def shrink_maps(case):
    from .core import shrink_list
    for l in shrink_list(case["maps"]):
        yield dict(case, maps=l)
    for i, m in enumerate(case["maps"]):
        put = lambda m2: dict(case, maps=case["maps"][:i] + [m2] + case["maps"][i + 1:])
        for n in (m["n"] // 2, m["n"] - 1):
            if 0 <= n < m["n"]:
                yield put(dict(m, n=n, slow={k: v for k, v in m["slow"].items() if int(k) < n}, fail={k: v for k, v in m["fail"].items() if int(k) < n}))
        if m["slow"]:
            yield put(dict(m, slow={}))
        if len(m["fail"]) > 1:
            for k in m["fail"]:
                yield put(dict(m, fail={k: m["fail"][k]}))
        if m["it"] != "range":
            yield put(dict(m, it="range"))
        if m["val"] != "num":
            yield put(dict(m, val="num"))
    if case["size"] > 2:
        yield dict(case, size=case["size"] - 1)
        yield dict(case, size=2)
    if "seed" in case["sched"] and case.get("recorded"):
        yield dict(case, sched=dict(list=case["recorded"]))
    if "list" in case["sched"]:
        l = case["sched"]["list"]
        for c in shrink_list(l):
            yield dict(case, sched=dict(list=c))
    else:
        yield dict(case, sched=dict(list=[]))
        for s in range(3):
            yield dict(case, sched=dict(seed=s))
