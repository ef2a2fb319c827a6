"""Simulated process pools: function and arguments are really serialised (dill), evaluations complete in an order
the simulator chooses, results are handed back in the way the real pools do."""
import dill
from .core import Choices

ENV = dict(choose=Choices(dict(list=[])), stats=None, created=0, fail=None)


class _Async:
    def __init__(self, thunk):
        self._t = thunk
        self._v = None

    def get(self, timeout=None):
        if self._v is None:
            try:
                self._v = (True, self._t())
            except BaseException as e:
                self._v = (False, e)
        if self._v[0]:
            return self._v[1]
        raise self._v[1]

    def wait(self, timeout=None):
        try:
            self.get()
        except BaseException:
            pass

    def ready(self):
        return True

    def successful(self):
        self.wait()
        return self._v[0]


class SimPool:
    """multiprocess.Pool / multiprocessing.Pool."""
    def __init__(self, processes=None, *a, **k):
        self.n = processes or 4
        self._processes = self.n
        self.closed = False
        ENV["created"] += 1

    def _run(self, func, items, star=False, chunksize=None):
        """Evaluates all items in a simulated completion order; returns [(index, ok, value)] in that order."""
        items = list(items)
        choose, st = ENV["choose"], ENV["stats"]
        if ENV["fail"]:
            ENV["fail"](0)               # the pool may fail before dispatching ...
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        chunks = [list(range(i, min(i + chunksize, len(items)))) for i in range(0, len(items), chunksize)]
        waiting, running, done = chunks[:], [], []
        blob = dill.dumps(func)
        while waiting or running:
            while waiting and len(running) < self.n:
                ch = waiting.pop(0)
                running.append([dill.loads(blob), ch])
            w = choose(len(running))
            f, ch = running[w]
            if w and st is not None:
                st.faults["out-of-order-completion"] += 1
            i = ch.pop(0)
            arg = dill.loads(dill.dumps(items[i]))
            if st is not None:
                st.events += 1
            try:
                v = f(*arg) if star else f(arg)
                done.append((i, True, dill.loads(dill.dumps(v))))
            except Exception as e:
                done.append((i, False, e))
                ch.clear()               # the rest of a chunk is not evaluated after an error
            if not ch:
                running.pop(w)
        if ENV["fail"]:
            ENV["fail"](1)               # ... or after the work is done
        return len(items), done

    def _ordered(self, *a, **k):
        n, done = self._run(*a, **k)
        out = [None] * n
        for i, ok, v in done:
            if not ok:
                raise v
            out[i] = v
        return out

    def map(self, func, iterable, chunksize=None):
        return self._ordered(func, iterable, chunksize=chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._ordered(func, iterable, star=True, chunksize=chunksize)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._ordered(func, iterable, chunksize=chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        n, done = self._run(func, iterable, chunksize=chunksize)
        for i, ok, v in done:
            if not ok:
                raise v
            yield v

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Async(lambda: self.map(func, iterable, chunksize))

    def apply(self, func, args=(), kwds={}):
        return dill.loads(dill.dumps(dill.loads(dill.dumps(func))(*args, **kwds)))

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _Async(lambda: self.apply(func, args, kwds))

    def close(self):
        self.closed = True

    terminate = close

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimExecutor(SimPool):
    """concurrent.futures / mpi4py.futures executor: map returns an iterator; iterables are zipped."""
    def map(self, fn, *iterables, timeout=None, chunksize=1, **k):
        items = list(zip(*iterables))
        n, done = self._run(fn, items, star=True, chunksize=chunksize)
        by = {i: (ok, v) for i, ok, v in done}

        def gen():
            for i in range(n):
                ok, v = by.get(i, (False, RuntimeError("cancelled")))
                if not ok:
                    raise v
                yield v
        return gen()

    def submit(self, fn, *a, **k):
        return _Async(lambda: self.apply(fn, a, k))


def install():
    """Sampler(pool=<int>) creates its own pool from the multiprocess package."""
    import multiprocess, multiprocessing, pocomc.sampler
    multiprocess.Pool = SimPool
    if hasattr(pocomc.sampler, "Pool"):
        pocomc.sampler.Pool = SimPool
