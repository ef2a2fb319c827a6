"""Baton scheduler with discrete-event time: real threads, exactly one of which runs at any moment;
who runs next and when events fire is decided only by the Choices object."""
import heapq, threading
from .core import Violation
from .proc import HarnessError

_local = threading.local()


class Task:
    def __init__(self, s, name, fn):
        self.s, self.name, self.fn = s, name, fn
        self.go = threading.Semaphore(0)
        self.state = "ready"
        self.pred = None
        self.why = ""
        self.result = self.exc = None
        self.exited = False
        self.data = {}
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.go.acquire()
        _local.task = self
        try:
            self.result = self.fn()
        except SystemExit as e:
            self.exited = True
            self.result = e.code
        except BaseException as e:
            self.exc = e
        self.state = "done"
        self.s.back.release()


def current():
    return getattr(_local, "task", None)


class Sched:
    def __init__(self, choose, max_steps=200000, on_in=None, on_out=None):
        self.choose, self.max_steps = choose, max_steps
        self.tasks, self.heap = [], []
        self.now, self.seq, self.steps = 0.0, 0, 0
        self.back = threading.Semaphore(0)
        self.on_in, self.on_out = on_in, on_out
        self.switches = 0
        self.trace = []

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        t.thread.start()
        return t

    def at(self, dt, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + dt, self.seq, fn))

    # called by tasks
    def _out(self, t):
        if self.on_out:
            self.on_out(t)
        self.back.release()
        t.go.acquire()
        if self.on_in:
            self.on_in(t)

    def yield_(self):
        t = current()
        t.state = "ready"
        self._out(t)

    def block(self, pred, why):
        t = current()
        if pred():
            return
        t.pred, t.why, t.state = pred, why, "blocked"
        self._out(t)

    def sleep(self, dt):
        t = current()
        flag = []
        self.at(dt, lambda: flag.append(1))
        t.pred, t.why, t.state = (lambda: bool(flag)), "sleeping", "blocked"
        self._out(t)

    # called by the simulator
    def run(self):
        last = None
        while True:
            for t in self.tasks:
                if t.state == "blocked" and t.pred():
                    t.state = "ready"
            ready = [t for t in self.tasks if t.state == "ready"]
            if not ready:
                if self.heap:
                    self.now, _, fn = heapq.heappop(self.heap)
                    fn()
                    continue
                live = [t for t in self.tasks if t.state != "done"]
                if live:
                    raise Violation("deadlock", "no simulated party can make progress: " +
                                    "; ".join("%s waits in %s" % (t.name, t.why) for t in live))
                return
            t = ready[self.choose(len(ready))]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Violation("no-progress", "not finished after %d scheduling steps: %s" % (
                    self.steps, "; ".join("%s %s" % (q.name, q.why) for q in self.tasks if q.state != "done")))
            if t is not last:
                self.switches += 1
            last = t
            self.trace.append(t.name)
            t.state = "running"
            if self.on_in and not t.data.get("started"):
                t.data["started"] = True
                self.on_in(t)
            t.go.release()
            if not self.back.acquire(timeout=300):
                raise HarnessError("simulated party %s did not return control" % t.name)
