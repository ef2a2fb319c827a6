"""Clock and entropy seams: pocomc must not depend on either; the simulator decides what they return."""
import os, random, time
from .core import Rand


class Env:
    """A wall clock that may start anywhere, run at any speed and jump; a different operating-system entropy stream."""
    def __init__(self, spec):
        r = Rand("env", spec)
        self.r = r
        self.t = r.choice([0.0, 1.0e9, 1.7e9, 4.1e9]) + r.random() * 1e6
        self.rate = r.choice([0.0, 1e-6, 1e-3, 10.0])
        self.jump = r.choice([0.0, 0.0, -3600.0, 86400.0])
        self.reads = self.entropy = 0
        self.pid = r.randrange(100, 2 ** 22)

    def now(self):
        self.reads += 1
        self.t += self.rate
        if self.jump and self.r.random() < 0.02:
            self.t += self.jump
        return self.t

    def install(self):
        mono = [0.0]

        def monotonic():
            self.reads += 1
            mono[0] += self.rate + 1e-9
            return mono[0] + 5.0

        def urandom(n):
            self.entropy += n
            return self.r.randbytes(n)
        time.time = self.now
        time.time_ns = lambda: int(self.now() * 1e9)
        time.monotonic = time.perf_counter = time.process_time = time.thread_time = monotonic
        time.monotonic_ns = time.perf_counter_ns = time.process_time_ns = lambda: int(monotonic() * 1e9)
        os.urandom = urandom
        random._urandom = urandom
        os.getpid = lambda: self.pid
        return self
