"""A simulated MPI library (stands in for mpi4py): ranks are scheduler tasks, messages take simulated time.

Semantics kept from MPI: reliable delivery; messages between one pair of ranks do not overtake each other;
messages from different ranks may arrive in any order; ssend returns only when matched; send may or may not
buffer (small messages always do). Objects are really serialised at the sender and rebuilt at the receiver.
"""
import sys, types, threading
from . import sched as _s


class Status:
    def __init__(self):
        self.source = self.tag = -1
        self.error = 0
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error


class Pickle:
    def __init__(self, dumps=None, loads=None, protocol=None):
        import pickle
        self.dumps_, self.loads_, self.PROTOCOL = dumps or pickle.dumps, loads or pickle.loads, protocol

    def dumps(self, o):
        return self.dumps_(o, self.PROTOCOL) if self.PROTOCOL is not None else self.dumps_(o)

    def loads(self, b):
        return self.loads_(b)


ANY_SOURCE, ANY_TAG = -2, -1


class MPIError(Exception):
    pass


class _Msg:
    __slots__ = ("src", "dst", "tag", "data", "arrived", "matched", "seq")


class Request:
    def __init__(self, comm, done, result=None):
        self.comm, self.done, self.result = comm, done, result

    def wait(self, status=None):
        self.comm.w.sched.block(self.done, "wait")
        return self.result() if self.result else None

    Wait = wait

    def test(self, status=None):
        self.comm.w.poll()
        return (True, self.result() if self.result else None) if self.done() else (False, None)

    Test = test


class Message:
    def __init__(self, m):
        self.m = m

    def recv(self, status=None):
        self.m.matched = True
        if status is not None:
            status.source, status.tag = self.m.src, self.m.tag
        return MPI.pickle.loads(self.m.data)


class World:
    LAT = [0.001, 0.001, 0.001, 0.004, 0.03, 0.5]

    def __init__(self, sched, size, choose, eager=64, stats=None):
        self.sched, self.size, self.choose, self.eager, self.stats = sched, size, choose, eager, stats
        self.box = {r: [] for r in range(size)}          # arrived, unmatched, in arrival order
        self.last = {}                                   # channel -> last arrival time
        self.nmsg = 0
        self.order = []
        self.flight = 0

    def poll(self):
        self.sched.sleep(0.0005)

    def post(self, src, dst, tag, obj):
        if not (0 <= dst < self.size):
            raise MPIError("MPI_ERR_RANK: invalid rank %r" % (dst,))
        if not isinstance(tag, int) or tag < 0 or tag > 2 ** 31 - 1:
            raise MPIError("MPI_ERR_TAG: invalid tag %r" % (tag,))
        m = _Msg()
        m.src, m.dst, m.tag, m.data = src, dst, tag, MPI.pickle.dumps(obj)
        m.arrived = m.matched = False
        self.nmsg += 1
        m.seq = self.nmsg
        lat = self.LAT[self.choose(len(self.LAT))]
        if lat >= 0.03 and self.stats is not None:
            self.stats.faults["message-delay"] += 1
        t = max(self.last.get((src, dst), 0.0), self.sched.now + lat)
        self.last[(src, dst)] = t

        def deliver():
            m.arrived = True
            if self.stats is not None and self.order and m.seq < self.order[-1]:
                self.stats.faults["cross-source-reorder"] += 1
            self.order.append(m.seq)
            self.box[dst].append(m)
        self.sched.at(t - self.sched.now, deliver)
        return m

    def find(self, rank, source, tag):
        """The messages a receive may match now: per source the first one with the tag, in arrival order."""
        out, seen = [], set()
        for m in self.box[rank]:
            if (source in (ANY_SOURCE, None) or m.src == source) and (tag in (ANY_TAG, None) or m.tag == tag) and m.src not in seen:
                seen.add(m.src)
                out.append(m)
        return out

    def pick(self, rank, source, tag):
        """Which of them a wildcard receive or probe matches is up to the MPI library (a probe does not bind a later wildcard receive)."""
        c = self.find(rank, source, tag)
        if len(c) < 2:
            return c[0] if c else None
        k = self.choose(len(c))
        if k and self.stats is not None:
            self.stats.faults["late-match"] += 1
        return c[k]


class Comm:
    """The communicator as one rank sees it."""
    def __init__(self, w, rank):
        self.w, self.rank, self.size = w, rank, w.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.w.size

    def _post(self, obj, dest, tag):
        self.w.sched.yield_()
        return self.w.post(self.rank, dest, tag, obj)

    def ssend(self, obj, dest, tag=0):
        m = self._post(obj, dest, tag)
        self.w.sched.block(lambda: m.matched, "ssend to rank %d" % dest)

    def send(self, obj, dest, tag=0):
        m = self._post(obj, dest, tag)
        if len(m.data) > self.w.eager and self.w.choose(2):
            if self.w.stats is not None:
                self.w.stats.faults["unbuffered-send"] += 1
            self.w.sched.block(lambda: m.matched, "send (rendezvous) to rank %d" % dest)

    bsend = rsend = send

    def isend(self, obj, dest, tag=0):
        m = self._post(obj, dest, tag)
        eager = not (len(m.data) > self.w.eager and self.w.choose(2))
        return Request(self, lambda: eager or m.matched)

    ibsend = isend

    def issend(self, obj, dest, tag=0):
        m = self._post(obj, dest, tag)
        return Request(self, lambda: m.matched)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.w.sched.yield_()
        self.w.sched.block(lambda: bool(self.w.find(self.rank, source, tag)), "recv on rank %d" % self.rank)
        m = self.w.pick(self.rank, source, tag)
        self.w.box[self.rank].remove(m)
        m.matched = True
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return MPI.pickle.loads(m.data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, lambda: bool(self.w.find(self.rank, source, tag)),
                       lambda: self.recv(source=source, tag=tag))

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.w.sched.yield_()
        self.w.sched.block(lambda: bool(self.w.find(self.rank, source, tag)), "probe on rank %d" % self.rank)
        if status is not None:
            m = self.w.pick(self.rank, source, tag)
            status.source, status.tag = m.src, m.tag
        return True

    Probe = probe

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.w.poll()
        m = self.w.pick(self.rank, source, tag)
        if m is not None and status is not None:
            status.source, status.tag = m.src, m.tag
        return m is not None

    Iprobe = iprobe

    def mprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.w.sched.yield_()
        self.w.sched.block(lambda: bool(self.w.find(self.rank, source, tag)), "mprobe on rank %d" % self.rank)
        return self.improbe(source, tag, status)

    Mprobe = mprobe

    def improbe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.w.poll()
        m = self.w.pick(self.rank, source, tag)
        if m is None:
            return None
        self.w.box[self.rank].remove(m)
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return Message(m)

    Improbe = improbe

    def Abort(self, code=0):
        raise SystemExit(code)

    def barrier(self):
        pass


class _CommWorld:
    """MPI.COMM_WORLD: resolves to the communicator of the simulated rank that runs."""
    def __getattr__(self, n):
        t = _s.current()
        c = t.data.get("comm") if t is not None else None
        if c is None:
            raise MPIError("not inside a simulated MPI job")
        return getattr(c, n)


MPI = types.ModuleType("mpi4py.MPI")
MPI.Status, MPI.ANY_SOURCE, MPI.ANY_TAG = Status, ANY_SOURCE, ANY_TAG
MPI.Message = Message
MPI.pickle = Pickle()
MPI.Pickle = Pickle
MPI.COMM_WORLD = _CommWorld()
MPI.Comm = Comm
MPI.Exception = MPIError


def install_fake_mpi4py():
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    pkg.MPI = MPI
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = MPI
