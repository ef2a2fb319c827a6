"""Simulated process lives: each is a fork of a pristine interpreter in which no sampler ever ran.

A crash is a real, immediate end of that process (no unwinding, no clean-up code); only the scratch
directory (the simulated disk) and what the simulator recorded survive.
"""
import os, pickle, resource, select, signal, struct, sys, time, traceback
from .core import Violation, Inconclusive

_out_fd = None
CPU_LIMIT = 60


class HarnessError(Exception):
    pass


class NoProgress(Exception):
    """The simulated process used up its CPU budget (about 100 times what it needs)."""


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    view = memoryview(struct.pack("<Q", len(data)) + data)
    while len(view):
        view = view[os.write(fd, view):]


def die(payload=None):
    """End the current simulated process abruptly."""
    _send(_out_fd, ("crash", payload))
    os._exit(9)


def is_degenerate(e):
    """Numerical degeneracies of tiny particle sets: not what any property is about."""
    import numpy as np
    if isinstance(e, FloatingPointError) or (isinstance(e, np.linalg.LinAlgError) and "dimensional" not in str(e)):
        return True
    tb, files = e.__traceback__, []
    while tb:
        files.append(os.path.basename(tb.tb_frame.f_code.co_filename)); tb = tb.tb_next
    s = str(e)
    return ("student.py" in files and isinstance(e, (ValueError, RuntimeError))) or \
        (isinstance(e, ValueError) and ("within the support" in s or "constraint" in s) and "torch" in "".join(files))


def _sut_frames(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in reversed(tb) if "/pocomc/" in f.filename)


def run_child(fn, args=(), cpu=CPU_LIMIT, wall=600, sound=None):
    """Run fn(*args) in a forked process; returns ('ok', value) or ('crash', payload).
    Violation/Inconclusive raised inside are re-raised here. sound: says what did the same thing without any numerical
    trouble (or finds out), in which case trouble here is a deviation like any other."""
    if sound is not None:
        try:
            return run_child(fn, args, cpu, wall)
        except Inconclusive as e:
            if callable(sound):
                sound()
            raise Violation("unexpected-error", "fails where the undisturbed twin does not: %s" % e)
    global _out_fd
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _out_fd = w
            sys.stdout = open(os.devnull, "w")
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                msg = ("ok", fn(*args))
            except Violation as v:
                msg = ("viol", v.cls, v.msg)
            except Inconclusive as v:
                msg = ("inc", str(v))
            except NoProgress as v:
                msg = ("viol", "no-progress", str(v))
            except BaseException as e:
                loc = _sut_frames(e)
                if is_degenerate(e):
                    msg = ("inc", repr(e)[:300])
                elif loc:
                    msg = ("viol", "unexpected-error", "%s: %s [%s]" % (type(e).__name__, str(e)[:300], loc))
                else:
                    msg = ("err", traceback.format_exc())
            try:
                _send(w, msg)
            except BaseException:
                _send(w, ("err", traceback.format_exc()))
        finally:
            os._exit(code)
    os.close(w)
    buf, t0 = [], time.time()
    timed_out = False
    while True:
        rl, _, _ = select.select([r], [], [], 5)
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
        elif time.time() - t0 > wall:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b"".join(buf)
    if timed_out:
        raise HarnessError("simulated process exceeded %d s of wall time" % wall)
    if len(data) < 8 or len(data) < 8 + struct.unpack("<Q", data[:8])[0]:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            raise NoProgress("no progress: CPU budget of %d s exhausted" % cpu)
        raise HarnessError("simulated process ended without a report (status %d)" % st)
    msg = pickle.loads(data[8:])
    if msg[0] in ("ok", "crash"):
        return msg
    if msg[0] == "viol":
        raise Violation(msg[1], msg[2])
    if msg[0] == "inc":
        raise Inconclusive(msg[1])
    raise HarnessError(msg[1])


def run_many(fn, argss, cpu=CPU_LIMIT, wall=600):
    """run_child for several argument tuples at once; yields their results in order."""
    res = [None] * len(argss)
    pids = []
    for i, a in enumerate(argss):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                m = ("ok", run_child(fn, a, cpu, wall))
            except (Violation, Inconclusive, NoProgress, HarnessError) as e:
                m = ("exc", e)
            except BaseException:
                m = ("exc", HarnessError(traceback.format_exc()))
            try:
                _send(w, m)
            finally:
                os._exit(0)
        os.close(w)
        pids.append((pid, r))
    for i, (pid, r) in enumerate(pids):
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        res[i] = pickle.loads(data[8:]) if len(data) > 8 else ("exc", HarnessError("no report"))
    for m in res:
        if m[0] == "exc":
            raise m[1]
        yield m[1]


def sut(what, fn, *a, **k):
    """Call into the code under test in a situation where it has no excuse to fail."""
    try:
        return fn(*a, **k)
    except (Violation, Inconclusive, HarnessError, NoProgress):
        raise
    except Exception as e:
        if is_degenerate(e):
            raise Inconclusive(repr(e)[:300])
        loc = _sut_frames(e)
        if not loc:
            raise HarnessError("while %s: %s" % (what, traceback.format_exc()))
        raise Violation("unexpected-error", "%s raised %s: %s [%s]" % (what, type(e).__name__, str(e)[:300], loc))
