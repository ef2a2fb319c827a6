"""C07: the MPI pool always makes progress and always shuts down."""
import sys
from sim.core import Violation, Stats
from sim.proc import sut
from sim import mpijob as J

CASES = dict(quick=2400, thorough=200000)
RULE = ("A case is a job of 1 to 8 simulated MPI ranks executing the real MPIPool, zero to four maps in which a random subset of tasks raises or "
        "cannot be serialised or rebuilt, or its result cannot (exceptions that can and cannot be rebuilt from their pickled form), task durations, a way of closing (explicitly, twice, leaving the "
        "context normally or by an exception, only at interpreter exit, after an uncaught error or sys.exit of the user's program, going on long after closing or not), and a schedule of ranks, "
        "latencies and send modes. Deadlock is detected exactly (no rank runnable, no message in flight). Non-trivial: a task failed or a message "
        "was delayed. Distinct: by hash of the sequence of ranks scheduled and message arrival order.")
MEASURE = "hash of the sequence of scheduled ranks and of the message arrival order"
TIME_NOTE = "discrete-event time of the simulated message passing layer"
FAULTS = ["task-error", "unserialisable-task", "unserialisable-result", "late-match", "message-delay", "cross-source-reorder", "unbuffered-send"]
PROBES = ["close:close", "close:twice", "close:with", "close:with-exc", "close:exit", "close:exc", "map-after-failure", "all-tasks-fail", "close:with-sysexit", "close:sysexit", "no-worker", "no-map", "lingered", "left-after-failure"]
REAL = ["pocomc.parallel.MPIPool on master and workers", "dill serialisation of tasks and results"]
STUB = ["mpi4py (simulated)", "interpreter exit hooks (captured per rank and run at its end)", "task functions"]
ASSUME = ["tasks fail by raising an Exception (not SystemExit or KeyboardInterrupt); workers do not die", "a send of a tiny message buffers"]


class UserError(Exception):
    pass


def gen(r, tier, i):
    maps = J.gen_maps(r, fail=True)
    if r.flip(0.1):
        maps = []
    for m in maps:
        if m["n"] and r.flip(0.08):
            m["fail"] = {str(i): 0 for i in range(m["n"])}
            m["it"] = "list"
    return dict(size=r.choice([2, 2, 3, 3, 4, 5, 6, 8]) if i % 50 else 1, maps=maps, sched=dict(seed=r.randrange(10 ** 9)),
                eager=r.choice([40, 64, 64, 10 ** 9]), comm=r.flip(0.3), dill=r.flip(0.8),
                close=r.choice(["close", "twice", "with", "with-exc", "exit", "exc", "with+close", "with-sysexit", "sysexit"]),
                linger=r.flip(0.5), bail=r.flip(0.3))


def run(case, st):
    import pocomc.parallel as P
    J.JOB.clear()
    info = dict(made=False)

    def maps(pool):
        failed = False
        for m, mp in enumerate(case["maps"]):
            bad = {int(k): v for k, v in mp["fail"].items()}
            fn = J.Work(m, mp["val"], mp["slow"], bad)
            try:
                got = pool.map(fn, J.tasks_of(mp["it"], mp["n"], bad))
                err = None
            except (Violation, SystemExit):
                raise
            except Exception as e:
                err = e
            ran_bad = [i for mm, i, rk in J.work_log() if mm == m and i in bad]
            if bad and err is None:
                raise Violation("failure-swallowed", "map %d returned %r although task(s) %s raise" % (m, got if not bad else str(got)[:80], sorted(bad)))
            for how in bad.values():
                if how in J.TRANSFER and err is not None:
                    st.faults["unserialisable-" + ("task" if how in ("dump", "load") else "result")] += 1
            if err is not None and not ran_bad and not any(v in ("dump", "load") for v in bad.values()):
                raise Violation("spurious-failure", "map %d raised %r although no task failed" % (m, err))
            if err is None:
                want = [J.value(mp["val"], m, a) for a in J.tasks_of(mp["it"], mp["n"])]
                if len(got) != len(want) or not all(J.eq(a, b) for a, b in zip(want, got)):
                    raise Violation("pool-broken-after-failure" if failed else "wrong-result", "map %d returned %s" % (m, str(got)[:120]))
                st.probes["map-after-failure"] += failed
            else:
                failed = True
                if case.get("bail"):
                    st.probes["left-after-failure"] += 1
                    raise UserError()
                st.faults["task-error"] += len(ran_bad)
                st.probes["all-tasks-fail"] += len(bad) == mp["n"]

    def main(rank):
        from sim.sched import current
        kw = dict(comm=current().data["comm"]) if case["comm"] else {}
        how = case["close"]
        if how.startswith("with"):
            try:
                with P.MPIPool(use_dill=case["dill"], **kw) as pool:
                    info["made"] = True
                    maps(pool)
                    if how == "with-exc":
                        raise UserError()
                    if how == "with-sysexit":
                        sys.exit(0)
                    if how == "with+close":
                        pool.close()
            except (UserError, SystemExit):
                if rank or not case.get("linger"):
                    raise
            linger(rank)
            return
        pool = P.MPIPool(use_dill=case["dill"], **kw)
        info["made"] = True
        maps(pool)
        if how == "exc":
            raise UserError()
        if how == "sysexit":
            sys.exit(0)
        if how in ("close", "twice"):
            pool.close()
        if how == "twice":
            pool.close()
        if how in ("close", "twice"):
            linger(rank)

    def linger(rank):
        """The user's program goes on after the pool was closed; by the end of it the workers must be gone."""
        if not case.get("linger") or rank:
            return
        sc = J.JOB["sched"]
        sc.sleep(10000.0)
        st.probes["lingered"] += 1
        live = [t.name for t in sc.tasks[1:] if t.state != "done"]
        if live:
            raise Violation("worker-left", "%s still waiting long after the pool was closed (%s)" % (", ".join(live), case["close"]))

    st.probes["close:" + case["close"]] += 1
    if case["size"] == 1:
        st.probes["no-worker"] += 1
        try:
            sc, w, tasks = J.job(1, case["sched"], main, st)
        except Violation as v:
            raise Violation("no-worker-accepted", "a pool without workers: %s" % v.msg)
        e = tasks[0].exc
        if isinstance(e, Violation):
            raise e
        if info["made"] or e is None or isinstance(e, UserError):
            raise Violation("no-worker-accepted", "a pool with no worker was not refused (%r)" % (e,))
        st.nontrivial = True
        return
    sc, w, tasks = J.job(case["size"], case["sched"], main, st, eager=case["eager"])
    for t in tasks:
        if t.exc is not None and not isinstance(t.exc, UserError):
            raise t.exc
    for t in tasks[1:]:
        if not t.data.get("sysexit") and t.result is not None:
            raise Violation("worker-ran-on", "a worker executed the master's program")
    st.probes["no-map"] += not case["maps"]
    st.nontrivial = st.faults["task-error"] > 0 or st.faults["message-delay"] > 0
    st.units += len(case["maps"]) + 1


def shrink(case):
    if case["comm"]:
        yield dict(case, comm=False)
    for k in ("linger", "bail"):
        if case.get(k):
            yield dict(case, **{k: False})
    if case["close"] != "close":
        yield dict(case, close="close")
    yield from J.shrink_maps(case)
