"""C06: MPI pool map is exactly-once and order-preserving under every schedule."""
from collections import Counter
from sim.core import Violation, Stats
from sim.proc import run_child, sut
from sim import mpijob as J, sched as S

CASES = dict(quick=2400, thorough=200000)
RULE = ("A case is a job of 2 to 8 simulated MPI ranks executing the real MPIPool, one to four maps of 0 to 20 tasks (list, range, generator, set, dict, "
        "array rows, tuples, falsy objects, one object several times; results None, falsy, large arrays ...), task durations, and a schedule: which rank runs next, the latency of every "
        "message, whether a send buffers, which arrived message a wildcard receive or probe matches. Non-trivial: at least two tasks were in flight or a message was delayed. Distinct: by hash of the "
        "sequence of ranks scheduled and the order in which messages arrived.")
MEASURE = "hash of the sequence of scheduled ranks and of the message arrival order"
TIME_NOTE = "discrete-event time of the simulated message passing layer"
FAULTS = ["message-delay", "cross-source-reorder", "late-match", "unbuffered-send", "slow-task"]
PROBES = ["empty-map", "repeated-task", "falsy-task", "more-workers-than-tasks", "one-worker", "several-maps", "explicit-comm"]
REAL = ["pocomc.parallel.MPIPool on master and workers", "dill serialisation of tasks and results"]
STUB = ["mpi4py (simulated: reliable, per-pair order, arbitrary latency, eager or rendezvous send)", "task functions"]
FAIL = False


def gen(r, tier, i):
    return dict(size=r.choice([2, 2, 3, 3, 4, 5, 6, 8]), maps=J.gen_maps(r), sched=dict(seed=r.randrange(10 ** 9)),
                eager=r.choice([0, 64, 64, 10 ** 9]) or 40, comm=r.flip(0.3), dill=r.flip(0.8))


def body(case, st):
    import pocomc.parallel as P
    from sim import mpi as M
    J.JOB.clear()
    outs = []

    def main(rank):
        from sim.sched import current
        comm = current().data["comm"] if case["comm"] else None
        pool = P.MPIPool(comm=comm, use_dill=case["dill"]) if comm is not None else P.MPIPool(use_dill=case["dill"])
        for m, mp in enumerate(case["maps"]):
            outs.append(sut("map()", pool.map, J.Work(m, mp["val"], mp["slow"], {}), J.tasks_of(mp["it"], mp["n"])))
        pool.close()
        return "done"
    sc, w, tasks = J.job(case["size"], case["sched"], main, st, eager=case["eager"])
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    for m, mp in enumerate(case["maps"]):
        got = outs[m]
        want = [J.value(mp["val"], m, a) for a in J.tasks_of(mp["it"], mp["n"])]
        if not isinstance(got, list) or len(got) != len(want):
            raise Violation("wrong-length", "map %d of %d tasks returned %r" % (m, mp["n"], got if not isinstance(got, list) else "%d results" % len(got)))
        for i, (a, b) in enumerate(zip(want, got)):
            if not J.eq(a, b):
                raise Violation("wrong-result", "map %d: position %d holds %r instead of %r" % (m, i, b, a))
        runs = Counter(i for mm, i, rk in J.work_log() if mm == m)
        due = Counter(J.key_of(a) for a in J.tasks_of(mp["it"], mp["n"]))
        for i in sorted(set(due) | set(runs)):
            if runs[i] != due[i]:
                raise Violation("not-exactly-once", "map %d: task %d was evaluated %d times, it is there %d times" % (m, i, runs[i], due[i]))
    for mm, i, rk in J.work_log():
        if rk == 0:
            raise Violation("on-master", "task %d of map %d was evaluated on the master" % (i, mm))
    return sc.choose.rec


def run(case, st):
    body(case, st)
    n = sum(m["n"] for m in case["maps"])
    st.faults["slow-task"] += sum(len(m["slow"]) for m in case["maps"])
    st.probes["empty-map"] += any(m["n"] == 0 for m in case["maps"])
    st.probes["more-workers-than-tasks"] += any(0 < m["n"] < case["size"] - 1 for m in case["maps"])
    st.probes["repeated-task"] += any(m["it"] in ("same", "pairs", "falsy") and m["n"] > 1 for m in case["maps"])
    st.probes["falsy-task"] += any(m["it"] == "falsy" and m["n"] for m in case["maps"])
    st.probes["one-worker"] += case["size"] == 2
    st.probes["several-maps"] += len(case["maps"]) > 1
    st.probes["explicit-comm"] += case["comm"]
    st.nontrivial = n > 1 or st.faults["message-delay"] > 0
    st.units += len(case["maps"])


def shrink(case):
    if case["comm"]:
        yield dict(case, comm=False)
    yield from J.shrink_maps(case)
