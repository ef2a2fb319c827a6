"""C19: queries are read-only and their outputs are the caller's to keep."""
import os
import numpy as np
from sim.core import Violation, Stats, Choices, shrink_list
from sim.world import (gen_cfg, shrink_cfg, make_sampler, run_args, observe, diff, rec, plain, same, keep_rng, set_fixed_rng, get_rng, POST_MODES, brief)
from sim.proc import run_child, sut
from sim import life, oracle, scratch, pool as simpool

CASES = dict(quick=144, thorough=20000)
RULE = ("A case is a random configuration and a history of runs, extensions, failures, checkpoints and reloads, executed twice with the same random stream: "
        "once untouched, once with a random sequence of queries (posterior in every form, results, evidence; repeated; before the first run too) "
        "between the operations, whose returned arrays are overwritten with garbage. Both must end the same, checkpoints included, and every "
        "query must answer the same again; queries that do not resample leave the random stream alone, and none resets it. Non-trivial: at least one returned array was overwritten. Distinct: by query sequence and history.")
FAULTS = ["overwrite", "eval:", "prior:"]
PROBES = ["repeat", "before-run", "after-failure", "after-load", "checkpoint-compared", "results-overwritten", "blobs", "resample", "precond", "during-extension", "evidence", "stream"]
REAL = ["pocomc sampler, particles, kernels, flow, prior, tools", "dill", "torch, numpy, scipy"]
STUB = ["process pools", "user likelihood and prior", "caller that overwrites outputs"]

Q = ["results", "evidence"] + ["p%d" % i for i in range(len(POST_MODES))] + ["b%d" % i for i in range(len(POST_MODES))]


def gen(r, tier, i):
    c = gen_cfg(r, precond=r.flip(0.35), modes=("serial", "serial", "vec", "pool"), blobs=r.flip(0.5))
    ops, m = [], r.choice([0.5, 1.0, 1.5])
    for j in range(r.choice([1, 2, 2, 3])):
        while r.flip(0.2):
            ops.append(dict(op="run", mult=m, save=None, fault=dict(site=r.choice(["eval", "prior"]), at=int(10 ** (2.8 * r.random())) - 1, exc=r.randrange(8))))
        ops.append(dict(op="run", mult=m, save=r.choice([None, None, 1, 3])))
        if r.flip(0.3):
            ops.append(dict(op="save", name="s%d.state" % j))
        if r.flip(0.3):
            ops.append(dict(op="load", name="l%d.state" % j))
        m += r.choice([0.0, 0.5, 1.0, 1.5])
    qs = []
    for _ in range(len(ops) + 1):
        qs.append([dict(q=r.choice(Q), write=r.flip(0.7), fill=r.choice(["nan", "zero", "perm", "big", "sort"]), again=r.flip(0.5)) for _ in range(r.choice([0, 2, 4, 8]))])
    return dict(cfg=c, ops=ops, qs=qs, pool=r.randrange(1000))


def ask(s, q, hb, seed=99):
    """One query with a private random stream."""
    with keep_rng():
        set_fixed_rng(seed)
        if q == "results":
            return s.results
        if q == "evidence":
            return list(s.evidence())
        kw = POST_MODES[int(q[1:])]
        return list(s.posterior(return_blobs=(q[0] == "b" and hb), **kw))


def stream_after(s, q, hb, seed):
    """The state in which a query leaves the random stream, and that in which it found it."""
    with keep_rng():
        set_fixed_rng(seed)
        a = get_rng()
        if q == "results":
            s.results
        elif q == "evidence":
            s.evidence()
        else:
            s.posterior(return_blobs=(q[0] == "b" and hb), **POST_MODES[int(q[1:])])
        b = get_rng()
    f = lambda g: [plain(list(g[0])), plain(g[1])]
    return f(a), f(b)


def stream(s, q, hb, st):
    resample = q[0] in "pb" and bool(POST_MODES[int(q[1:])].get("resample"))
    a0, a1 = sut("%s query" % q, stream_after, s, q, hb, 11)
    b0, b1 = sut("%s query" % q, stream_after, s, q, hb, 12)
    st.probes["stream"] += 1
    if not resample and not (same(a0, a1) and same(b0, b1)):
        raise Violation("query-moves-stream", "a %s query, which has nothing to draw, moves the random stream" % q)
    if same(a1[0], b1[0]) or same(a1[1], b1[1]):
        raise Violation("query-resets-stream", "a %s query leaves the random stream in the same state whatever state it found it in" % q)


def copy_of(v):
    return {k: plain(v[k]) for k in v} if isinstance(v, dict) else [plain(e) for e in v]


def equal(a, b):
    if isinstance(a, dict):
        return diff(a, b, ("first", "again"))
    return None if same(a, b) else "%s -> %s" % (brief(a), brief(b))


def scribble(v, fill):
    """Overwrite everything the caller was given."""
    n = 0
    items = list(v.values()) if isinstance(v, dict) else list(v)
    for a in items:
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
            n += 1
            if a.dtype.names:
                for k in a.dtype.names:
                    a[k] = 0
            elif a.dtype.kind == "f":
                if fill == "nan":
                    a[...] = np.nan
                elif fill == "zero":
                    a[...] = 0
                elif fill == "big":
                    a[...] = 1e300
                elif fill == "perm":
                    a[...] = a[::-1].copy() if a.ndim else a
                else:
                    a.sort(axis=0)
            elif a.dtype.kind in "iu":
                a[...] = 0
            else:
                a[...] = None
    if isinstance(v, dict):
        v.clear()
    return n


def twin(case, root, queried):
    c = case["cfg"]
    st = Stats()
    hb = bool(c["t"].get("blobs"))
    out = os.path.join(root, "q" if queried else "u")
    os.makedirs(out, exist_ok=True)
    simpool.ENV.update(choose=Choices(dict(seed=case["pool"])), stats=None)
    s = make_sampler(c, out=out, label="lab")
    r = rec("a")
    seen = {}
    cks = {}

    def queries(k, where):
        if not queried:
            return
        for qq in case["qs"][k]:
            q = qq["q"]
            if q[0] == "b" and not hb:
                q = "p" + q[1:]
            started = k > 0 and where["T"]
            st.mark(k, q, qq["write"])
            if not started:
                st.probes["before-run"] += 1
                try:
                    ask(s, q, hb)
                except Exception:
                    pass
                continue
            v = sut("%s query" % q, ask, s, q, hb)
            a = copy_of(v)
            if q in where["ans"]:
                d = equal(where["ans"][q], a)
                st.probes["repeat"] += 1
                if d:
                    raise Violation("query-differs", "the same %s query answered differently the second time: %s" % (q, d))
            where["ans"][q] = a
            if qq["again"]:
                stream(s, q, hb, st)
            if qq["write"]:
                n = scribble(v, qq["fill"])
                st.faults["overwrite"] += n
                st.nontrivial = st.nontrivial or n > 0
                st.probes["results-overwritten"] += q == "results"
            if qq["again"]:
                b = copy_of(sut("%s query" % q, ask, s, q, hb))
                st.probes["repeat"] += 1
                d = equal(a, b)
                if d:
                    raise Violation("output-shared" if qq["write"] else "query-differs", "a %s query answers differently %s: %s" % (
                        q, "after the caller overwrote what it returned" if qq["write"] else "the second time", d))
            st.probes["blobs"] += q[0] == "b"
            st.probes["evidence"] += q == "evidence"
            st.probes["resample"] += q[0] in "pb" and q != "evidence" and bool(POST_MODES[int(q[1:])].get("resample"))
            st.probes["precond"] += bool(c["precond"])
    where = dict(T=0, ans={})
    queries(0, where)
    for k, op in enumerate(case["ops"]):
        if op["op"] == "run":
            f = op.get("fault")
            n0, p0 = r.n, r.np
            if f:
                def boom(i, x, f=f):
                    raise_it = (i - n0 >= f["at"]) if f["site"] == "eval" else (i - p0 >= f["at"] // c["n_act"])
                    if raise_it:
                        r.on_eval = r.on_prior = None
                        raise life.make_exc(f["exc"], 0)
                if f["site"] == "eval":
                    r.on_eval = boom
                else:
                    r.on_prior = boom
            try:
                s.run(**run_args(c, n_total=int(c["n_eff"] * op["mult"]), save_every=op["save"]))
            except BaseException as e:
                if life.MARK not in str(e):
                    raise
                st.faults["%s:%s" % (f["site"], type(e).__name__)] += 1
                st.probes["after-failure"] += 1
            r.on_eval = r.on_prior = None
            st.probes["during-extension"] += where["T"] > 0
        elif op["op"] == "save":
            sut("save_state()", s.save_state, os.path.join(out, op["name"]))
        elif op["op"] == "load":
            p = os.path.join(out, op["name"])
            sut("save_state()", s.save_state, p)
            with keep_rng():
                s = make_sampler(c, out=out, label="lab", seed=4)
            sut("load_state()", s.load_state, p)
            st.probes["after-load"] += 1
        where = dict(T=len(oracle.history(s).get("beta", [])), ans={}) if queried else dict(T=1, ans={})
        queries(k + 1, where)
    fin = ckobs(s, hb)
    rng = get_rng()
    for fn in sorted(os.listdir(out)):
        if fn.endswith(".state"):
            with keep_rng():
                p = make_sampler(c, rid="probe", out=out, label="lab", seed=5)
            sut("load_state()", p.load_state, os.path.join(out, fn))
            cks[fn] = ckobs(p, hb, light=True)
    st.events += r.n
    return dict(fin=fin, cks=cks, st=st.dump(), calls=r.calls, rng=[plain(list(rng[0])), rng[1]])


def ckobs(s, hb, light=False):
    if not oracle.history(s):
        return {"none": None}
    return observe(s, full=not light, blobs=hb)


def run(case, st):
    with scratch.scratch() as root:
        _, a = run_child(twin, (case, root, False))
        _, b = run_child(twin, (case, root, True), sound=True)
    st.absorb(b["st"])
    d = diff(a["fin"], b["fin"], ("never queried", "queried"))
    if d:
        raise Violation("query-changes-run", "querying between operations changed the outcome: %s" % d)
    if a["calls"] != b["calls"]:
        raise Violation("query-changes-run", "querying between operations changed the points at which the likelihood is evaluated")
    if not same(a["rng"], b["rng"]):
        raise Violation("query-changes-run", "the random stream continues differently after a queried history")
    if sorted(a["cks"]) != sorted(b["cks"]):
        raise Violation("query-changes-checkpoints", "checkpoints written: %s without queries, %s with" % (sorted(a["cks"]), sorted(b["cks"])))
    for fn in a["cks"]:
        d = diff(a["cks"][fn], b["cks"][fn], ("never queried", "queried"))
        st.probes["checkpoint-compared"] += 1
        if d:
            raise Violation("query-changes-checkpoints", "querying changed the content of checkpoint %s: %s" % (fn, d))


def shrink(case):
    for k in range(len(case["ops"])):
        ops = case["ops"][:k] + case["ops"][k + 1:]
        qs = case["qs"][:k + 1] + case["qs"][k + 2:]
        if any(o["op"] == "run" for o in ops):
            yield dict(case, ops=ops, qs=qs)
    for k, q in enumerate(case["qs"]):
        for l in shrink_list(q):
            yield dict(case, qs=case["qs"][:k] + [l] + case["qs"][k + 1:])
    for k, o in enumerate(case["ops"]):
        if o.get("fault"):
            yield dict(case, ops=case["ops"][:k] + [dict(o, fault=None)] + case["ops"][k + 1:])
        if o.get("save"):
            yield dict(case, ops=case["ops"][:k] + [dict(o, save=None)] + case["ops"][k + 1:])
    for c in shrink_cfg(case["cfg"]):
        yield dict(case, cfg=c)
