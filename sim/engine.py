"""Runs seeded simulations of one property, minimises what fails, writes replay and evidence files."""
import importlib, json, os, signal, subprocess, sys, time, traceback
from collections import Counter
from .core import Violation, Inconclusive, Stats, Rand, canon, h64
from . import proc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


def _case_body(pid, case):
    mod = load_prop(pid)
    st = Stats()
    try:
        mod.run(case, st)
        return ("held", None, None, st.dump())
    except Violation as v:
        return ("viol", v.cls, v.msg, st.dump())
    except Inconclusive as v:
        return ("inc", None, str(v), st.dump())
    except proc.NoProgress as v:
        return ("viol", "no-progress", str(v), st.dump())


def run_case(pid, case):
    """One simulated execution in its own process; returns (outcome, class, message, stats)."""
    mod = load_prop(pid)
    try:
        kind, val = proc.run_child(_case_body, (pid, case), cpu=getattr(mod, "CPU", 120), wall=getattr(mod, "WALL", 600))
        if kind != "ok":
            raise proc.HarnessError("case process crashed")
        return val
    except proc.NoProgress as v:
        return ("viol", "no-progress", str(v), Stats().dump())


def make_case(pid, seed, tier, i):
    mod = load_prop(pid)
    return mod.gen(Rand(seed, pid, i), tier, i)


def _worker(pid, seed, tier, w, n, deadline, conn):
    """Runs cases w, w+n, ...; reports one line per case."""
    mod = load_prop(pid)
    total = mod.CASES[tier]
    i, errs = w, 0
    while i < total:
        if time.time() > deadline:
            break
        try:
            case = make_case(pid, seed, tier, i)
            out = run_case(pid, case)
        except proc.HarnessError as e:
            out = ("err", None, str(e), Stats().dump())
        except BaseException:
            out = ("err", None, traceback.format_exc(), Stats().dump())
        conn.write(json.dumps([i, out]) + "\n")
        conn.flush()
        errs += out[0] == "err"
        if out[0] == "viol" or errs >= 3:
            break
        i += n


def explore(pid, seed, tier, wall):
    """All cases of a tier, spread over forked workers. Returns (list of (i, outcome), completed?)."""
    import selectors
    deadline = time.time() + wall
    n = min(WORKERS, load_prop(pid).CASES[tier])
    procs, sel = [], selectors.DefaultSelector()
    for w in range(n):
        r, wr = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        p = os.fork()
        if p == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                with os.fdopen(wr, "w") as conn:
                    _worker(pid, seed, tier, w, n, deadline, conn)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        try:
            os.setpgid(p, p)
        except OSError:
            pass
        os.close(wr)
        f = os.fdopen(r, "rb", buffering=0)
        procs.append(p)
        sel.register(f, selectors.EVENT_READ, [p, b""])
    outs, first_bad = [], None
    live = n
    try:
        while live:
            for key, _ in sel.select(timeout=5):
                data = os.read(key.fileobj.fileno(), 1 << 16)
                if not data:
                    sel.unregister(key.fileobj); key.fileobj.close()
                    live -= 1
                    continue
                key.data[1] += data
                while b"\n" in key.data[1]:
                    line, key.data[1] = key.data[1].split(b"\n", 1)
                    i, out = json.loads(line)
                    outs.append((i, out))
                    if out[0] == "viol":
                        first_bad = True
            if first_bad:
                break
    finally:
        for p in procs:
            try:
                os.killpg(p, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        for p in procs:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
    outs.sort(key=lambda x: x[0])
    return outs, len(outs) == load_prop(pid).CASES[tier]


def minimise(pid, case, cls, budget):
    """Greedy: take any simpler case that fails with the same class of violation."""
    mod = load_prop(pid)
    t0, tried, seen = time.time(), 0, {canon(case)}
    best = case
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for cand in mod.shrink(best):
            if time.time() - t0 > budget:
                break
            k = canon(cand)
            if k in seen:
                continue
            seen.add(k)
            tried += 1
            try:
                out = run_case(pid, cand)
            except proc.HarnessError:
                continue
            if out[0] == "viol" and out[1] == cls:
                best, improved = cand, True
                break
    return best, tried


def write_replay(pid, case, cls, msg, seed, index):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%016x.json" % (pid, h64(canon(case))))
    with open(path, "w") as f:
        json.dump(dict(property=pid, seed=seed, case_index=index, violation=cls, message=msg, case=case), f, indent=1, sort_keys=True)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    return d, run_case(d["property"], d["case"])


def report(pid, mod, case, cls, seed, index):
    """Minimise, write the replay file, confirm that it fails the same way in a fresh process; returns the exit code."""
    small, tried = minimise(pid, case, cls, getattr(mod, "MIN_BUDGET", 60))
    out = run_case(pid, small)
    if out[0] != "viol":                          # never report what does not replay
        small, out = case, run_case(pid, case)
    if out[0] != "viol":
        print("ERROR: the violation did not replay")
        return 2
    path = write_replay(pid, small, out[1], out[2], seed, index)
    rc = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid, "--replay", path],
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600).returncode
    if rc != 1:
        print("ERROR: the violation did not replay in a fresh process (exit %d)" % rc)
        return 2
    print("minimised over %d candidate executions; replay in a fresh process fails the same way" % tried)
    print("violation: %s: %s" % (out[1], out[2]))
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1


def check(pid, tier, seed):
    mod = load_prop(pid)
    t0 = time.time()
    wall = getattr(mod, "WALL_" + tier.upper(), 600 if tier == "quick" else 6 * 3600)
    print("check %s tier=%s seed=%d workers=%d cases=%d" % (pid, tier, seed, WORKERS, mod.CASES[tier]), flush=True)
    outs, complete = explore(pid, seed, tier, wall)
    errs = [(i, o) for i, o in outs if o[0] == "err"]
    viols = [(i, o) for i, o in outs if o[0] == "viol"]
    code = 0
    nviol = 0
    extra = {}
    if viols:
        i, o = viols[0]
        print("case %d violates %s: %s: %s" % (i, pid, o[1], o[2]), flush=True)
        code = report(pid, mod, make_case(pid, seed, tier, i), o[1], seed, i)
        nviol = len(viols) if code == 1 else 0
    elif errs:
        print("ERROR in the check itself (case %d):\n%s" % (errs[0][0], errs[0][1][2]), flush=True)
        code = 2
    post = getattr(mod, "post", None)
    if code == 0 and post:                         # aggregate decision over all executions
        r = post(pid, tier, seed, outs)
        extra.update(r.get("evidence", {}))
        for line in r.get("lines", []):
            print(line, flush=True)
        if r.get("violation"):
            case, cls, msg = r["violation"]
            print("all executions together violate %s: %s: %s" % (pid, cls, msg), flush=True)
            code = report(pid, mod, case, cls, seed, -1)
            nviol = 1 if code == 1 else 0
    if code == 0 and not outs:
        print("ERROR: nothing was explored")
        code = 2
    wall_s = time.time() - t0
    write_evidence(pid, tier, seed, mod, outs, wall_s, nviol, complete, extra)
    if code == 0:
        inc = sum(o[0] == "inc" for _, o in outs)
        print("%s held on %d executions (%d inconclusive) in %.0f s%s" % (pid, len(outs), inc, wall_s, "" if complete else " (stopped by the time budget)"), flush=True)
        if inc > 0.3 * len(outs):
            print("ERROR: too many inconclusive executions")
            code = 2
    return code


def write_evidence(pid, tier, seed, mod, outs, wall_s, nviol, complete, extra):
    faults, probes = Counter(), Counter()
    events = units = 0
    simtime = 0.0
    sigs, kinds = set(), Counter()
    for i, o in outs:
        d = o[3]
        faults.update(d["faults"]); probes.update(d["probes"])
        events += d["events"]; units += d["units"]; simtime += d["simtime"]
        kinds[o[0]] += 1
        if d["nontrivial"]:
            sigs.add(d["sig"])
    probes, faults = +probes, +faults
    samples = []
    for i, o in [x for x in outs if x[1][3]["nontrivial"]][:3]:
        samples.append(dict(index=i, outcome=o[0], case=make_case(pid, seed, tier, i), observed=o[3]))
    wanted = set(getattr(mod, "FAULTS", [])) | set(getattr(mod, "PROBES", []))
    cov = dict(evaluations=len(outs), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples,
               sub_executions=units, runs_per_hour=round(3600 * len(outs) / max(wall_s, 1e-9)),
               seeds_per_hour=round(3600 * len(outs) / max(wall_s, 1e-9)),
               simulated_events=events, simulated_seconds=round(simtime, 3),
               simulated_time_note=getattr(mod, "TIME_NOTE", "the code under this property reads no clock; progress is counted in events"),
               faults_injected=dict(sorted(faults.items())), probes_hit=dict(sorted(probes.items())),
               never_hit=sorted(k for k in wanted if not any(x == k or x.startswith(k) for x in list(faults) + list(probes))),
               distinct_interleavings=len(sigs), distinct_measure=getattr(mod, "MEASURE", "hash of the fault history and of what the execution did"),
               outcomes=dict(kinds), all_planned_cases_ran=complete,
               real_components=mod.REAL, stubbed_components=mod.STUB, exhaustive=False)
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUME", []), wall_s=round(wall_s, 2), violations=nviol)
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))
