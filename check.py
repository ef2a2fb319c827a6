#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--case N] [--dump]"""
import argparse, os, sys

ROOT = os.path.dirname(os.path.abspath(__file__))
if sys.executable != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python") and not os.environ.get("VERIF_PY"):
    os.environ["VERIF_PY"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
if os.environ.get("PYTHONHASHSEED") != "0" and "--keep-hash" not in sys.argv:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, ROOT)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--range", help="a:b, print outcome and signature of each case (determinism study)")
    ap.add_argument("--keep-hash", action="store_true")
    a = ap.parse_args()
    try:
        from sim import boot
    except Exception as e:                  # the code under test cannot even be imported: not what the property is about
        print("ERROR: cannot import the code under test: %r" % (e,))
        return 2
    from sim import engine, pool, scratch
    scratch.base()
    pool.install()
    if a.replay:
        d, out = engine.replay(a.replay)
        print(out[0], out[1], out[2])
        if out[0] == "viol" and out[1] == d["violation"]:
            print("VIOLATION property=%s replay=%s" % (d["property"], a.replay))
            return 1
        return 0 if out[0] != "viol" else 3
    if a.case is not None:
        import json
        case = engine.make_case(a.property, a.seed, a.tier, a.case)
        print(json.dumps(case, indent=1))
        print(engine.run_case(a.property, case))
        return 0
    if a.range:
        lo, hi = map(int, a.range.split(":"))
        for i in range(lo, hi):
            case = engine.make_case(a.property, a.seed, a.tier, i)
            o = engine.run_case(a.property, case)
            print(i, o[0], o[1], o[3]["sig"], o[3]["events"], sorted(o[3]["faults"].items()), flush=True)
        return 0
    return engine.check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
