"""Builds /verif/seeded/<id> from defs.py and confirms it in scratch copies: build.py [ids...]"""
import sys, os, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from defs import D
OUT = os.path.join(os.path.dirname(here), "seeded")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(id):
    b = D[id]
    w = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__"))
        out = os.path.join(w, "bug")
        os.makedirs(out)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(b["demo"].lstrip())
        shutil.copy(os.path.join(here, "h.py"), out)
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$here/demo.py"\n')
        demo = lambda: subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        r = demo()
        if r.returncode:
            return id, "demo fails on the clean tree: " + r.stdout.decode()[-400:]
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return id, "edit does not apply: " + old[:80]
            k = s.count(old)
            if k > 1 and id not in ("c16-prwm-jacobian",):
                return id, "edit is ambiguous (%d): %s" % (k, old[:80])
            open(p, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout
        open(os.path.join(out, "patch.diff"), "wb").write(d)
        r = demo()
        if r.returncode == 0:
            return id, "demo passes with the bug"
        msg = r.stdout.decode().strip().splitlines()[-1][:150]
        x = os.path.join(w, "j.xml")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=200", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], cwd=repo, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(w, "o.json"), "junit:" + x])
        bad = stable - set(json.load(open(os.path.join(w, "o.json")))["passed"])
        if bad:
            return id, "tests fail: %s" % sorted(bad)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        t = os.path.join(OUT, id)
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(out, t, ignore=shutil.ignore_patterns("__pycache__"))
        return id, "OK   demo: " + msg
    except Exception as e:
        return id, "error %r" % e
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sys.argv[1:] or sorted(D)
with ThreadPoolExecutor(6) as ex:
    for id, m in ex.map(one, ids):
        print("%-28s %s" % (id, m), flush=True)
