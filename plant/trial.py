"""Runs the matching quick check against each planted bug (in a scratch copy named by VERIF_REPO): trial.py [ids...]"""
import json, os, re, shutil, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for id in ids:
    b = os.path.join(V, "seeded", id)
    prop = os.environ.get("PROP") or json.load(open(os.path.join(b, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="trial_", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/repo")
        subprocess.run(["git", "apply", os.path.join(b, "patch.diff")], cwd=w + "/repo", check=True)
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "check.py", prop, "--tier", "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        m = re.search(r"violation: (.*)", out)
        print("%-30s %s rc=%d %.0fs %s" % (id, prop, r.returncode, time.time() - t, (m.group(1) if m else out.strip().splitlines()[-1])[:170]), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
