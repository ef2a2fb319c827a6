"""Executes one C09 case in a new interpreter: fresh.py CASE.json OUT.pkl"""
import json, os, pickle, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path[:] = [p for p in sys.path if os.path.realpath(p) != os.path.dirname(os.path.abspath(__file__))]
from sim import boot
from sim import pool
from sim.proc import run_child
from props import c09

pool.install()
with open(sys.argv[1]) as f:
    case = json.load(f)
_, (obs, _) = run_child(c09.life, (case, None))
with open(sys.argv[2], "wb") as f:
    pickle.dump(obs, f)
