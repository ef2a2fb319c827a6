"""Shared by the demonstrations: a small sampler; everything it writes stays in a scratch directory."""
import os, sys, tempfile, shutil, atexit, warnings
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")
import torch
import pocomc as pc
from scipy.stats import norm, uniform, expon

TMP = tempfile.mkdtemp(prefix="demo_")
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(TMP, ignore_errors=True))


def gauss(x):
    return float(-0.5 * np.sum((x - 0.4) ** 2) / 0.09)


def prior():
    return pc.Prior([norm(0, 1), uniform(-2, 4)])


def flow():
    import zuko
    torch.manual_seed(7)
    return zuko.flows.MAF(2, transforms=1, hidden_features=[8])


def sampler(lik=gauss, pr=None, **k):
    a = dict(prior=pr or prior(), likelihood=lik, n_effective=48, n_active=16, precondition=False, random_state=3,
             train_config=dict(epochs=2), output_dir=TMP, output_label="d")
    a.update(k)
    if a["precondition"] and "flow" not in a:
        a["flow"] = flow()
    elif "flow" not in a:
        a["flow"] = "maf3"
    return pc.Sampler(**a)


def run(s, **k):
    a = dict(n_total=96, n_evidence=0, progress=False)
    a.update(k)
    s.run(**a)
    return s


def check(ok, what):
    if not ok:
        print("FAILED: " + what)
        sys.exit(1)


def quiet():
    sys.stdout = open(os.devnull, "w")


def fake_mpi(rank=0, size=3):
    """mpi4py is not installed: a stand-in whose communicator runs the workers' tasks in this process."""
    import types, pickle
    m = types.ModuleType("mpi4py"); M = types.ModuleType("mpi4py.MPI")
    M.ANY_SOURCE, M.ANY_TAG = -1, -2
    class Status:
        source = tag = None
        def Get_source(self): return self.source
        def Get_tag(self): return self.tag
    M.Status = Status
    class _P:
        def __init__(self, *a): pass
    M.pickle = _P()
    m.MPI = M
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = m, M
    return M
