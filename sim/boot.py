"""Imports pocomc from /repo's working tree with every uncontrolled source of nondeterminism pinned.

Must be imported before numpy/torch. Nothing here changes what pocomc does; it only makes the
numerical libraries single threaded and stops the progress bar's monitor thread.
"""
import os, sys

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")   # where the code under test lives
sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
sys.path.insert(0, REPO)

import warnings
warnings.filterwarnings("ignore")
import numpy as np
import torch
import tqdm

tqdm.tqdm.monitor_interval = 0
torch.set_num_threads(1)
np.seterr(all="ignore")

from . import mpi as _mpi
_mpi.install_fake_mpi4py()

import pocomc
import pocomc.sampler, pocomc.parallel, pocomc.prior

if not os.path.realpath(pocomc.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("pocomc was imported from %s, not from %s" % (pocomc.__file__, REPO))


def _warm():
    """Imports that torch does lazily, done once before any simulated process is forked (no pocomc code runs here)."""
    import zuko
    f = zuko.flows.MAF(2, transforms=1, hidden_features=[4])
    o = torch.optim.AdamW(f.parameters(), 1e-3)
    for x in torch.utils.data.DataLoader(torch.utils.data.TensorDataset(torch.zeros(8, 2)), 4, True):
        o.zero_grad()
        loss = -f().log_prob(x[0]).sum()
        loss.backward()
        torch.nn.utils.clip_grad_norm_(f.parameters(), 1.0)
        o.step()
    f().rsample_and_log_prob((2,))
    f().transform.inv.call_and_ladj(torch.zeros(2, 2))
    import copy, dill
    copy.deepcopy(f.state_dict())
    dill.loads(dill.dumps(f))


_warm()
