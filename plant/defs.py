S, M, P, T, R, X = "pocomc/sampler.py", "pocomc/mcmc.py", "pocomc/parallel.py", "pocomc/tools.py", "pocomc/particles.py", "pocomc/scaler.py"
D = {}


def bug(id, prop, edits, needs, breaks, demo):
    D[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c01-no-sync", "C01", [(S, """            f.flush()
            os.fsync(f.fileno())
""", """            f.flush()
""")], "a power loss shortly after the save: the rename is on disk, the data are not", "the new name can become durable before the data, leaving an empty or partial checkpoint and no old one",
"""
from h import *
s = run(sampler())
quiet()
log, real, sync = [], os.rename, (os.fsync, getattr(os, "fdatasync", os.fsync))
def key(fd):
    st = os.fstat(fd); return st.st_ino, st.st_size
os.fsync = lambda fd: (log.append(key(fd)), sync[0](fd))[1]
os.fdatasync = lambda fd: (log.append(key(fd)), sync[1](fd))[1]
state = {}
def ren(a, b, **k):
    st = os.stat(a)
    state["synced"] = (st.st_ino, st.st_size) in log
    return real(a, b, **k)
os.rename = os.replace = ren
s.save_state(os.path.join(TMP, "a.state"))
sys.stdout = sys.__stdout__
check(state.get("synced", True), "the file was published before its data were durable")
""")

bug("c01-copy-instead-of-rename", "C01", [(S, """        os.rename(temp_path, path)
""", """        # rename() fails when the target lies on another filesystem
        with open(temp_path, 'rb') as src, open(path, 'wb') as dst:
            dst.write(src.read())
        os.remove(temp_path)
""")], "a kill while the checkpoint file is being rewritten in place",
"publishing by copy truncates the previous checkpoint before the new one is complete",
"""
from h import *
import builtins
s = run(sampler())
p = os.path.join(TMP, "a.state")
quiet()
s.save_state(p)
s.run(n_total=160, n_evidence=0, progress=False)
real = builtins.open
def op(f, mode="r", *a, **k):
    h = real(f, mode, *a, **k)
    if "w" in mode and os.path.abspath(str(f)) == os.path.abspath(p):
        os._exit(0)
    return h
pid = os.fork()
if pid == 0:
    builtins.open = op
    s.save_state(p)
    os._exit(0)
os.waitpid(pid, 0)
sys.stdout = sys.__stdout__
try:
    sampler().load_state(p)
except Exception as e:
    check(False, "checkpoint unreadable after a kill: %r" % e)
""")

bug("c02-swallow-enospc", "C02", [(S, """            dill.dump(file=f, obj=state)
            f.flush()
            os.fsync(f.fileno())

        os.rename(temp_path, path)
""", """            try:
                dill.dump(file=f, obj=state)
                f.flush()
                os.fsync(f.fileno())
            except OSError as e:
                # Do not let a long run die because of a full disk
                print(f'Could not save state: {e}')
                return

        os.rename(temp_path, path)
""")], "a write or sync error of the storage during a save", "a failed save is printed and swallowed: the caller believes that the checkpoint exists",
"""
from h import *
import errno
s = run(sampler())
quiet()
def bad(fd):
    raise OSError(errno.ENOSPC, "no space")
os.fsync = bad
ok = False
try:
    s.save_state(os.path.join(TMP, "a.state"))
except OSError:
    ok = True
sys.stdout = sys.__stdout__
check(ok, "save_state() returned normally although storage failed")
""")

bug("c02-unlink-first", "C02", [(S, """        os.rename(temp_path, path)
""", """        if os.path.exists(path):
            os.remove(path)
        os.rename(temp_path, path)
""")], "the rename failing after the previous checkpoint was removed", "the previous checkpoint is lost when publishing the new one fails",
"""
from h import *
s = run(sampler())
quiet()
p = os.path.join(TMP, "a.state")
s.save_state(p)
def bad(*a, **k):
    raise OSError(5, "io")
real = os.rename, os.replace
os.rename = os.replace = bad
try:
    s.save_state(p)
except OSError:
    pass
os.rename, os.replace = real
sys.stdout = sys.__stdout__
check(os.path.exists(p), "the previous checkpoint is gone after a failed save")
sampler().load_state(p)
""")

bug("c03-keep-constructor-settings", "C03", [(S, """        self.__dict__ = {**self.__dict__, **state}
""", """        # Settings given to the constructor take precedence over the stored ones
        settings = {key: self.__dict__[key] for key in ['n_effective', 'n_active', 'train_frequency']}
        self.__dict__ = {**self.__dict__, **state, **settings}
""")], "dynamic=True having adapted the effective size before the checkpoint was taken", "the adapted effective size is forgotten on resume, so the resumed run differs from the uninterrupted one",
"""
from h import *
quiet()
def mk():
    return sampler(lambda x: 8 * gauss(x), n_effective=128, n_active=16, n_prior=16, dynamic=True, n_steps=1, n_max_steps=2)
s = mk()
rng = {}
cls = type(s)
real = cls.save_state
def save(self, p):
    real(self, p); rng[os.path.basename(str(p))] = np.random.get_state()
cls.save_state = save
run(s, n_total=400, save_every=1)
ref = s.results
cls.save_state = real
bad = None
for f in sorted(rng):
    if "final" in f:
        continue
    t = mk()
    t.load_state(os.path.join(TMP, f))
    np.random.set_state(rng[f])
    t.run(n_total=400, n_evidence=0, progress=False)
    r = t.results
    if len(r["beta"]) != len(ref["beta"]) or not np.array_equal(r["x"], ref["x"]) or not np.array_equal(r["ess"], ref["ess"]):
        bad = f
sys.stdout = sys.__stdout__
check(bad is None, "the run resumed from %s differs from the uninterrupted one" % bad)
""")

bug("c03-scale-not-saved", "C03", [(S, """            del state['pbar']  # Cannot be pickled
""", """            del state['pbar']  # Cannot be pickled
            del state['proposal_scale']  # Adapted again by the kernel
""")], "resuming from a checkpoint taken after the proposal scale was adapted", "the resumed run starts with the initial proposal scale and diverges from the uninterrupted one",
"""
from h import *
quiet()
sampler0 = sampler
sampler = lambda: sampler0(sample="rwm")
s = run(sampler())
p = os.path.join(TMP, "a.state")
s.save_state(p)
st = np.random.get_state()
s.run(n_total=200, n_evidence=0, progress=False)
t = sampler()
t.load_state(p)
np.random.set_state(st)
t.run(n_total=200, n_evidence=0, progress=False)
a, b = s.results, t.results
sys.stdout = sys.__stdout__
check(a["x"].shape == b["x"].shape and np.array_equal(a["x"], b["x"]), "the resumed run differs from the uninterrupted one")
""")

bug("c04-save-after-reweight", "C04", [(S, """            if save_every is not None:
                if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                    self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')

            # Choose next beta based on ESS of weights
            self.current_particles = self._reweight(self.current_particles)
""", """            # Choose next beta based on ESS of weights
            self.current_particles = self._reweight(self.current_particles)

            if save_every is not None:
                if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                    self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
""")], "looking at what a checkpoint written inside the loop contains", "the file named after iteration i is written when iteration i has only been reweighted, so it holds i-1 iterations",
"""
from h import *
quiet()
s = run(sampler(), save_every=2)
bad = None
for f in os.listdir(TMP):
    if f.endswith("final.state"):
        continue
    i = int(f.split("_")[1].split(".")[0])
    t = sampler()
    t.load_state(os.path.join(TMP, f))
    n = len(t.results["beta"])
    if n != i:
        bad = (f, n)
sys.stdout = sys.__stdout__
check(bad is None, "file and number of iterations stored: %s" % (bad,))
""")

bug("c04-progress-draws", "C04", [(T, """        self.info = {**self.info, **info}
        self.progress_bar.set_postfix(ordered_dict=self.info)
""", """        self.info = {**self.info, **info}
        if not self.progress_bar.disable and np.random.rand() < 0.1:
            # Refreshing for every step is slow on some terminals
            self.progress_bar.refresh()
        self.progress_bar.set_postfix(ordered_dict=self.info)
""")], "comparing the same seed with the progress bar on and off", "showing progress consumes random numbers, so turning it on changes the results",
"""
from h import *
import io
err = sys.stderr
sys.stderr = io.StringIO()
a = run(sampler(), progress=True).results
sys.stderr = err
b = run(sampler(), progress=False).results
check(a["x"].shape == b["x"].shape and np.array_equal(a["x"], b["x"]), "the progress display changed the results")
""")

bug("c05-start-over", "C05", [(S, """        with open(path, 'rb') as f:
            state = dill.load(file=f)
""", """        with open(path, 'rb') as f:
            try:
                state = dill.load(file=f)
            except EOFError:
                # Empty or incomplete file: nothing was saved yet
                state = dict()
""")], "a checkpoint truncated where unpickling reports an end of file", "a truncated checkpoint is accepted and the sampler silently starts over",
"""
from h import *
quiet()
s = run(sampler())
p = os.path.join(TMP, "a.state")
s.save_state(p)
d = open(p, "rb").read()
bad = None
for n in (0, 1, 2, len(d) // 2, len(d) - 1):
    q = os.path.join(TMP, "b.state")
    open(q, "wb").write(d[:n])
    try:
        sampler().load_state(q)
        bad = n
    except Exception:
        pass
sys.stdout = sys.__stdout__
check(bad is None, "a checkpoint truncated to %s bytes was accepted" % bad)
""")

bug("c05-reset-before-load", "C05", [(S, """        with open(path, 'rb') as f:
            state = dill.load(file=f)
        self.__dict__ = {**self.__dict__, **state}
""", """        # Release the memory held by the current history first
        self.particles = Particles(self.n_active, self.n_dim)
        with open(path, 'rb') as f:
            state = dill.load(file=f)
        self.__dict__ = {**self.__dict__, **state}
""")], "loading a missing or unreadable checkpoint into a sampler which already has a history", "a failed load wipes the sampler's own history",
"""
from h import *
quiet()
s = run(sampler())
n = len(s.results["beta"])
try:
    s.load_state(os.path.join(TMP, "missing.state"))
except Exception:
    pass
try:
    m = len(s.results["beta"])
except Exception:
    m = 0
sys.stdout = sys.__stdout__
check(m == n, "history has %d iterations after a failed load, %d before" % (m, n))
""")

MPI_DEMO = """
from h import *
import pickle, collections
M = fake_mpi()
class Comm:
    # Master side of a communicator with two workers whose answers arrive in a chosen order.
    def __init__(self, order): self.q, self.order, self.size, self.closed, self.ran = {1: [], 2: []}, order, 3, set(), []
    def Get_rank(self): return 0
    def Get_size(self): return 3
    def send(self, obj, dest, tag):
        blob = pickle.dumps(obj)
        if obj is None:
            self.closed.add(dest); return
        f, a = pickle.loads(blob)
        self.ran.append(a)
        self.q[dest].append((f(a), tag))
    def _pick(self):
        src = [w for w in self.order if self.q[w]]
        return src[0] if src else None
    def Iprobe(self, source=-1, tag=-2, status=None):
        self.polls = getattr(self, "polls", 0) + 1
        busy = self._ready() if self.polls % 3 == 0 or not hasattr(self, "late") else []
        if busy and status is not None:
            status.source, status.tag = busy[0], self.q[busy[0]][0][1]
        return bool(busy)
    def Probe(self, source=-1, tag=-2, status=None):
        self.polls = 2
        return self.Iprobe(source, tag, status)
    late = True
    def _ready(self): return [w for w in self.order if self.q[w]]
    def recv(self, source=-1, tag=-2, status=None):
        r = self._ready() if source in (-1, None) else [source]
        w = r[-1]                      # any message that has arrived may match
        if tag not in (-2, None):
            j = [i for i, m in enumerate(self.q[w]) if m[1] == tag][0]
        else:
            j = 0
        v, t = self.q[w].pop(j)
        if status is not None:
            status.source, status.tag = w, t
        return v
def sq(x): return x * x
def ident(x): return x
"""

bug("c06-status-of-probe", "C06", [(P, """            if tasklist:
                flag = self.comm.Iprobe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)
                if not flag:
                    continue
            else:
                self.comm.Probe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)

            status = MPI.Status()
            try:
                result = self.comm.recv(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG,
                                        status=status)
""", """            status = MPI.Status()
            if tasklist:
                flag = self.comm.Iprobe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=status)
                if not flag:
                    continue
            else:
                self.comm.Probe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=status)

            try:
                result = self.comm.recv(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)
""")], "two workers' answers both waiting at the master, and the receive matching another one than the probe saw", "source and tag come from the probe while the data come from the receive: results are attributed to the wrong task",
MPI_DEMO + """
for order in ([1, 2], [2, 1]):
    pool = pc.MPIPool(comm=Comm(order))
    out = pool.map(sq, range(7))
    check(out == [i * i for i in range(7)], "map returned %s" % out)
""")

bug("c06-drop-falsy", "C06", [(P, """        tasklist = [(tid, (worker, arg)) for tid, arg in enumerate(tasks)]
        resultlist = [None] * len(tasklist)
""", """        tasks = sorted(tasks, key=id) if isinstance(tasks, (set, frozenset)) else list(tasks)
        # Long lists: evaluate equal neighbouring tasks only once
        unique = [i for i, arg in enumerate(tasks) if i == 0 or arg is not tasks[i - 1]]
        tasklist = [(tid, (worker, tasks[tid])) for tid in unique]
        resultlist = [None] * len(tasks)
""")], "the same object appearing twice in a row among the tasks", "the repeated task is not evaluated and its result is None",
MPI_DEMO + """
o = (1, 2)
pool = pc.MPIPool(comm=Comm([1, 2]))
out = pool.map(ident, [o, o, (3, 4)])
check(out == [o, o, (3, 4)], "map returned %s" % out)
""")

bug("c07-weakref-exit", "C07", [(P, """        atexit.register(lambda: MPIPool.close(self))
""", """        # Do not keep the pool alive until the interpreter exits
        ref = weakref.ref(self)
        atexit.register(lambda: ref() is not None and MPIPool.close(ref()))
"""), (P, """import atexit
""", """import atexit
import weakref
""")], "a pool that is never closed explicitly and goes out of scope before the program ends", "nobody tells the workers to quit at interpreter exit: the job hangs",
MPI_DEMO + """
import atexit
hooks = []
real, atexit.register = atexit.register, lambda f, *a, **k: hooks.append(f) or f
c = Comm([1, 2])
def program():
    pool = pc.MPIPool(comm=c)
    pool.map(sq, [1, 2, 3])
program()
atexit.register = real
for f in hooks: f()
check(c.closed == {1, 2}, "workers told to quit: %s" % c.closed)
""")

bug("c07-close-once", "C07", [(P, """        if self.is_worker():
            return

        for worker in self.workers:
            self.comm.send(None, worker, 0)
""", """        if self.is_worker():
            return

        for worker in range(1, self.size):
            self.comm.send(None, worker, 0)
""")], "closing the pool (the last worker only)", "the last worker is never told to quit",
MPI_DEMO + """
c = Comm([1, 2])
with pc.MPIPool(comm=c) as pool:
    pool.map(sq, [1, 2, 3])
check(c.closed == {1, 2}, "workers told to quit: %s" % c.closed)
""")

bug("c08-unordered", "C08", [(S, """            results = list(self.distribute(self.log_likelihood, x))
""", """            if hasattr(self.pool, 'imap_unordered'):
                # Consume results as they arrive, then restore the order
                results = list(self.pool.imap_unordered(self.log_likelihood, x, chunksize=max(1, len(x) // 8)))
            else:
                results = list(self.distribute(self.log_likelihood, x))
""")], "a pool that completes chunks of evaluations out of order", "likelihood values are attached to the wrong points whenever the pool finishes them out of order",
"""
from h import *
class Pool:
    def map(self, f, xs): return [f(x) for x in xs]
    def imap_unordered(self, f, xs, chunksize=1):
        xs = list(xs)
        for i in reversed(range(len(xs))):
            yield f(xs[i])
a, b = run(sampler()).results, run(sampler(pool=Pool())).results
check(a["x"].shape == b["x"].shape and np.array_equal(a["logl"], b["logl"]), "the pool changed the results")
""")

bug("c09-seed-zero", "C09", [(S, """        if random_state is not None:
            np.random.seed(random_state)
            torch.manual_seed(random_state)
""", """        if random_state:
            np.random.seed(random_state)
            torch.manual_seed(random_state)
""")], "random_state=0", "seed zero is treated like no seed, so two runs with it differ",
"""
from h import *
def go(k):
    np.random.seed(k)
    return run(sampler(random_state=0)).results
a, b = go(1), go(2)
check(a["x"].shape == b["x"].shape and np.array_equal(a["x"], b["x"]), "two runs with random_state=0 differ")
""")

bug("c09-bootstrap-rng", "C09", [(S, """        dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
""", """        rng = np.random.default_rng()
        dlogz = np.std([np.logaddexp.reduce(logw[rng.integers(len(logw), size=len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
""")], "importance-sampled evidence of a seeded run", "the evidence error is drawn from operating-system entropy and differs between equal seeded runs",
"""
from h import *
a = run(sampler(precondition=True), n_evidence=64).evidence()
b = run(sampler(precondition=True), n_evidence=64).evidence()
check(a == b, "evidence of two equal seeded runs: %s %s" % (a, b))
""")

bug("c10-rwm-blobs", "C10", [(M, """        # Accept new points
        u[mask] = u_prime[mask]
        x[mask] = x_prime[mask]
        logdetj[mask] = logdetj_prime[mask]
        logl[mask] = logl_prime[mask]
        logp[mask] = logp_prime[mask]
        if have_blobs:
            blobs[mask] = blobs_prime[mask]

        # Adapt scale parameter using diminishing adaptation
        sigma = np.abs(sigma + 1 / (i + 1) * (np.mean(alpha) - 0.234))
""", """        # Accept new points
        u[mask] = u_prime[mask]
        x[mask] = x_prime[mask]
        logdetj[mask] = logdetj_prime[mask]
        logl[mask] = logl_prime[mask]
        logp[mask] = logp_prime[mask]
        if have_blobs and np.all(finite_mask):
            blobs[mask] = blobs_prime[mask]

        # Adapt scale parameter using diminishing adaptation
        sigma = np.abs(sigma + 1 / (i + 1) * (np.mean(alpha) - 0.234))
""")], "unpreconditioned random-walk kernel, blobs, and a proposal outside the prior support in the same step as an accepted one", "accepted points keep the blob of the point they came from",
"""
from h import *
class Half(pc.Prior):
    def logpdf(self, x):
        v = pc.Prior.logpdf(self, x)
        return np.where(x[:, 0] > -0.2, v, -np.inf)
    def rvs(self, size=1):
        x = pc.Prior.rvs(self, 6 * size)
        return x[x[:, 0] > -0.2][:size]
s = run(sampler(lambda x: (gauss(x), x[0] + 2 * x[1]), pr=Half([norm(0, 1), uniform(-2, 4)]), sample="rwm", blobs_dtype=float, n_steps=3))
r = s.results
check(np.allclose(r["blobs"], r["x"][..., 0] + 2 * r["x"][..., 1]), "blobs do not belong to their samples")
""")

bug("c10-alias-boundary", "C10", [(S, """                    logdetj[infinite_idx] = logdetj[idx]
                    logp[infinite_idx] = logp[idx]
""", """                    logp[infinite_idx] = logp[idx]
""")], "a zero-likelihood point in the initial batch", "replaced points keep the Jacobian of the point they replaced",
"""
from h import *
def lik(x):
    return -np.inf if x[0] > 0.3 else gauss(x)
s = run(sampler(lik))
r = s.results
j = s.scaler.inverse(r["u"][0])[1]
check(np.allclose(j, r["logdetj"][0]), "Jacobians do not belong to their samples")
""")

bug("c11-count-all-proposals", "C11", [(M, """    cov = geometry.normal_cov
    chol = np.linalg.cholesky(cov)

    # Transform u to theta
    theta, logdetj_flow = flow.forward(u)

    logp2_val = np.mean(logl + logp + logdetj)
    cnt = 0
""", """    cov = geometry.normal_cov
    chol = np.linalg.cholesky(cov)
    n_calls = n_walkers

    # Transform u to theta
    theta, logdetj_flow = flow.forward(u)

    logp2_val = np.mean(logl + logp + logdetj)
    cnt = 0
""")], "preconditioned random-walk kernel", "every iteration reports one batch of likelihood calls too many",
"""
from h import *
n = [0]
def lik(x):
    n[0] += 1
    return gauss(x)
s = run(sampler(lik, precondition=True, sample="rwm"))
check(s.results["calls"][-1] == n[0], "reported %d calls, made %d" % (s.results["calls"][-1], n[0]))
""")

bug("c11-out-of-support", "C11", [(M, """        # Compute Metropolis factors
        diff_prime = theta_prime-mu
""", """        if not np.any(finite_mask):
            n_calls += n_walkers

        # Compute Metropolis factors
        diff_prime = theta_prime-mu
""")], "a step of the preconditioned pCN kernel in which every proposal lies outside the prior support", "calls that were never made are counted",
"""
from h import *
class Ring(pc.Prior):
    def ok(self, x):
        r = np.hypot(x[:, 0], x[:, 1] )
        return (r > 0.9) & (r < 0.93)
    def logpdf(self, x):
        return np.where(self.ok(x), pc.Prior.logpdf(self, x), -np.inf)
    def rvs(self, size=1):
        x = np.empty((0, 2))
        while len(x) < size:
            y = pc.Prior.rvs(self, 20000)
            x = np.concatenate([x, y[self.ok(y)]])
        return x[:size]
n = [0]
def lik(x):
    n[0] += 1
    return gauss(x)
s = run(sampler(lik, pr=Ring([norm(0, 1), uniform(-2, 4)]), precondition=True, n_active=8, n_effective=24, n_steps=4), n_total=64)
check(s.results["calls"][-1] == n[0], "reported %d calls, made %d" % (s.results["calls"][-1], n[0]))
""")

bug("c12-pool-fallback", "C12", [(S, """            results = list(self.distribute(self.log_likelihood, x))
""", """            try:
                results = list(self.distribute(self.log_likelihood, x))
            except (OSError, RuntimeError):
                # Pool is not usable any more, evaluate serially instead
                results = list(map(self.log_likelihood, x))
""")], "a pooled evaluation raising RuntimeError or OSError once", "the error never reaches the caller of run",
"""
from h import *
class Pool:
    n = 0
    def map(self, f, xs):
        Pool.n += 1
        if Pool.n == 5:
            raise RuntimeError("worker died")
        return [f(x) for x in xs]
try:
    run(sampler(pool=Pool()))
    check(False, "run() returned normally although the pool failed")
except RuntimeError:
    pass
""")

bug("c12-update-early", "C12", [(S, """            # Evolve particles using MCMC
            self.current_particles = self._mutate(self.current_particles)   

            # Save particles
            self.particles.update(self.current_particles)
""", """            # Evolve particles using MCMC
            try:
                self.current_particles = self._mutate(self.current_particles)
            finally:
                # Save particles
                self.particles.update(self.current_particles)
""")], "the likelihood raising inside the mutation step", "the aborted iteration is recorded as if it had completed",
"""
from h import *
n = [0, 0]
def lik(x):
    n[0] += 1
    if n[0] == 150:
        raise ValueError("boom")
    return gauss(x)
s = sampler(lik)
try:
    run(s)
except ValueError:
    pass
k = len(s.results["beta"])
t = sampler(lambda x: gauss(x))
calls = []
run(t)
done = int(np.sum(t.results["calls"] < 150))
check(k == done, "history has %d iterations, %d were completed before the failure" % (k, done))
""")

bug("c13-resume-total", "C13", [(S, """        self.n_total = int(n_total)
        self.n_evidence = int(n_evidence)
""", """        if resume_state_path is None or self.n_total is None:
            self.n_total = int(n_total)
        self.n_evidence = int(n_evidence)
""")], "resuming from a checkpoint and asking for more samples than the interrupted run did", "the resumed run stops at the total stored in the checkpoint instead of the requested one",
"""
from h import *
quiet()
s = run(sampler(), n_total=64, save_every=100)
t = sampler()
t.run(n_total=200, n_evidence=0, progress=False, resume_state_path=os.path.join(TMP, "d_final.state"))
lw = t.results["logw"]
w = np.exp(lw - lw.max()); w /= w.sum()
sys.stdout = sys.__stdout__
check(1 / np.sum(w ** 2) >= 200, "effective sample size %.0f, 200 requested" % (1 / np.sum(w ** 2)))
""")

bug("c13-stop-metric", "C13", [(S, """        if self.metric == 'ess':
            ess = effective_sample_size(weights)
        elif self.metric == 'uss':
            ess = unique_sample_size(weights)

        # Only completed""", """        ess = effective_sample_size(weights)

        # Only completed""")], "metric='uss'", "the run stops by effective instead of unique sample size",
"""
from h import *
bad = None
for seed in range(20):
    s = sampler(random_state=seed, metric="uss")
    run(s, n_total=150)
    lw = s.results["logw"]
    w = np.exp(lw - lw.max()); w /= w.sum()
    uss = np.sum(1 - (1 - w) ** len(w))
    if uss < 150:
        bad = (seed, uss)
    # and it stopped at the first iteration at which the size was reached
    r = s.results
    if r["beta"][-2] == 1.0:
        l, b, z = r["logl"][:-1], r["beta"][:-1], r["logz"][:-1]
        q = np.logaddexp.reduce(np.array([l * bi - zi for bi, zi in zip(b, z)]), axis=0) - np.log(len(b))
        v = (l - q).ravel(); w = np.exp(v - v.max()); w /= w.sum()
        if np.sum(1 - (1 - w) ** len(w)) >= 150:
            bad = (seed, "late")
check(bad is None, "unique sample size at the end: %s" % (bad,))
""")

bug("c14-hold-recompute", "C14", [(S, """            logz = self.particles.get("logz", index=-1)
            ess_est = ess_est_prev
""", """            logz = self.current_particles.get("logz") + np.log(len(self.particles.get("logz"))) - np.log(len(self.particles.get("logz")) + 1)
            ess_est = ess_est_prev
""")], "an iteration that holds the temperature because the effective size is below the target", "the evidence recorded for such an iteration is not the one of its temperature, which distorts all later weights",
"""
from h import *
s = sampler(lambda x: 6 * gauss(x), n_active=16, n_effective=64, n_prior=16)
run(s, n_total=128)
r = s.results
b = r["beta"]
hold = [i for i in range(1, len(b)) if b[i] == b[i - 1] and b[i] < 1]
bad = [i for i in hold if r["logz"][i] != r["logz"][i - 1]]
check(not bad, "evidence changed at unchanged temperature in iterations %s" % bad)
""")

bug("c14-trim-order", "C14", [(T, """        mask = weights >= threshold
""", """        mask = weights > threshold if i > 0 else weights >= threshold
""")], "many samples sharing exactly the threshold weight", "trimming drops the samples tied at the threshold although the heaviest samples asked for include them",
"""
from h import *
from pocomc.tools import trim_weights
s = sampler(lambda x: 0.0)
run(s, n_total=96)
x, w, l, p = s.posterior()
check(len(x) == len(s.posterior(trim_importance_weights=False)[0]) and len(x) > 0, "equal weights, yet %d of %d samples are kept" % (len(x), len(s.posterior(trim_importance_weights=False)[0])))
""")

bug("c15-shared-config", "C15", [(S, """        self.train_config = dict(validation_split=0.5,
                                 epochs=5000,
                                 batch_size=np.minimum(self.n_effective//2, 512),
                                 patience=int(self.n_dim),
                                 learning_rate=1e-3,
                                 annealing=False,
                                 gaussian_scale=None,
                                 laplace_scale=None,
                                 noise=None,
                                 shuffle=True,
                                 clip_grad_norm=1.0,
                                 verbose=0,
                                )
        if train_config is not None:
            for key in train_config.keys():
                self.train_config[key] = train_config[key]
""", """        defaults = dict(validation_split=0.5,
                        epochs=5000,
                        batch_size=np.minimum(self.n_effective//2, 512),
                        patience=int(self.n_dim),
                        learning_rate=1e-3,
                        annealing=False,
                        gaussian_scale=None,
                        laplace_scale=None,
                        noise=None,
                        shuffle=True,
                        clip_grad_norm=1.0,
                        verbose=0,
                        )
        self.train_config = {} if train_config is None else train_config
        for key in defaults.keys():
            self.train_config.setdefault(key, defaults[key])
""")], "the same options dictionary given to two samplers", "defaults of the first sampler are written into the user's dictionary and used by the second one",
"""
from h import *
tc = dict(epochs=2)
sampler(train_config=tc, precondition=True)
check(tc == dict(epochs=2), "the user's dictionary was modified: %s" % sorted(tc))
""")

bug("c15-class-history", "C15", [(R, """        self.n_particles = n_particles
        self.n_dim = n_dim

        self.past = dict(
""", """        self.n_particles = n_particles
        self.n_dim = n_dim

        self.past = _new_history(
"""), (R, """class Particles:
    \"\"\"
    Class to store""", """_EMPTY = []


def _new_history(**fields):
    # Scalars are few: one growing list each; arrays are stored per iteration
    if _EMPTY and all(len(v) == 0 for v in _EMPTY[0].values()):
        return _EMPTY.pop()
    _EMPTY[:] = [fields]
    return fields


class Particles:
    \"\"\"
    Class to store""")], "two samplers created before either of them runs", "both samplers record into the same history",
"""
from h import *
a, b = sampler(), sampler(random_state=5)
run(a)
na = len(a.results["beta"])
run(b)
check(len(a.results["beta"]) == na, "running another sampler changed this one's history")
""")

bug("c16-prwm-jacobian", "C16", [(M, """            np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj + logdetj_flow_prime - logdetj_flow)
""", """            np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj)
""")], "preconditioned random-walk kernel with a flow that is not volume preserving", "the flow's Jacobian is missing from the acceptance probability: the chain converges to the wrong distribution",
"""
from h import *
import zuko
v = []
for seed in range(60):
    torch.manual_seed(1)
    f = zuko.flows.NSF(2, transforms=2, hidden_features=[16], bins=6)
    with torch.no_grad():
        for p in f.parameters():
            p.mul_(2.0)
    s = sampler(lambda x: 0.0, pr=pc.Prior([expon(0, 1), uniform(-2, 4)]), precondition=True, sample="rwm", flow=f, random_state=seed, n_active=32, n_effective=64,
                n_steps=1000, n_max_steps=15, train_config=dict(epochs=2))
    s.run(n_total=200, n_evidence=0, progress=False)
    r = s.results
    x = np.concatenate([r["x"][i] for i in range(len(r["beta"])) if r["beta"][i] == 1.0])
    v.append(np.concatenate([np.mean(1 - np.exp(-x[:, :1]), axis=0), np.mean((x[:, 1:] + 2) / 4, axis=0), [np.mean((1 - np.exp(-x[:, 0]) - .5) ** 2), np.mean(((x[:, 1] + 2) / 4 - .5) ** 2)]]))
v = np.array(v) - [0.5, 0.5, 1 / 12, 1 / 12]
m, se = v.mean(0), v.std(0) / len(v) ** 0.5
check(np.all(np.abs(m) < 0.01 + 6 * se), "deviations from the exact expectations: %s +- %s" % (m, se))
""")

bug("c16-pcn-contraction", "C16", [(M, """            u_prime[k] = mu + (1.0 - sigma ** 2.0) ** 0.5 * diff[k] + sigma""", """            u_prime[k] = mu + (1.0 - sigma) * diff[k] + sigma""")],
"unpreconditioned pCN kernel with an adapted scale well below one", "the proposal does not preserve the reference distribution assumed in the acceptance probability: the posterior comes out too narrow",
"""
from h import *
v = []
for seed in range(60):
    s = sampler(lambda x: 0.0, pr=pc.Prior([expon(0, 1), uniform(-2, 4)]), random_state=seed, n_active=32, n_effective=64, n_steps=1000, n_max_steps=20)
    s.proposal_scale = 0.3
    s.run(n_total=200, n_evidence=0, progress=False)
    r = s.results
    x = np.concatenate([r["x"][i] for i in range(len(r["beta"])) if r["beta"][i] == 1.0])
    c = np.stack([1 - np.exp(-x[:, 0]), (x[:, 1] + 2) / 4], axis=1)
    v.append(np.concatenate([c.mean(0), ((c - .5) ** 2).mean(0)]))
v = np.array(v) - [0.5, 0.5, 1 / 12, 1 / 12]
m, se = v.mean(0), v.std(0) / len(v) ** 0.5
check(np.all(np.abs(m) < 0.006 + 6 * se), "deviations from the exact expectations: %s +- %s" % (m, se))
""")

bug("c16-right-bound", "C16", [(X, """        return self.high[self.mask_right] - np.exp(u[:, self.mask_right]), u[:, self.mask_right]
""", """        return self.high[self.mask_right] - np.exp(u[:, self.mask_right]), -u[:, self.mask_right]
""")], "a parameter bounded only from above", "wrong sign of the Jacobian: the posterior of such a parameter is wrong",
"""
from h import *
from scipy.stats import weibull_max
d = weibull_max(2.0)
v = []
for seed in range(60):
    s = sampler(lambda x: 0.0, pr=pc.Prior([d, norm(0, 1)]), random_state=seed, n_active=32, n_effective=64, n_steps=1000, n_max_steps=10)
    s.run(n_total=200, n_evidence=0, progress=False)
    r = s.results
    x = np.concatenate([r["x"][i] for i in range(len(r["beta"])) if r["beta"][i] == 1.0])
    v.append(np.mean(d.cdf(x[:, 0])))
v = np.array(v) - 0.5
check(abs(v.mean()) < 0.015 + 6 * v.std() / len(v) ** 0.5, "expectation off by %.3f" % v.mean())
""")

bug("c16-error-bar", "C16", [(S, """        dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
""", """        dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))]) / np.sqrt(len(logw))
""")], "comparing the reported evidence error with the scatter over runs", "the reported evidence error is an order of magnitude too small",
"""
from h import *
e = []
for seed in range(25):
    s = sampler(lambda x: 0.0, precondition=True, random_state=seed, train_config=dict(epochs=20, learning_rate=2e-2))
    run(s, n_evidence=100)
    e.append(s.evidence())
e = np.array(e)
q = np.median(np.abs(e[:, 0]) / e[:, 1])
check(0.25 < q < 2.2, "median deviation is %.2f reported errors" % q)
""")

bug("c17-inf-mask", "C17", [(S, """                inf_logl_mask = np.isinf(logl)
""", """                inf_logl_mask = logl < -1e300 if i == 0 else np.zeros(len(logl), dtype=bool)
""")], "a zero-likelihood point in the second or a later batch of the initial phase", "points with zero likelihood enter the history",
"""
from h import *
def lik(x):
    return -np.inf if x[0] > 0.3 else gauss(x)
s = run(sampler(lik))
check(np.all(np.isfinite(s.results["logl"])), "points with zero likelihood are in the history")
""")

bug("c17-nan-accept", "C17", [(M, """            np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj)
        )
        alpha[np.isnan(alpha)] = 0.0
""", """            np.exp((logl_prime - logl) * beta + logp_prime - logp + logdetj_prime - logdetj) if beta > 0.0 else
            np.exp(logp_prime - logp + logdetj_prime - logdetj)
        )
        alpha[np.isnan(alpha)] = 0.0
""")], "unpreconditioned random-walk kernel, an iteration at temperature zero (effective size below the target after the initial phase) and a zero-likelihood proposal", "at temperature zero the likelihood is ignored, so zero-likelihood points are accepted into the history",
"""
from h import *
def lik(x):
    return -np.inf if x[0] > 0.3 else gauss(x)
s = sampler(lik, sample="rwm", n_prior=16, n_effective=96, n_active=16, n_steps=3)
run(s, n_total=128)
check(np.all(np.isfinite(s.results["logl"])), "points with zero likelihood are in the history")
""")

bug("c18-alias-history", "C18", [(S, """            u=current_particles.get("u").copy(),
            x=current_particles.get("x").copy(),
            logdetj=current_particles.get("logdetj").copy(),
            logp=current_particles.get("logp").copy(),
            logl=current_particles.get("logl").copy(),
""", """            u=current_particles.get("u"),
            x=current_particles.get("x"),
            logdetj=current_particles.get("logdetj"),
            logp=current_particles.get("logp"),
            logl=current_particles.get("logl"),
"""), (S, """        if self.resample == 'mult':
            idx_resampled = np.random.choice(np.arange(len(weights)), size=self.n_active, replace=True, p=weights)
        elif self.resample == 'syst':
            idx_resampled = systematic_resample(self.n_active, weights=weights)

        current_particles["u"] = u[idx_resampled]
""", """        if self.resample == 'mult':
            idx_resampled = np.random.choice(np.arange(len(weights)), size=self.n_active, replace=True, p=weights)
        elif self.resample == 'syst':
            idx_resampled = systematic_resample(self.n_active, weights=weights)

        # Keep the history small: forget the initial batches once they carry no weight
        if len(self.particles.past["x"]) > 12 and current_particles["beta"] == 1.0 and np.max(self.particles.past["logl"][0]) < np.min(current_particles["logl"]):
            self.particles.past["x"][0] = np.copy(x[:self.n_active])

        current_particles["u"] = u[idx_resampled]
""")], "a long run whose first batch lies entirely below all samples that still carry weight", "an entry of the recorded history is overwritten",
"""
from h import *
first, bad = {}, None
for seed in range(12):
    s = sampler(lambda x: 60 * gauss(x), random_state=seed, n_active=16, n_effective=32)
    run(s, n_total=64)
    x0 = s.results["x"][0].copy()
    run(s, n_total=256)
    if not np.array_equal(x0, s.results["x"][0]):
        bad = seed
check(bad is None, "the first recorded iteration changed")
""")

bug("c18-iter-index", "C18", [(S, """        self.t += 1
        self.pbar.update_iter()

        beta_prev""", """        self.t = len(self.particles.get("beta")) + 1 if self.particles.get("beta", index=-1) < 1.0 else self.t + 2
        self.pbar.update_iter()

        beta_prev""")], "iterations at temperature one", "iteration indices skip numbers once the posterior is reached",
"""
from h import *
s = run(sampler(), n_total=200)
i = list(s.results["iter"])
check(i == list(range(len(i))), "iteration indices: %s" % i)
""")

bug("c19-seeded-resample", "C19", [(S, """        if resample:
            if self.resample == 'mult':
                idx_resampled = np.random.choice(np.arange(len(weights)), size=len(samples), replace=True, p=weights)
            elif self.resample == 'syst':
                idx_resampled = systematic_resample(len(weights), weights=weights)
""", """        if resample:
            if self.resample == 'mult':
                idx_resampled = np.random.choice(np.arange(len(weights)), size=len(samples), replace=True, p=weights)
            elif self.resample == 'syst':
                idx_resampled = systematic_resample(len(weights), weights=weights, random_state=self.random_state)
""")], "asking for resampled posterior samples (systematic resampling) between two runs of one sampler", "the query resets the global random generator, so the continued run repeats random numbers and differs from that of a sampler never queried",
"""
from h import *
def go(query):
    s = run(sampler(resample="syst"))
    if query:
        st = np.random.get_state()
        k = st[2]
        s.posterior(resample=True)
        a = np.random.get_state()
        np.random.set_state(st)
        b = [np.random.random() for _ in range(1)]
        e = np.random.get_state()
        return np.array_equal(a[1], e[1]) and a[2] == e[2]
    return True
check(go(True), "the query left the random generator in a state unrelated to the one before it")
""")

bug("c19-shared-results", "C19", [(R, """            if flat:
                return np.concatenate(self.past.get(key))
            else:
                return np.asarray(self.past.get(key))
""", """            if flat:
                return np.concatenate(self.past.get(key))
            elif len(self.past.get(key)) == 1:
                # Avoid a copy
                return np.asarray(self.past.get(key)[0])[None]
            else:
                return np.asarray(self.past.get(key))
""")], "results queried when exactly one iteration is recorded (n_prior equal to n_active, then a failure), and the returned array overwritten", "results hand out the internal arrays, so overwriting them corrupts the sampler",
"""
from h import *
n = [0]
def lik(x):
    n[0] += 1
    if n[0] == 20:
        raise ValueError("stop")
    return gauss(x)
s = sampler(lik, n_prior=16)
try:
    run(s)
except ValueError:
    pass
r = s.results
x = r["x"].copy()
r["x"][:] = 7.0
check(np.array_equal(s.results["x"], x), "overwriting the returned array changed the sampler")
""")
