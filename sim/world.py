"""Workloads: JSON-describable targets and sampler configurations, with recorders the simulator owns.

The likelihood and the prior are user code, so they are the simulator's: every evaluation is logged and is a point
where the simulator may inject an error, an invalid value, a crash or a context switch. Their values are pure
functions of the point, computed with operations that give the same bits one point at a time or vectorised.
"""
import zlib
import numpy as np
import torch
import pocomc as pc
from scipy import stats as st
from .core import Violation, Rand
from . import pool as simpool

RECS = {}


class Recorder:
    """What user code saw of one sampler (process memory; dies with the simulated process unless reported)."""
    def __init__(self, rid):
        self.rid = rid
        self.calls = []           # bytes of every point evaluated, in order
        self.n = 0
        self.np = 0               # prior density calls
        self.on_eval = None       # callback(i, x) before point i is evaluated
        self.on_prior = None      # callback(i, x) before prior call i
        self.empty = 0

    def eval(self, x):
        i = self.n
        if self.on_eval:
            self.on_eval(i, x)
        self.n += 1
        self.calls.append(np.ascontiguousarray(x, dtype=float).tobytes())


def rec(rid):
    if rid not in RECS:
        RECS[rid] = Recorder(rid)
    return RECS[rid]


# ---------------------------------------------------------------- targets

PRIORS = {
    "norm": lambda: st.norm(0.0, 1.0),
    "wide": lambda: st.norm(1.0, 3.0),
    "unif": lambda: st.uniform(-2.0, 4.0),
    "unit": lambda: st.uniform(0.0, 1.0),
    "expon": lambda: st.expon(0.0, 1.0),
    "shexp": lambda: st.expon(2.0, 0.5),
    "wmax": lambda: st.weibull_max(2.0),
    "beta": lambda: st.beta(2.0, 3.0),
}
# centre and width of the likelihood along a dimension with that prior
CENTRE = {"norm": (0.4, 0.35), "wide": (0.0, 0.8), "unif": (0.5, 0.4), "unit": (0.4, 0.12), "expon": (0.8, 0.3),
          "shexp": (2.4, 0.15), "wmax": (-0.8, 0.25), "beta": (0.4, 0.1)}


def _inside(hole, kinds, x):
    """Indicator of the part of the prior's box that really has prior mass."""
    if hole == "ring":
        z0, z1 = [(x[:, j] - CENTRE[kinds[j]][0]) / CENTRE[kinds[j]][1] for j in (0, 1)]
        r2 = z0 * z0 + z1 * z1
        return (r2 >= 0.8) & (r2 <= 1.2)
    lo, hi = HOLES[hole][kinds[0]]
    return (x[:, 0] >= lo) & (x[:, 0] <= hi)


HOLES = {"half": {"norm": (-0.5, 9.0), "unif": (-1.0, 2.0), "unit": (0.0, 0.7), "expon": (0.2, 50.0), "wide": (-2, 40.), "shexp": (2.1, 40.), "wmax": (-1.3, 0.), "beta": (0.2, 1.0)},
         "most": {"norm": (0.2, 0.7), "unif": (0.3, 0.8), "unit": (0.35, 0.5), "expon": (0.7, 1.0), "wide": (-.3, .6), "shexp": (2.3, 2.5), "wmax": (-.9, -.7), "beta": (0.35, 0.45)}}


def hole_mass(hole, k):
    """Log of the prior mass of what is left (the ring's is left out: its prior is not normalised)."""
    if hole == "ring":
        return 0.0
    lo, hi = HOLES[hole][k]
    d = PRIORS[k]()
    return float(np.log(d.cdf(hi) - d.cdf(lo)))


class SimPrior(pc.Prior):
    """pocomc's own Prior, observed; optionally without mass in part of its box, or handing out stored draws and densities."""
    def __init__(self, kinds, rid, hole=None, bank=False):
        pc.Prior.__init__(self, [PRIORS[k]() for k in kinds])
        self.kinds, self.rid, self.hole, self.bank, self.memo = list(kinds), rid, hole, None, {}
        if bank:
            with keep_rng():
                set_fixed_rng(11)
                self.bank = self.rvs(1024)

    def logpdf(self, x):
        r = rec(self.rid)
        if r.on_prior:
            r.on_prior(r.np, x)
        r.np += 1
        if self.bank is not None:
            k = np.ascontiguousarray(x).tobytes()
            if k not in self.memo:
                self.memo[k] = self.pure(x)
            return self.memo[k]
        return self.pure(x)

    def pure(self, x):
        v = pc.Prior.logpdf(self, x)
        if self.hole:
            v = np.where(_inside(self.hole, self.kinds, x), v - hole_mass(self.hole, self.kinds[0]), -np.inf)
        return v

    def rvs(self, size=1):
        if self.bank is not None:
            return self.bank[:size]
        if not self.hole:
            return pc.Prior.rvs(self, size)
        out = np.empty((0, self.dim))
        while len(out) < size:
            c = pc.Prior.rvs(self, 4 * size)
            out = np.concatenate([out, c[_inside(self.hole, self.kinds, c)]])
        return out[:size]

    def __reduce__(self):
        return SimPrior, (self.kinds, self.rid, self.hole, self.bank is not None)


def loglike(t, x):
    """t: target description; x: (d,) or (n, d)."""
    x = np.asarray(x, dtype=float)
    d = x.shape[-1]
    kinds, shape = t["prior"], t["lik"]
    z = [(x[..., j] - CENTRE[kinds[j]][0]) / (CENTRE[kinds[j]][1] * t.get("width", 1.0)) for j in range(d)]
    if shape == "flat":
        q = x[..., 0] * 0.0
    elif shape == "gauss":
        q = z[0] * z[0]
        for j in range(1, d):
            q = q + z[j] * z[j]
    elif shape == "corr":
        q = z[0] * z[0]
        for j in range(1, d):
            w = z[j] - 0.8 * z[j - 1]
            q = q + w * w * 2.0
    elif shape == "banana":
        w = z[1] - 0.5 * z[0] * z[0]
        q = z[0] * z[0] + w * w * 2.0
        for j in range(2, d):
            q = q + z[j] * z[j]
    elif shape == "bimodal":
        a = (z[0] - 1.5) * (z[0] - 1.5)
        b = (z[0] + 1.5) * (z[0] + 1.5)
        q = np.minimum(a, b)
        for j in range(1, d):
            q = q + z[j] * z[j]
    else:
        raise ValueError(shape)
    v = t.get("offset", 0.0) - 0.5 * q
    inv = t.get("invalid")
    if inv:
        bad = np.nan if inv["val"] == "nan" else -np.inf
        if inv["kind"] == "region":
            v = np.where(z[0] > inv["at"], bad, v)
        else:
            xs = np.atleast_2d(x)
            m = np.array([zlib.crc32(np.ascontiguousarray(p).tobytes()) % 1000 < inv["permille"] for p in xs], dtype=bool)
            m = m.reshape(np.shape(v))
            v = np.where(m, bad, v)
    return v


def blob_of(kind, x):
    s = float(x[0] + 2.0 * x[1])
    p = float(x[0] - 3.0 * x[1])
    n = int(zlib.crc32(np.ascontiguousarray(x, dtype=float).tobytes()) & 0x7fffffff)
    if kind == "float1":
        return (s,)
    if kind == "float2":
        return (s, p)
    if kind == "struct":
        return (s, n)
    if kind == "str":
        return ("x%.5e" % s + "y" * (n % 7),)
    if kind == "vec":
        return (np.array([s, p, s * p]),)
    if kind == "int":
        return (n,)
    if kind == "struct1":
        return (s,)
    if kind == "obj":
        return ({"s": s, "n": n},)
    if kind == "mix":
        return (s, "t%d" % n)
    if kind == "ustr":
        return ("u%.3e" % s,)
    if kind == "bool":
        return (n % 2 == 0,)
    if kind == "mat":
        return (np.array([[s, p], [s * p, 1.0]]),)
    if kind == "f32":
        return (float(np.float32(s)), float(np.float32(p)))
    raise ValueError(kind)


BLOB_DTYPE = {"float1": None, "float2": float, "struct": [("s", float), ("n", int)], "str": None, "vec": None, "int": int, "struct1": [("s", float)],
              "obj": None, "mix": None, "ustr": "U24", "bool": bool, "mat": float, "f32": "float32"}


class Lik:
    """The user's likelihood."""
    def __init__(self, t, rid):
        self.t, self.rid = t, rid

    def value(self, x):
        return loglike(self.t, x)

    def __call__(self, x, *args, **kw):
        t = self.t
        if t.get("args"):
            if args != (1.5, [2.0]) or kw != {"k": 3.0}:
                raise Violation("likelihood-arguments", "likelihood called with %r %r" % (args, kw))
        elif args or kw:
            raise Violation("likelihood-arguments", "likelihood called with %r %r" % (args, kw))
        r = rec(self.rid)
        if np.ndim(x) == 2:
            if len(x) == 0:
                r.empty += 1
            for row in x:
                r.eval(row)
            return loglike(t, x)
        r.eval(x)
        v = loglike(t, x)
        if t.get("blobs"):
            return (float(v),) + tuple(blob_of(t["blobs"], x))
        sc = t.get("scalar")
        if sc == "arr0":
            return np.array(float(v))
        return v if sc == "np" else float(v)

    def __reduce__(self):
        return Lik, (self.t, self.rid)


# ---------------------------------------------------------------- configurations

def gen_cfg(r, precond=None, blobs=None, invalid=None, hole=None, small=True, modes=("serial",), **force):
    """A random sampler configuration (swarm style: each feature independently on or off)."""
    d = r.choice([2, 2, 2, 2, 2, 3, 3, 5])
    kinds = [r.choice(sorted(PRIORS)) for _ in range(d)]
    t = dict(prior=kinds, lik=r.choice(["gauss", "gauss", "corr", "banana", "bimodal", "flat"]),
             width=r.choice([0.5, 1.0, 1.0, 2.0]), offset=r.choice([0.0, 0.0, -50.0, 30.0, -2000.0, 5e4]),
             args=r.flip(0.3), scalar=r.choice(["np", "py", "py", "arr0"]))
    if hole is None:
        hole = r.flip(0.15)
    t["hole"] = r.choice(["half", "most", "ring"]) if hole is True else (hole or None)
    n_act = r.choice([16, 16, 16, 20, 24, 17, 48])
    c = dict(t=t, seed=r.randrange(0, 2 ** 31), n_act=n_act,
             n_eff=r.choice([2, 2, 2, 3, 4]) * n_act,
             precond=r.flip(0.25) if precond is None else precond,
             flow=r.choice(["tiny", "tiny", "tiny", "maf3", "nsf3"]), epochs=r.choice([1, 2]),
             train_freq=r.choice([None, None, 1, 2, 3]),
             dynamic=r.flip(0.6), metric=r.choice(["ess", "ess", "uss"]),
             sample=r.choice(["tpcn", "rwm"]), resample=r.choice(["mult", "syst"]),
             transform=r.choice(["probit", "logit"]),
             n_steps=r.choice([None, None, 1, 2]), n_max_steps=r.choice([None, None, 3, 8]),
             n_prior=r.choice([None, None, None, 16, 48, 100, 7]),
             mode=r.choice(list(modes)))
    c["n_total"] = int(c["n_eff"] * r.choice([1.0, 1.5, 2.0, 3.0]))
    c["n_evidence"] = r.choice([0, 64, 100]) if c["precond"] else r.choice([0, 64])
    if c["n_eff"] == 2 * n_act and r.flip(0.3):
        c["nform"] = r.choice(["noact", "noeff", "n_ess"])
    elif r.flip(0.15):
        c["n_eff"] += r.choice([-5, 3, 7])
    if r.flip(0.15):
        c["ndim"] = True
    if c["precond"] and r.flip(0.3):
        c["tc"] = r.choice([dict(noise=0.2), dict(gaussian_scale=1.0), dict(laplace_scale=0.5), dict(annealing=True), dict(validation_split=0.0),
                            dict(shuffle=False), dict(batch_size=8), dict(patience=0), dict(clip_grad_norm=0.1, learning_rate=0.01)])
    bnd = [j for j, k in enumerate(kinds) if k in ("unif", "unit", "beta")]
    if bnd and r.flip(0.3):
        j = r.choice(bnd)
        c[r.choice(["periodic", "reflective"])] = [j]
        if len(bnd) > 1 and r.flip(0.3):
            c["periodic"], c["reflective"] = bnd[:1], bnd[1:]
    c.update(force)
    if blobs is None:
        blobs = r.flip(0.4)
    if blobs and c["mode"] != "vec":
        t["blobs"] = r.choice(sorted(BLOB_DTYPE)) if blobs is True else blobs
    if invalid is None:
        invalid = r.flip(0.2)
    if invalid and t["lik"] != "flat" and t["hole"] is None:
        t["invalid"] = gen_invalid(r)
    return c


def gen_invalid(r):
    if r.flip():
        return dict(kind="region", at=r.choice([0.5, 1.0, 2.0]), val=r.choice(["nan", "-inf"]))
    return dict(kind="spor", permille=r.choice([20, 100, 300]), val=r.choice(["nan", "-inf"]))


def shrink_cfg(c):
    """Simpler configurations."""
    base = dict(precond=False, dynamic=False, metric="ess", sample="tpcn", resample="mult", transform="probit", n_steps=None,
                n_max_steps=None, n_prior=None, train_freq=None, n_evidence=0, mode="serial", periodic=None, reflective=None)
    for k, v in base.items():
        if c.get(k, v) != v:
            n = dict(c)
            n[k] = v
            yield n
    if c["n_total"] > c["n_eff"]:
        yield dict(c, n_total=c["n_eff"])
    for k in ("nform", "tc", "ndim"):
        if c.get(k):
            n = dict(c)
            del n[k]
            yield n
    t = c["t"]
    tb = dict(lik="gauss", width=1.0, offset=0.0, args=False, hole=None, blobs=None, invalid=None)
    for k, v in tb.items():
        if t.get(k, v) != v:
            yield dict(c, t=dict(t, **{k: v}))
    if len(t["prior"]) > 2 and not c.get("periodic") and not c.get("reflective"):
        yield dict(c, t=dict(t, prior=t["prior"][:2]))
    if any(k != "norm" for k in t["prior"]) and not c.get("periodic") and not c.get("reflective"):
        yield dict(c, t=dict(t, prior=["norm"] * len(t["prior"])))


def make_pool(mode, procs=4):
    if mode == "pool":
        return simpool.SimPool(procs)
    if mode == "exec":
        return simpool.SimExecutor(procs)
    if mode == "intpool":
        return procs
    return None


def make_flow(c):
    if not c["precond"]:
        return "maf3"
    if c["flow"] == "tiny":
        import zuko
        torch.manual_seed(77)
        return zuko.flows.MAF(len(c["t"]["prior"]), transforms=1, hidden_features=[8])
    if c["flow"] == "spline":                      # its Jacobian varies a lot
        import zuko
        torch.manual_seed(78)
        f = zuko.flows.NSF(len(c["t"]["prior"]), transforms=2, hidden_features=[16], bins=6)
        with torch.no_grad():
            for p in f.parameters():
                p.mul_(c.get("flow_gain", 2.0))
        return f
    return c["flow"]


def kwargs_of(c, rid="a", out=None, label=None, pool=None, seed=None, shared=None):
    """Constructor arguments; `shared` lets several samplers use the very same argument objects."""
    t = c["t"]
    s = shared if shared is not None else {}
    if "prior" not in s:
        s["prior"] = SimPrior(t["prior"], rid, t.get("hole"), t.get("bank", False))
        s["lik"] = Lik(t, rid)
        s["args"] = [1.5, [2.0]] if t.get("args") else None
        s["kw"] = {"k": 3.0} if t.get("args") else None
        s["tc"] = dict(epochs=c.get("epochs", 2), patience=50)
        if c.get("lr"):
            s["tc"]["learning_rate"] = c["lr"]
        s["tc"].update(c.get("tc", {}))
        s["periodic"], s["reflective"] = c.get("periodic"), c.get("reflective")
        bd = BLOB_DTYPE[t["blobs"]] if t.get("blobs") else None
        s["bd"] = np.dtype(bd) if isinstance(bd, list) and t.get("npdtype") else bd
    f = c.get("nform")
    if c["n_eff"] != 2 * c["n_act"] and f in ("noact", "noeff"):
        f = None
    size = dict(n_effective=None if f == "noeff" else c["n_eff"], n_active=None if f == "noact" else c["n_act"])
    if f == "n_ess":
        size = dict(n_ess=c["n_eff"], n_active=c["n_act"])
    if c.get("ndim"):
        size["n_dim"] = len(t["prior"])
    return dict(size, prior=s["prior"], likelihood=s["lik"],
                likelihood_args=s["args"], likelihood_kwargs=s["kw"], vectorize=c["mode"] == "vec",
                blobs_dtype=s["bd"], periodic=s["periodic"], reflective=s["reflective"], transform=c["transform"],
                pool=pool if pool is not None else make_pool(c["mode"]), flow=make_flow(c),
                train_config=s["tc"], train_frequency=c["train_freq"], precondition=c["precond"], dynamic=c["dynamic"],
                metric=c["metric"], n_prior=c["n_prior"], sample=c["sample"], n_steps=c["n_steps"],
                n_max_steps=c["n_max_steps"], resample=c["resample"], output_dir=out, output_label=label,
                random_state=c["seed"] if seed is None else seed)


def make_sampler(c, **k):
    return pc.Sampler(**kwargs_of(c, **k))


def run_args(c, **k):
    a = dict(n_total=c["n_total"], n_evidence=c["n_evidence"], progress=False)
    a.update(k)
    return a


# ---------------------------------------------------------------- observation

def get_rng():
    import random
    return (np.random.get_state(), torch.get_rng_state().numpy().copy(), random.getstate())


def set_rng(s):
    import random
    np.random.set_state(s[0])
    torch.set_rng_state(torch.tensor(s[1]))
    random.setstate(s[2])


class keep_rng:
    def __enter__(self):
        self.s = get_rng()

    def __exit__(self, *a):
        set_rng(self.s)


def plain(v):
    """Value without identity: nested tuples/arrays copied."""
    if v is None or isinstance(v, (bool, str, bytes)):
        return v
    if isinstance(v, (tuple, list)):
        return [plain(e) for e in v]
    a = np.array(v)
    return a


def same(a, b):
    """Bitwise equality of two plain values (numeric kinds compared as numbers; NaN equals NaN)."""
    if a is None or b is None or isinstance(a, (str, bytes)):
        return type(a) == type(b) and a == b
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.names or b.dtype.names:
        return a.dtype.names == b.dtype.names and all(same(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind in "biuf" and b.dtype.kind in "biuf":
        return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))
    if a.dtype.kind in "biuf" and b.dtype.kind == "O" or b.dtype.kind in "biuf" and a.dtype.kind == "O":
        return all(_same_obj(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in "OUS" and b.dtype.kind in "OUS":
        return all(_same_obj(x, y) for x, y in zip(a.ravel(), b.ravel()))
    return False


def _same_obj(x, y):
    if x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return type(x) == type(y) and x == y or (isinstance(x, str) and isinstance(y, str) and x == y)
    if isinstance(x, dict) or isinstance(y, dict):
        return isinstance(x, dict) and isinstance(y, dict) and x == y
    return same(np.asarray(x), np.asarray(y))


POST_MODES = [dict(), dict(return_logw=True), dict(trim_importance_weights=False), dict(trim_importance_weights=False, return_logw=True),
              dict(resample=True), dict(ess_trim=0.9, bins_trim=50), dict(resample=True, trim_importance_weights=False)]


def observe(s, full=True, blobs=False, what="querying the sampler"):
    """Everything a user can ask a sampler (queries draw from a private copy of the random stream)."""
    from .proc import sut
    o = {}
    res = sut(what + " (results)", lambda: s.results)
    for k in sorted(res):
        o["results." + k] = plain(res[k])
    o["evidence"] = plain(list(sut(what + " (evidence)", s.evidence)))
    modes = POST_MODES if full else POST_MODES[:1]
    for i, m in enumerate(modes):
        with keep_rng():
            set_fixed_rng(12345 + i)
            o["posterior%d" % i] = plain(list(sut(what + " (posterior)", s.posterior, return_blobs=blobs, **m)))
    return o


def set_fixed_rng(seed):
    import random
    np.random.seed(seed)
    torch.manual_seed(seed)
    random.seed(seed)


def diff(a, b, names=("expected", "got")):
    """First difference between two observations, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s only in %s" % (k, names[0] if k in a else names[1])
        if not same(a[k], b[k]):
            return "%s: %s %s, %s %s" % (k, names[0], brief(a[k]), names[1], brief(b[k]))
    return None


def brief(v):
    if isinstance(v, np.ndarray):
        return "array%s %s" % (v.shape, np.array2string(v.ravel()[:4], precision=17, threshold=6).replace("\n", " "))
    if isinstance(v, list):
        return "[" + ", ".join(brief(e) for e in v[:2]) + ", ...]"
    return repr(v)[:100]
