"""Oracles over what a sampler shows: each judges recorded data against the definition of the quantity, never against
how the code computes it."""
import numpy as np
from scipy.special import erfinv, logsumexp
from .core import Violation
from .world import loglike, blob_of, SimPrior, same, brief, plain, PRIORS, keep_rng, set_fixed_rng, POST_MODES
from .proc import sut
from . import ref

PER_ITER = ["x", "u", "logdetj", "logl", "logp", "iter", "logz", "calls", "steps", "efficiency", "ess", "accept", "beta"]


def V(cls, msg, *a):
    raise Violation(cls, msg % a if a else msg)


def history(s, what="reading results"):
    """results as plain copies; {} before the first iteration."""
    try:
        r = s.results
    except Exception:
        n = _length(s)
        if n == 0:
            return {}
        return sut(what, lambda: s.results)
    return {k: plain(r[k]) for k in r}


def _length(s):
    """Is there anything to show? (posterior() works as soon as one iteration is recorded)"""
    try:
        with keep_rng():
            return len(s.posterior(trim_importance_weights=False)[0])
    except Exception:
        return 0


def shape_of_history(res, c):
    """Complete: one entry per iteration for every quantity, full-size particle sets, increasing indices."""
    if not res:
        return 0
    d = len(c["t"]["prior"])
    for k in PER_ITER + ["logw", "blobs"]:
        if k not in res:
            V("history-incomplete", "results have no %r", k)
    T = len(res["beta"])
    for k in PER_ITER:
        if len(res[k]) != T:
            V("history-incomplete", "results[%r] has %d entries, results['beta'] has %d", k, len(res[k]), T)
    n = c["n_act"]
    for k in ("x", "u"):
        if res[k].shape != (T, n, d):
            V("history-incomplete", "results[%r] has shape %s, expected %s", k, res[k].shape, (T, n, d))
    for k in ("logl", "logp", "logdetj"):
        if res[k].shape != (T, n):
            V("history-incomplete", "results[%r] has shape %s, expected %s", k, res[k].shape, (T, n))
    if np.size(res["logw"]) != T * n:
        V("history-incomplete", "results['logw'] has %d weights for %d samples", np.size(res["logw"]), T * n)
    if c["t"].get("blobs"):
        if np.shape(res["blobs"])[:2] != (T, n):
            V("history-incomplete", "results['blobs'] has shape %s for %d iterations of %d", np.shape(res["blobs"]), T, n)
    for k in ("iter", "beta", "logz", "calls", "steps", "ess"):
        if np.shape(res[k]) != (T,):
            V("history-incomplete", "results[%r] has shape %s", k, np.shape(res[k]))
    it = np.asarray(res["iter"], float)
    if T and it[0] != 0:
        V("iteration-index", "iteration indices start at %r", it[0])
    if np.any(np.diff(it) <= 0):
        V("iteration-index", "iteration indices are not strictly increasing: %s", it[:20])
    return T


def append_only(old, new, what=""):
    """Every entry recorded earlier is still there, unchanged."""
    for k in PER_ITER + ["blobs"]:
        if k not in old:
            continue
        if k not in new:
            V("history-changed", "results[%r] disappeared %s", k, what)
        n = len(old[k])
        if len(new[k]) < n:
            V("history-changed", "results[%r] shrank from %d to %d entries %s", k, n, len(new[k]), what)
        if not same(old[k], new[k][:n]):
            bad = next(j for j in range(n) if not same(old[k][j], new[k][j]))
            V("history-changed", "entry %d of results[%r] changed %s: %s -> %s", bad, k, what, brief(old[k][bad]), brief(new[k][bad]))


# ---------------------------------------------------------------- attribution

def attribution(c, x, logl, logp, blobs, where, called=None):
    """Flat arrays: every sample has its own likelihood, prior and blob."""
    t = c["t"]
    if not (len(x) == len(logl) == len(logp)):
        V("attribution-shape", "%s: %d samples, %d likelihoods, %d priors", where, len(x), len(logl), len(logp))
    if len(x) == 0:
        return
    v = np.asarray(loglike(t, x), float)
    v = np.where(np.isnan(v), -np.inf, v)
    bad = np.flatnonzero(~((np.asarray(logl) == v)))
    if len(bad):
        i = bad[0]
        V("wrong-likelihood", "%s: sample %d (%s) is shown with log-likelihood %.17g, its likelihood is %.17g (%d of %d samples wrong)",
          where, i, x[i], logl[i], v[i], len(bad), len(x))
    p = SimPrior(t["prior"], "oracle", t.get("hole"))
    lp = p.pure(np.asarray(x, float))
    bad = np.flatnonzero(~np.isfinite(lp))
    if len(bad):
        V("outside-support", "%s: sample %d (%s) lies outside the prior support (shown log-prior %.17g)", where, bad[0], x[bad[0]], logp[bad[0]])
    bad = np.flatnonzero(~np.isclose(lp, logp, rtol=1e-9, atol=1e-9))
    if len(bad):
        i = bad[0]
        V("wrong-prior", "%s: sample %d (%s) is shown with log-prior %.17g, its log-prior is %.17g", where, i, x[i], logp[i], lp[i])
    if blobs is not None:
        if len(blobs) != len(x):
            V("attribution-shape", "%s: %d samples but %d blobs", where, len(x), len(blobs))
        for i in range(len(x)):
            want = blob_of(t["blobs"], x[i])
            if not blob_same(t["blobs"], want, blobs[i]):
                V("wrong-blob", "%s: sample %d (%s) is shown with blob %r, its blob is %r", where, i, x[i], blobs[i], want)
    if called is not None:
        for i in range(len(x)):
            if np.ascontiguousarray(x[i], dtype=float).tobytes() not in called:
                V("never-evaluated", "%s: sample %d (%s) was never passed to the likelihood", where, i, x[i])


def blob_same(kind, want, got):
    if kind == "obj":
        got = got.item() if isinstance(got, np.ndarray) and np.size(got) == 1 else got
        return isinstance(got, dict) and got == want[0]
    if kind == "mix":
        return len(got) == 2 and isinstance(got[1], str) and float(got[0]) == want[0] and got[1] == want[1]
    if kind in ("float1", "int", "str", "struct1", "ustr", "bool"):
        got = got.item() if hasattr(got, "item") and np.size(got) == 1 else got
        if isinstance(got, tuple) and len(got) == 1:
            got = got[0]
        if kind in ("str", "ustr"):
            return isinstance(got, str) and got == want[0]
        try:
            return float(got) == float(want[0])
        except (TypeError, ValueError):
            return False
    if kind == "struct":
        try:
            g = got.item() if hasattr(got, "item") else got
            return float(g[0]) == want[0] and int(g[1]) == want[1]
        except (TypeError, ValueError, IndexError):
            return False
    w = np.asarray(want[0] if kind in ("vec", "mat") else want, float)
    try:
        g = np.asarray(got, float)
    except (TypeError, ValueError):
        return False
    return g.shape == w.shape and bool(np.array_equal(g, w))


def raw(kind, transform, x):
    """Unscaled latent coordinate of one parameter, log |dx/dz|, and where rounding leaves it meaningful."""
    lo, hi = PRIORS[kind]().support()
    if np.isfinite(lo) and np.isfinite(hi):
        p = (x - lo) / (hi - lo)
        ok = (p > 1e-5) & (p < 1 - 1e-5)
        p = np.where(ok, p, 0.5)
        if transform == "logit":
            return np.log(p / (1 - p)), np.log(hi - lo) + np.log(p) + np.log1p(-p), ok
        z = np.sqrt(2.0) * erfinv(2 * p - 1)
        return z, np.log(hi - lo) - 0.5 * z * z - 0.5 * np.log(2 * np.pi), ok
    if np.isfinite(lo):
        y = x - lo
        ok = y > 1e-6
        y = np.where(ok, y, 1.0)
        return np.log(y), np.log(y), ok
    if np.isfinite(hi):
        y = hi - x
        ok = y > 1e-6
        y = np.where(ok, y, 1.0)
        return np.log(y), np.log(y), ok
    return x, np.zeros_like(x), np.ones(len(x), bool)


def latent(c, res, where):
    """u is one affine function (per parameter, the same throughout the run) of the unscaled latent coordinate, and
    logdetj is the log-determinant of the map from u to x."""
    x = res["x"].reshape(-1, res["x"].shape[-1])
    u = res["u"].reshape(-1, x.shape[1])
    ld = res["logdetj"].ravel()
    tot, okall = np.zeros(len(x)), np.ones(len(x), bool)
    for j, k in enumerate(c["t"]["prior"]):
        z, lj, ok = raw(k, c["transform"], x[:, j])
        okall &= ok
        zi = np.where(ok, z, np.nan)
        a, b = np.nanargmin(zi), np.nanargmax(zi)
        if not zi[b] - zi[a] > 1e-3:
            return
        sig = (z[b] - z[a]) / (u[b, j] - u[a, j]) if u[b, j] != u[a, j] else np.nan
        if not np.isfinite(sig) or sig == 0:
            V("wrong-latent", "%s: latent coordinate %d does not vary with the parameter", where, j)
        mu = z[a] - sig * u[a, j]
        bad = np.flatnonzero(ok & (np.abs(mu + sig * u[:, j] - z) > 1e-6 * (1 + np.abs(z))))
        if len(bad):
            V("wrong-latent", "%s: sample %d: latent coordinate %d is %.12g, %.12g maps to its parameter value %.12g", where, bad[0], j,
              u[bad[0], j], (z[bad[0]] - mu) / sig, x[bad[0], j])
        tot += lj + np.log(abs(sig))
    bad = np.flatnonzero(okall & (np.abs(tot - ld) > 1e-5 * (1 + np.abs(tot))))
    if len(bad):
        V("wrong-jacobian", "%s: sample %d has log-determinant %.12g, that of its map is %.12g", where, bad[0], ld[bad[0]], tot[bad[0]])


# ---------------------------------------------------------------- temperature ladder

def ladder(res, c):
    b = np.asarray(res["beta"], float)
    if len(b) == 0:
        return
    if b[0] != 0.0:
        V("beta-start", "the first inverse temperature is %.17g", b[0])
    if not np.all(np.isfinite(b)):
        V("beta-range", "non-finite inverse temperature: %s", b)
    if np.any(np.diff(b) < 0):
        V("beta-decreases", "the inverse temperature decreases: %s", b)
    if np.any(b > 1.0) or np.any(b < 0):
        V("beta-range", "inverse temperature outside [0, 1]: %s", b)


def stopped_right(res, c, n_total, start):
    """A run that returned: reached one with the metric, and not earlier (start: entries before this call)."""
    b = np.asarray(res["beta"], float)
    T = len(b)
    one = 1.0 - b < 1e-4
    if T == 0 or not one[-1]:
        V("not-at-one", "run() returned with inverse temperature %s", b[-1] if T else None)
    m = ref.final_size(res, c["metric"])
    if m < n_total * (1 - 1e-9):
        V("too-few", "run() returned with %s %.6f, %d were requested", c["metric"], m, n_total)
    for k in range(max(start, 1), T):
        if one[k - 1]:
            mk = ref.final_size(res, c["metric"], k)
            if mk >= n_total * (1 + 1e-9):
                V("ran-on", "after iteration %d temperature one was reached with %s %.6f >= %d, yet %d more iteration(s) were added (this call started with %d)",
                  k - 1, c["metric"], mk, n_total, T - k, start)


# ---------------------------------------------------------------- weights and evidence

def reference(res, c, known=True, n_warm=None):
    """Recorded temperature, size and evidence of every iteration follow from the iterations before it.
    known: the number of effective particles can be tracked from the start (no failure in between).
    Returns what was reached (for the coverage probes)."""
    b, z, e, L = (np.asarray(res[k], float) for k in ("beta", "logz", "ess", "logl"))
    T = len(b)
    hit = dict(hold=0, jump=0, bisect=0, grow=0, shrink=0)
    n_act = c["n_act"]
    w0 = max(1, (c["n_prior"] or 2 * max(c["n_eff"] // n_act, 1) * n_act) // n_act)
    n_eff = float(c["n_eff"])
    ratio = float(np.sum(1 - (1 - np.ones(c["n_eff"]) / c["n_eff"]) ** n_act)) / n_act
    for t in range(T):
        if t < w0:
            # evidence at temperature zero: the log of the fraction of the batch with non-zero likelihood
            k = np.exp(z[t]) * n_act
            if b[t] != 0.0 or (z[t] != 0.0 and not (c["t"].get("invalid") and z[t] < 0 and abs(k - round(k)) < 1e-6)):
                V("initial-phase", "iteration %d of the initial phase is recorded with temperature %.6g and evidence %.6g", t, b[t], z[t])
            continue
        hist = (L[:t], b[:t], z[:t])
        logw, zt = ref.mixture(*hist, b[t])
        m = ref.size(c["metric"], logw)
        if not close_rel(m, e[t], 1e-6):
            V("wrong-size", "iteration %d records %s %.9g at temperature %.9g; the history before it gives %.9g", t, c["metric"], e[t], b[t], m)
        bp = b[t - 1]
        mp = ref.size(c["metric"], ref.mixture(*hist, bp)[0])
        m1 = ref.size(c["metric"], ref.mixture(*hist, 1.0)[0])
        edge = lambda q: abs(q - n_eff) <= 1e-6 * n_eff
        zok_mix, zok_prev = close_abs(zt, z[t]), close_abs(z[t - 1], z[t])
        if known and n_eff is not None and not (edge(mp) or edge(m1)):
            if mp <= n_eff:
                hit["hold"] += 1
                if b[t] != bp:
                    V("wrong-temperature", "iteration %d: the size %.6f at temperature %.9g does not exceed the target %d, yet the temperature moved to %.9g", t, mp, bp, n_eff, b[t])
                if not zok_prev:
                    V("wrong-evidence", "iteration %d keeps the temperature but records evidence %.12g after %.12g", t, z[t], z[t - 1])
            else:
                if m1 >= n_eff:
                    hit["jump"] += 1
                    if b[t] != 1.0:
                        V("wrong-temperature", "iteration %d: the size at temperature one is %.6f >= %d, yet the temperature is %.9g", t, m1, n_eff, b[t])
                else:
                    hit["bisect"] += 1
                    if not (abs(m - n_eff) <= 0.01 * n_eff * (1 + 1e-6)):
                        V("wrong-temperature", "iteration %d: temperature %.9g has size %.6f, not within 1%% of the target %d", t, b[t], m, n_eff)
                if not zok_mix:
                    V("wrong-evidence", "iteration %d records evidence %.12g, the mixture estimate from the history is %.12g", t, z[t], zt)
        elif not (zok_mix or (b[t] == bp and zok_prev)):
            V("wrong-evidence", "iteration %d records evidence %.12g, the mixture estimate from the history is %.12g", t, z[t], zt)
        if known and n_eff is not None and c["dynamic"]:
            k = ref.uss(logw, n_act)
            lo, hi = n_act * 0.95 * ratio, n_act * min(1.05 * ratio, 1.0)
            if abs(k - lo) < 1e-7 * n_act or abs(k - hi) < 1e-7 * n_act:
                n_eff = None
            elif k < lo:
                n_eff = _floor(n_act / k * n_eff)
                hit["grow"] += 1
            elif k > hi:
                n_eff = _floor(k / n_act * n_eff)
                hit["shrink"] += 1
    return hit


def _floor(v):
    """Integer part, or None where rounding could decide it."""
    f = float(np.floor(v))
    return None if min(v - f, f + 1 - v) < 1e-6 * max(1.0, v) else f


def close_rel(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)


def close_abs(a, b, tol=1e-7):
    return (a == b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def weights_of(res):
    lw, z = ref.mixture(np.asarray(res["logl"], float), np.asarray(res["beta"], float), np.asarray(res["logz"], float), 1.0)
    return lw - logsumexp(lw), z


def weights(res, c):
    lw, z = weights_of(res)
    got = np.asarray(res["logw"], float).ravel()
    bad = np.flatnonzero(~np.isclose(got, lw, rtol=1e-7, atol=1e-7))
    if len(bad):
        V("wrong-weights", "results['logw'][%d] is %.12g, the mixture weight from the history is %.12g", bad[0], got[bad[0]], lw[bad[0]])


def evidence_is_mixture(s, res):
    lw, z = weights_of(res)
    ev = s.evidence()
    if not close_abs(float(ev[0]), z):
        V("wrong-evidence", "evidence() is %.12g, the mixture estimate from the history is %.12g", ev[0], z)


def flat(res):
    d = res["x"].shape[-1]
    out = dict(x=res["x"].reshape(-1, d), logl=res["logl"].ravel(), logp=res["logp"].ravel())
    b = res.get("blobs")
    out["blobs"] = None if b is None or np.ndim(b) < 2 else np.reshape(b, (-1,) + np.shape(b)[2:])
    return out


def query(s, mode, blobs, seed=777):
    with keep_rng():
        set_fixed_rng(seed)
        return [np.asarray(v) for v in sut("posterior(%s)" % mode, s.posterior, return_blobs=blobs, **mode)]


def posterior_weights(s, res, c, blobs, ess_trim=0.99, bins=1000, mode_extra=None):
    """Weights, trimming and resampling of posterior() against the weights that follow from the history."""
    lw, _ = weights_of(res)
    w = np.exp(lw)
    f = flat(res)
    o = query(s, dict(trim_importance_weights=False), blobs)
    check_w(o[1], "posterior(trim off)")
    if not same(o[0], f["x"]) or not np.allclose(o[1], w, rtol=1e-6, atol=1e-12):
        V("wrong-weights", "untrimmed posterior is not the history with the weights that follow from it")
    if not same(o[2], f["logl"]) or not same(o[3], f["logp"]):
        V("wrong-weights", "untrimmed posterior shows other likelihoods or priors than the history")
    o = query(s, dict(trim_importance_weights=False, return_logw=True), blobs)
    if not np.allclose(o[1], lw, rtol=1e-7, atol=1e-7):
        V("wrong-weights", "untrimmed log weights differ from those that follow from the history")
    for kw in (dict(), dict(ess_trim=ess_trim, bins_trim=bins)):
        share = kw.get("ess_trim", 0.99)
        o = query(s, kw, blobs)
        check_w(o[1], "posterior(%s)" % kw)
        idx = kept(o[0], o[1], w, f["x"], "posterior(%s)" % kw)
        es, et = 1 / np.sum(w ** 2), 1 / np.sum(o[1] ** 2)
        if et < share * es * (1 - 1e-9):
            V("trim-share", "posterior(%s) keeps %d samples with effective size %.6f, less than %.3g of %.6f", kw, len(o[0]), et, share, es)
        ol = query(s, dict(kw, return_logw=True), blobs)
        dlt = np.asarray(ol[1], float) - lw[idx] if len(ol[1]) == len(idx) else None
        if dlt is None or not same(ol[0], o[0]) or np.ptp(dlt) > 1e-6:
            V("wrong-weights", "posterior(%s, return_logw) does not give the log weights of the samples kept", kw)
    return w


def check_w(w, where):
    w = np.asarray(w, float)
    if not np.all(np.isfinite(w)) or np.any(w < 0) or abs(w.sum() - 1) > 1e-9:
        V("weights-not-normalised", "%s: weights sum to %.12g (min %.3g)", where, w.sum(), w.min() if len(w) else np.nan)


def kept(x, wk, w, allx, where):
    """Indices of the kept samples: they must be exactly the heaviest ones, in history order, with weights in proportion."""
    k = len(x)
    if k == 0 or k > len(w):
        V("trim", "%s returns %d samples out of %d", where, k, len(w))
    thr = np.sort(w)[::-1][k - 1]
    sure = w > thr * (1 + 1e-9)
    maybe = (w >= thr * (1 - 1e-9)) & ~sure
    idx, j = [], 0
    for i in np.flatnonzero(sure | maybe):
        if j < k and np.array_equal(allx[i], x[j]):
            idx.append(i)
            j += 1
        elif sure[i]:
            V("trim", "%s drops sample %d (weight %.6g) although lighter samples are kept", where, i, w[i])
    if j < k:
        V("trim", "%s keeps sample %s, which is not among the heaviest %d (threshold weight %.6g)", where, x[j], k, thr)
    idx = np.array(idx)
    if not np.allclose(wk, w[idx] / w[idx].sum(), rtol=1e-6, atol=1e-12):
        V("wrong-weights", "%s: weights of the kept samples are not in proportion to those that follow from the history", where)
    return idx


def resampled(s, res, c, blobs, seeds=(1, 2)):
    """posterior(resample=True): samples drawn in proportion to the weights."""
    lw, _ = weights_of(res)
    f = flat(res)
    for trim in (True, False):
        base = query(s, dict(trim_importance_weights=trim), blobs)
        x, w = base[0], base[1]
        keys = [p.tobytes() for p in np.ascontiguousarray(x)]
        group = {}
        for i, kx in enumerate(keys):
            group.setdefault(kx, []).append(i)
        for sd in seeds:
            o = query(s, dict(resample=True, trim_importance_weights=trim), blobs, seed=sd)
            cnt = {}
            for p in np.ascontiguousarray(o[0]):
                kx = p.tobytes()
                if kx not in group:
                    V("resample", "resampled posterior contains %s, which is not among the weighted samples", p)
                cnt[kx] = cnt.get(kx, 0) + 1
            n = len(o[0])
            if n != len(x):
                V("resample", "resampled posterior has %d samples instead of %d", n, len(x))
            if c["resample"] == "syst":
                for kx, ii in group.items():
                    exp = n * w[ii].sum()
                    if abs(cnt.get(kx, 0) - exp) > len(ii) + 1e-6:
                        V("resample", "systematic resampling drew a sample %d times, expected %.3f", cnt.get(kx, 0), exp)
            # heaviest half of the mass, binomial bound
            order = sorted(group, key=lambda g: -w[group[g]].sum())
            acc, top = 0.0, 0
            for g in order:
                if acc >= 0.5:
                    break
                acc += w[group[g]].sum()
                top += cnt.get(g, 0)
            sd_ = np.sqrt(max(n * acc * (1 - acc), 1.0))
            if abs(top - n * acc) > 6.5 * sd_ + 1:
                V("resample", "resampling drew %d of %d samples from a set of weight %.4f", top, n, acc)
