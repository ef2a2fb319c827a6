"""Exact posterior and evidence of a target by quadrature in prior-quantile space (dimensions beyond the second must factorise)."""
import numpy as np
from .world import PRIORS, CENTRE, loglike, _inside, hole_mass

N = 1200


class Exact:
    """v(x): posterior marginal CDF values, uniform under the exact posterior; f(x): test functions; mean: their exact expectations."""
    def __init__(self, t):
        self.t = t
        kinds, d = t["prior"], len(t["prior"])
        q = (np.arange(N) + 0.5) / N
        self.xs = [PRIORS[k]().ppf(q) for k in kinds]
        X0, X1 = np.meshgrid(self.xs[0], self.xs[1], indexing="ij")
        pts = np.stack([X0.ravel(), X1.ravel()], axis=1)
        t2 = dict(t, prior=kinds[:2], offset=0.0)
        w = np.exp(np.nan_to_num(loglike(t2, pts), nan=-np.inf))
        if t.get("hole"):
            w = w * _inside(t["hole"], kinds, pts) * np.exp(-hole_mass(t["hole"], kinds[0]))
        w = w.reshape(N, N)
        self.logz = np.log(w.mean()) + t.get("offset", 0.0)
        w = w / w.sum()
        marg = [w.sum(1), w.sum(0)]
        for j in range(2, d):
            if t["lik"] not in ("flat", "gauss", "banana"):
                raise ValueError("does not factorise")
            c, s = CENTRE[kinds[j]]
            z = (self.xs[j] - c) / (s * t.get("width", 1.0))
            m = np.exp(-0.5 * z * z) if t["lik"] != "flat" else np.ones(N)
            self.logz += np.log(m.mean())
            marg.append(m / m.sum())
        # CDF at cell edges of prior-quantile space
        self.cdf = [np.concatenate([[0.0], np.cumsum(m)]) for m in marg]
        mid = [0.5 * (c[1:] + c[:-1]) for c in self.cdf]
        cross = float(np.einsum("ij,i,j->", w, mid[0] - 0.5, mid[1] - 0.5))
        self.names, self.mean = [], []
        for j in range(d):
            self.names += ["v%d" % j, "spread%d" % j, "low%d" % j, "high%d" % j]
            self.mean += [0.5, 1.0 / 12, 0.1, 0.1]
        self.names.append("cross01")
        self.mean.append(cross)
        self.mean = np.array(self.mean)

    def v(self, x):
        e = np.linspace(0.0, 1.0, N + 1)
        return np.stack([np.interp(PRIORS[k]().cdf(x[:, j]), e, self.cdf[j]) for j, k in enumerate(self.t["prior"])], axis=1)

    def f(self, x, w=None):
        """Estimated expectations of the test functions from (weighted) samples."""
        v = self.v(np.asarray(x, float))
        w = np.full(len(v), 1.0 / len(v)) if w is None else np.asarray(w) / np.sum(w)
        out = []
        for j in range(v.shape[1]):
            a = v[:, j]
            out += [w @ a, w @ (a - 0.5) ** 2, w @ (a < 0.1), w @ (a > 0.9)]
        out.append(w @ ((v[:, 0] - 0.5) * (v[:, 1] - 0.5)))
        return np.array(out) - self.mean
