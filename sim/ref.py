"""Executable reference model of persistent sampling: everything follows from the recorded likelihoods, temperatures
and evidences. Written from the method's definition (balance-heuristic mixture over all recorded iterations)."""
import numpy as np
from scipy.special import logsumexp


def mixture(logl, beta, logz, b):
    """Unnormalised log weights (flat, in recorded order) towards temperature b, and the evidence estimate at b."""
    logl = np.asarray(logl, float)
    terms = np.stack([logl * bi - zi for bi, zi in zip(beta, logz)])
    logw = (logl * b - (logsumexp(terms, axis=0) - np.log(len(beta)))).ravel()
    return logw, logsumexp(logw) - np.log(len(logw))


def ess(logw):
    w = np.exp(logw - logsumexp(logw))
    return 1.0 / np.sum(w * w)


def uss(logw, k=None):
    w = np.exp(logw - logsumexp(logw))
    k = len(w) if k is None else k
    return float(np.sum(-np.expm1(k * np.log1p(-np.minimum(w, 1.0 - 1e-16)))))


def size(metric, logw):
    return ess(logw) if metric == "ess" else uss(logw)


def final_size(res, metric, upto=None):
    """Metric of the history (first `upto` iterations) at temperature one."""
    s = slice(None, upto)
    return size(metric, mixture(res["logl"][s], res["beta"][s], res["logz"][s], 1.0)[0])


def close(a, b, rtol=1e-7, atol=1e-7):
    return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))
