"""Reference likelihood machinery (numpy): log-likelihood derivatives, block-Newton reference iteration, P.910 iteration."""
import math
import numpy as np
from scipy.stats import chi2


def arr(T):
    return np.array(T, dtype=float)


def derivs(X, q, b, v, a, content):
    """gradients and second derivatives of sum log N(x; q+b, v^2+a^2) w.r.t. each block"""
    E, S, R = X.shape
    M = ~np.isnan(X)
    q, b, v, a = map(np.asarray, (q, b, v, a))
    ae = a[list(content)]
    r = np.where(M, X - q[:, None, None] - b[None, :, None], 0.0)
    d = (v[None, :, None] ** 2 + ae[:, None, None] ** 2) * np.ones_like(X)
    w = np.where(M, 1 / d, 0.0)
    out = {}
    out['q'] = ((r * w).sum((1, 2)), -w.sum((1, 2)))
    out['b'] = ((r * w).sum((0, 2)), -w.sum((0, 2)))

    def scale(p):      # p broadcast: derivative w.r.t. a std component p
        g = np.where(M, -p / d + p * r ** 2 / d ** 2, 0.0)
        h = np.where(M, -1 / d + 2 * p ** 2 / d ** 2 + r ** 2 / d ** 2 - 4 * p ** 2 * r ** 2 / d ** 3, 0.0)
        return g, h
    g, h = scale(v[None, :, None])
    out['v'] = (g.sum((0, 2)), h.sum((0, 2)))
    g, h = scale(ae[:, None, None])
    C = len(a)
    ge, he = g.sum((1, 2)), h.sum((1, 2))
    out['a'] = (np.array([sum(ge[e] for e in range(E) if content[e] == c) for c in range(C)]),
                np.array([sum(he[e] for e in range(E) if content[e] == c) for c in range(C)]))
    return out


def mle_reference(X, content, C, mode, thr=1e-8, cap=6000, init=None):
    """The published damped block iteration. Returns (q, b, v, a, iterations) or None when it does not converge."""
    E, S, R = X.shape
    M = ~np.isnan(X)
    q = np.nanmean(X.reshape(E, -1), 1) if init is None else np.array(init, float)
    res = X - q[:, None, None]
    b = np.zeros(S)
    v = np.zeros(S) if mode == 'SO' else np.array([np.nanstd(res[:, s]) for s in range(S)])
    cl = np.array(content)
    a = np.zeros(C) if mode == 'CO' else np.array([np.nanstd(res[cl == c]) if (cl == c).any() else 0.0 for c in range(C)])
    for it in range(cap):
        q0 = q
        b = b - 0.1 * _div(derivs(X, q, b, v, a, content)['b'])
        if mode == 'SO':
            b = np.zeros(S)
        if mode != 'SO':
            v = np.maximum(0, v - 0.1 * _div(derivs(X, q, b, v, a, content)['v']))
        if mode != 'CO':
            da = derivs(X, q, b, v, a, content)['a']
            step = np.array([g / h if h else 0.0 for g, h in zip(*da)])
            a = np.maximum(0, a - 0.1 * step)
        q = q - 0.1 * _div(derivs(X, q, b, v, a, content)['q'])
        if not np.all(np.isfinite(q)) or not np.all(np.isfinite(v)) or not np.all(np.isfinite(a)):
            return None
        if np.linalg.norm(q - q0) < thr:
            return q, b, v, a, it + 1
    return None


def _div(gh):
    g, h = gh
    return g / h


def loglik(X, q, b, v, a, content):
    M = ~np.isnan(X)
    sd2 = np.asarray(v)[None, :, None] ** 2 + np.asarray(a)[list(content)][:, None, None] ** 2
    mu = np.asarray(q)[:, None, None] + np.asarray(b)[None, :, None]
    L = -0.5 * np.log(2 * math.pi) - 0.5 * np.log(sd2) - (X - mu) ** 2 / (2 * sd2)
    return float(np.sum(L[M]))


def counts(X):
    M = ~np.isnan(X)
    return M.sum((1, 2)), M.sum((0, 2))      # per video, per observer


def chi_ci(v, n):
    v, n = np.asarray(v, float), np.asarray(n, float)
    return [list((1 - np.sqrt(n / chi2.ppf(0.975, df=n))) * v), list((np.sqrt(n / chi2.ppf(0.025, df=n)) - 1) * v)]


def p910(X, cap=1000, thr=1e-8):
    """Alternating projection of P.910 Annex E: (q, b, v_i, v_j, iterations)"""
    E, S, R = X.shape
    q = np.array([np.nanmean(X[e]) for e in range(E)])
    b = np.array([np.nanmean(X[:, s] - q[:, None]) for s in range(S)])
    for it in range(1, cap + 1):
        q0 = q
        r = X - q[:, None, None] - b[None, :, None]
        vi = np.array([np.nanstd(r[:, s]) for s in range(S)])
        vj = np.array([np.nanstd(r[e]) for e in range(E)])
        w = (1 / (vi ** 2 + 1e-8))[:, None] * np.ones((S, R))
        q = np.array([np.nansum((X[e] - b[:, None]) * w) / np.sum(w[~np.isnan(X[e])]) for e in range(E)])
        b = np.array([np.nanmean(X[:, s] - q[:, None]) for s in range(S)])
        if np.linalg.norm(q - q0) < thr:
            break
    return q, b, vi, vj, it
