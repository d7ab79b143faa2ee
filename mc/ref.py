"""Boring reference models: plain Python on nested lists (NaN = no vote). No numpy, no sureal."""
import math
from fractions import Fraction as F

NAN = float('nan')


def nn(xs):
    return [x for x in xs if not math.isnan(x)]


def mean(xs):
    xs = list(xs)
    return math.fsum(xs) / len(xs) if xs else NAN


def pstd(xs, ddof=0):
    xs = list(xs)
    n = len(xs)
    if n - ddof <= 0:
        return NAN
    m = mean(xs)
    return math.sqrt(math.fsum((x - m) ** 2 for x in xs) / (n - ddof))


def dims(T):
    return len(T), len(T[0]), len(T[0][0])


def of_video(T, e):
    return nn([x for c in T[e] for x in c])


def of_observer(T, s):
    return nn([x for row in T for x in row[s]])


def tmap(T, f):
    return [[[f(x, e, s) for x in c] for s, c in enumerate(row)] for e, row in enumerate(T)]


def keep_observers(T, keep):
    return [[row[s] for s in keep] for row in T]


def mos_stats(T):
    q, std, sd = [], [], []
    for e in range(len(T)):
        v = of_video(T, e)
        q.append(mean(v))
        a = pstd(v, 1)
        std.append(a)
        sd.append(a / math.sqrt(len(v)) if v else NAN)
    return {'quality_scores': q, 'quality_ambiguity': std, 'quality_scores_std': sd,
            'quality_scores_ci95': [[1.95996 * x for x in sd]] * 2}


def dscore(T, content, refs, ref_score):
    """votes offset by ref_score - mean vote of the reference of the same content"""
    E = len(T)
    off = []
    for e in range(E):
        r = [k for k in range(E) if k in refs and content[k] == content[e]]
        assert len(r) == 1
        off.append(ref_score - mean(of_video(T, r[0])))
    return tmap(T, lambda x, e, s: x + off[e])


def zscore(T):
    S = len(T[0])
    m = [mean(of_observer(T, s)) for s in range(S)]
    d = [pstd(of_observer(T, s), 1) for s in range(S)]
    return tmap(T, lambda x, e, s: (x - m[s]) / d[s] if d[s] else NAN)


def bias(T):
    E, S, R = dims(T)
    m = [mean(of_video(T, e)) for e in range(E)]
    b = []
    for s in range(S):
        b.append(mean([x - m[e] for e in range(E) for x in T[e][s] if not math.isnan(x)]))
    return b


def remove_bias(T, b=None):
    b = bias(T) if b is None else b
    return tmap(T, lambda x, e, s: x - b[s])


class Boundary(Exception):
    """The decision is within rounding of a threshold (both answers acceptable)."""


def _dyadic(q):
    """exactly representable with few bits (so that any sane floating-point evaluation is exact)"""
    return q.denominator in (1, 2, 4, 8, 16, 32, 64) and abs(q.numerator) < 1 << 20


def _sqrt(q):
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    return F(n, d) if n * n == q.numerator and d * d == q.denominator else None


def bt500(T, exact, eps=1e-9):
    """(rejected, stat1, stat2). exact=True: votes are exactly representable; decide in rationals, and decide equality
    too where floating-point arithmetic is exact. Raises Boundary when within rounding of a threshold otherwise."""
    E, S, R = dims(T)
    ps, qs = [0] * S, [0] * S
    for e in range(E):
        v = of_video(T, e)
        if not v:
            raise Boundary('video without votes')
        n = len(v)
        if exact:
            x = [F(a) for a in v]
            mu = sum(x) / n
            m2 = sum((a - mu) ** 2 for a in x) / n
            m4 = sum((a - mu) ** 4 for a in x) / n
        else:
            mu = mean(v)
            m2 = math.fsum((a - mu) ** 2 for a in v) / n
            m4 = math.fsum((a - mu) ** 4 for a in v) / n
            if m2 < 1e-12 * max(1.0, mu * mu):
                raise Boundary('unanimous video in floating point')
        if m2 == 0:
            for s in range(S):   # sigma = 0: every vote is at the threshold on both sides
                k = len(nn(T[e][s]))
                ps[s] += k
                qs[s] += k
            continue
        kk = m4 / m2 ** 2
        nice = exact and _dyadic(mu) and _dyadic(m2) and _dyadic(m4)
        if not nice and (abs(float(kk) - 2) < eps or abs(float(kk) - 4) < eps):
            raise Boundary('kurtosis near threshold')
        k2 = 4 if 2 <= kk <= 4 else 20
        sg = _sqrt(m2) if nice else None
        for s in range(S):
            for a in T[e][s]:
                if math.isnan(a):
                    continue
                d = (F(a) if exact else a) - mu
                lhs, rhs = d * d, k2 * m2    # |d| >= sqrt(k2) sigma
                if abs(float(lhs - rhs)) <= 1e-9 * max(1.0, abs(float(rhs))) and not (
                        k2 == 4 and nice and sg is not None and _dyadic(sg)):
                    raise Boundary('vote on outlier threshold')
                if lhs >= rhs:
                    if d > 0:
                        ps[s] += 1
                    else:
                        qs[s] += 1
    st1, st2, rej = [], [], []
    for s in range(S):
        a = F(ps[s] + qs[s], E * R)
        b = abs(F(ps[s] - qs[s], ps[s] + qs[s])) if ps[s] + qs[s] else None
        st1.append(float(a))
        st2.append(float(b) if b is not None else NAN)
        rej.append(a > F(1, 20) and b is not None and b < F(3, 10))
    if all(rej):
        rej = [False] * S
    return rej, st1, st2


def ranks(xs):
    """average ranks"""
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    r = [0.0] * len(xs)
    i = 0
    while i < len(o):
        j = i
        while j + 1 < len(o) and xs[o[j + 1]] == xs[o[i]]:
            j += 1
        for k in range(i, j + 1):
            r[o[k]] = (i + j) / 2.0 + 1
        i = j + 1
    return r


def pearson(x, y):
    mx, my = mean(x), mean(y)
    sxx = math.fsum((a - mx) ** 2 for a in x)
    syy = math.fsum((b - my) ** 2 for b in y)
    if sxx <= 0 or syy <= 0:
        return NAN
    return math.fsum((a - mx) * (b - my) for a, b in zip(x, y)) / math.sqrt(sxx * syy)


def spearman(x, y):
    return pearson(ranks(x), ranks(y))


def kendall(x, y):
    n = len(x)
    c = d = tx = ty = 0
    for i in range(n):
        for j in range(i):
            a = (x[i] > x[j]) - (x[i] < x[j])
            b = (y[i] > y[j]) - (y[i] < y[j])
            if a * b > 0:
                c += 1
            elif a * b < 0:
                d += 1
            if a == 0:
                tx += 1
            if b == 0:
                ty += 1
    n0 = n * (n - 1) // 2
    den = math.sqrt((n0 - tx) * (n0 - ty))
    return (c - d) / den if den else NAN


def loggauss(x, mu, sd):
    return -0.5 * math.log(2 * math.pi) - math.log(sd) - (x - mu) ** 2 / (2 * sd * sd)


def corr_screen(T, kind, exact, own=True, eps=1e-9):
    """(rejected, correlations). Raises Boundary near a threshold or when a correlation is numerically undefined."""
    E, S, R = dims(T)
    m = [[mean(nn(T[e][s])) for s in range(S)] for e in range(E)]
    mos = [mean(nn(m[e])) for e in range(E)]
    r = []
    for s in range(S):
        idx = [e for e in range(E) if not math.isnan(m[e][s])]
        x = [m[e][s] for e in idx]
        y = [mos[e] for e in idx]
        if len(idx) < 2:
            raise Boundary('fewer than two rated videos')
        # ties and constancy are only decidable where the compared means are exact in floating point
        exact = exact and R <= 2
        for v in (x, y):
            sp = max(v) - min(v)
            if sp < 1e-7 * max(1.0, max(abs(a) for a in v)) and (sp > 0 or not (exact or (v is x and own and R == 1))):
                raise Boundary('nearly constant')
        if kind == 'pearson':
            r.append(pearson(x, y) if max(x) > min(x) and max(y) > min(y) else NAN)
        else:
            for v in (x, y):
                w = sorted(v)
                if any(b - a < 1e-9 and (b > a or not (exact or (v is x and own and R == 1))) for a, b in zip(w, w[1:])):
                    raise Boundary('near tie')
            r.append(spearman(x, y))
    if any(math.isnan(a) for a in r):
        return [False] * S, r
    thr = min(0.7, mean(r) - pstd(r))
    if abs(mean(r) - pstd(r) - 0.7) < eps:
        raise Boundary('threshold')
    for a in r:
        if abs(a - thr) < 1e-7:
            raise Boundary('correlation on threshold')
    return [a <= thr for a in r], r
