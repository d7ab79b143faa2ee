import itertools, math
from fractions import Fraction as F
import numpy as np
from mc import core, ref
from mc.core import Check, outcome, state, check_same, require, transition
from sureal.tools import stats as st
from sureal.tools import misc

NAN = float('nan')
XS = (-40.0, -3.0, -1.5, -1.0, -0.5, 0.0, 0.25, 1.0, 1.75, 2.0, 6.5)
LOCS = (-2.0, -0.5, 0.0, 1.25)
SCALES = (0.125, 0.5, 1.0, 2.0, 7.5)


def gauss(x, m, s):
    return math.exp(-((x - m) / s) ** 2 / 2) / (s * math.sqrt(2 * math.pi))


def logistic(x, m, s):
    u = abs(x - m) / s
    e = math.exp(-u)
    return e / (s * (1 + e) ** 2)


def uniform2(x, l1, s1, l2, s2):
    """overlap of the two intervals, exactly"""
    x, l1, s1, l2, s2 = map(F, (x, l1, s1, l2, s2))
    z = x - l1 - l2
    o = min(z + s1 / 2, s2 / 2) - max(z - s1 / 2, -s2 / 2)
    return float(max(F(0), o) / (s1 * s2))


def logistic2(x, s1, s2):
    w = 60 * max(s1, s2)
    t = np.linspace(-w, w, 60001)
    f = 1 / (4 * s1) / np.cosh(np.clip(t / 2 / s1, -300, 300)) ** 2
    g = 1 / (4 * s2) / np.cosh(np.clip((x - t) / 2 / s2, -300, 300)) ** 2
    h = t[1] - t[0]
    return float((f * g).sum() * h)


class CHECK(Check):
    case_timeout = 300
    rule = ('every combination of points, locations and scales of a grid for each density (single values, one- and two-dimensional arrays, every arrangement of '
            'zero and nonzero first elements), exact rational overlap for uniforms, quadrature for logistics and Gaussians; every small matrix with missing '
            'entries, every weight vector and axis for the weighted mean; every short series for the counting helpers')

    def cases(self, tier):
        q = tier == 'quick'
        for m, s in itertools.product(LOCS, SCALES):
            yield 'pdf %s %s' % (m, s), ('pdf', m, s)
        for l1, s1, l2, s2 in itertools.product(LOCS, SCALES, LOCS, SCALES):
            yield 'uni %s' % ((l1, s1, l2, s2),), ('uni', l1, s1, l2, s2)
        for k in range(12 if q else 60):
            yield 'univec %d' % k, ('univec', k)
        for s1, s2 in itertools.product((0.3, 0.5, 1.0, 2.5), repeat=2):
            yield 'log %s %s' % (s1, s2), ('log', s1, s2)
        for s1, s2 in itertools.product((0.3, 1.0, 2.0), repeat=2):
            yield 'conv %s %s' % (s1, s2), ('conv', s1, s2)
        al = (NAN, 1.0, 4.0, -2.5)
        for (r, c) in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
            for k, m in enumerate(itertools.product(al if r * c <= 4 else al[:3], repeat=r * c)):
                if r * c > 4 and q and k % 3:
                    continue
                yield 'wmean %dx%d %d' % (r, c, k), ('wmean', r, c, m)
        for n in range(0, 5 if q else 7):
            for s in itertools.product((NAN, 1.0, 2.0, 3.5), repeat=n):
                yield 'histc %s' % (s,), ('histc', s)
        for n in (2, 3):
            for s in itertools.product((0.1, 0.1 + 1e-9, 0.3, 0.1 + 0.2, -0.1, 1e-12, 0.0, 1e9, 1e9 + 1), repeat=n):
                yield 'histc fine %s' % (s,), ('histc', s)
        for v in (0.0, 1.0, -2.5, 3.0):
            yield 'alone %s' % v, ('alone', v)
        for n in (2, 3, 4, 5):
            for k, s in enumerate(itertools.product((0.0, 1.0, 2.0, 4.0), repeat=n)):
                if len(set(s)) > 1 and (n < 5 or not q or k % 7 == 0):
                    yield 'dist %s' % (s,), ('dist', s)

    def test(self, key, p):
        state(key)
        getattr(self, 'do_' + p[0])(*p[1:])

    def do_pdf(self, m, s):
        for name, f, g in (('gaussian', st.vectorized_gaussian, gauss), ('logistic', st.vectorized_logistic, logistic)):
            want = [g(x, m, s) for x in XS]
            transition()
            one = [float(f(x, m, s)) for x in XS]
            check_same(name + ' density', one, want, 1e-9, 1e-300)
            require(all(v >= 0 for v in one), name + ' density is negative')
            a = f(np.array(XS), np.full(len(XS), m), np.full(len(XS), s))
            check_same(name + ' on arrays', a, want, 1e-9, 1e-300)
            far = [m + g * s for g in (-2000.0, -800.0, -720.0, 720.0, 800.0, 2000.0)]
            with np.errstate(all='ignore'):
                check_same(name + ' density far out', [float(f(x, m, s)) for x in far], [0.0] * len(far), 0, 1e-290)
            # two dimensions, every parameter varying
            X = np.array(XS[:6]).reshape(2, 3)
            M = np.array([[m, 0.5, m], [0.0, m, 2.0]])
            S = np.array([[s, s, 1.0], [0.5, s, 2 * s]])
            check_same(name + ' on tables', f(X, M, S), [[g(X[i, j], M[i, j], S[i, j]) for j in range(3)] for i in range(2)], 1e-9, 1e-300)
            check_same(name + ' broadcast', f(X[:, :, None], M[:, :, None], np.array([s, 3.0])),
                       [[[g(X[i, j], M[i, j], t) for t in (s, 3.0)] for j in range(3)] for i in range(2)], 1e-9, 1e-300)
        outcome(want)

    def do_uni(self, l1, s1, l2, s2):
        edge = [sg * v / 2 + l1 + l2 for sg in (-1, 1) for v in (s1 + s2, abs(s1 - s2))]
        xs = list(XS) + edge + [e + d for e in edge for d in (-2.0 ** -20, 2.0 ** -20, 0.0625, -0.0625)]
        want = []
        for x in xs:
            transition()
            w = uniform2(x, l1, s1, l2, s2)
            g = float(st.convolution_of_two_uniforms(x, l1, s1, l2, s2))
            check_same('density of two uniforms at %s' % x, g, w, 1e-9, 1e-12)
            require(g >= -1e-15, 'negative density')
            want.append(w)
        a = st.vectorized_convolution_of_two_uniforms(np.array(xs), np.full(len(xs), l1), np.full(len(xs), s1), np.full(len(xs), l2), np.full(len(xs), s2))
        check_same('density of two uniforms on an array', a, want, 1e-9, 1e-12)
        outcome(want)

    def do_univec(self, k):
        # tables in which the first element is outside (zero), on a slope, on the plateau
        pts = [(-40.0, 0.0, 1.0, 0.0, 2.0), (0.0, 0.0, 1.0, 0.0, 2.0), (1.0, 0.5, 1.0, -0.25, 2.0), (2.0, 1.0, 0.5, 0.0, 4.0), (3.0, 1.0, 1.0, 1.0, 1.0), (0, 0, 1, 0, 2)]
        rot = pts[k % 6:] + pts[:k % 6]
        if k >= 6:
            rot = rot[::-1]
        cols = [np.array(c).reshape((2, 3) if k % 2 else (6,)) for c in zip(*rot)]
        transition()
        got = st.vectorized_convolution_of_two_uniforms(*cols)
        check_same('two uniforms on a table', np.ravel(got), [uniform2(*p) for p in rot], 1e-9, 1e-12)
        require(np.shape(got) == cols[0].shape, 'shape %s' % (np.shape(got),))
        outcome(np.ravel(got))

    def do_log(self, s1, s2):
        xs = np.array([[-4.0, -0.75, 0.0, 0.5], [0.1, 1.0, 2.5, 6.0]])
        l1 = np.array([[0.3, 0.0, -0.2, 1.0], [0.0, 0.5, 0.5, 0.0]])
        l2 = np.array([[-0.1, 0.25, 0.2, -2.0], [0.0, 0.5, 1.0, 0.75]])
        S1 = np.array([[s1, s1, s1, 1.0], [s1, s2, s1, s1]])
        S2 = np.array([[s2, s2, s2, s2], [1.0, s1, s2, s2]])
        transition()
        got = np.asarray(st.vectorized_convolution_of_two_logistics(xs, l1, S1, l2, S2), float)
        require(got.shape == xs.shape, 'shape %s' % (got.shape,))
        for i, j in itertools.product(range(2), range(4)):
            w = logistic2(xs[i, j] - l1[i, j] - l2[i, j], S1[i, j], S2[i, j])
            peak = logistic2(0.0, S1[i, j], S2[i, j])
            check_same('density of two logistics at %s' % ((i, j),), got[i, j], w, 0, 0.01 * peak)
            require(got[i, j] >= -1e-9, 'negative density')
            outcome(w)

    def do_conv(self, s1, s2):
        # sum of two Gaussians is Gaussian
        c = st.ConvolveTwoPdf(lambda x: np.exp(-(x / s1) ** 2 / 2) / s1 / math.sqrt(2 * math.pi), lambda x: np.exp(-(x / s2) ** 2 / 2) / s2 / math.sqrt(2 * math.pi),
                              delta=3e-3, f_truncation=1e-12, g_truncation=1e-12)
        s = math.hypot(s1, s2)
        xs = [-2.5, -1.0, -0.3, 0.0, 0.2, 0.9, 3.0]
        for x in xs:
            transition()
            check_same('convolution at %s' % x, float(c.pdf(x)), gauss(x, 0, s), 0, 0.01 * gauss(0, 0, s))
        check_same('convolution on an array', np.asarray(c.pdf(np.array(xs))), [float(c.pdf(x)) for x in xs])
        outcome([s])

    def do_wmean(self, r, c, m):
        a = np.array(m).reshape(r, c)
        for axis in (0, 1):
            n = a.shape[axis]
            for w in itertools.product((1.0, 0.5, 3.0), repeat=n):
                transition()
                before = a.copy()
                got = misc.weighed_nanmean_2d(a, np.array(w), axis)
                got2 = misc.weighed_nanmean_2d(a, list(w), axis)
                require(np.array_equal(a, before, equal_nan=True), 'input changed')
                want = []
                for k in range(a.shape[1 - axis]):
                    v = a[:, k] if axis == 0 else a[k, :]
                    pr = [(x, y) for x, y in zip(v, w) if not math.isnan(x)]
                    want.append(math.fsum(x * y for x, y in pr) / math.fsum(y for _, y in pr) if pr else NAN)
                check_same('weighted mean of %s by %s along %d' % (a.tolist(), w, axis), got, want)
                check_same('weighted mean, weights as list', got2, want)
                outcome(want)

    def do_histc(self, s):
        want = {}
        for v in s:
            if not math.isnan(v):
                want[v] = want.get(v, 0) + 1
        for conv in (list, np.array, tuple):
            transition()
            got = st.histc(conv(s))
            require({float(k): int(v) for k, v in got.items()} == want and len(got) == len(want), 'histc(%s) = %s' % (s, got))
            core.CTX.validated += 1
        ints = [int(v) for v in s if not math.isnan(v)]
        require(misc.get_unique_sorted_list(ints) == sorted(set(ints)), 'unique sorted %s' % ints)
        require(misc.indices(s, lambda v: v > 1.5) == [i for i, v in enumerate(s) if v > 1.5], 'indices %s' % (s,))
        outcome(sorted(want.items()))

    def do_alone(self, v):
        """one value, or the same value several times, still makes up the whole distribution"""
        for n in (1, 2, 3):
            for bins in (1, 2, 4, None):
                kw = {} if bins is None else {'bins': bins}
                transition()
                cdf, edges = st.get_cdf([v] * n, **kw)
                require(abs(cdf[-1] - 1.0) < 1e-12 and all(c in (0.0, 1.0) for c in cdf), 'cdf of %d times %s: %s' % (n, v, core.short(list(cdf))))
                for dens in (True, False, None):
                    pdf, cen = st.get_pdf([v] * n, **(kw if dens is None else dict(kw, density=dens)))
                    w = 1.0 if len(cen) == 1 else cen[1] - cen[0]
                    check_same('total of %d times %s' % (n, v), float(np.sum(pdf)) * (1 if dens is False else w), float(n) if dens is False else 1.0)
                    require(sum(p != 0 for p in pdf) == 1, '%d times %s in several bins' % (n, v))
        outcome([v])

    def do_dist(self, s):
        lo, hi = min(s), max(s)
        for bins in (1, 2, 4, 8, None):
            n = 100 if bins is None else bins
            for conv in (list, np.array):
                transition()
                cdf, edges = st.get_cdf(conv(s)) if bins is None else st.get_cdf(conv(s), bins=bins)
                want_e = [lo + (hi - lo) * (k + 1) / n for k in range(n)]
                check_same('cdf edges', edges, want_e)
                ok = [k for k in range(n) if k == n - 1 or all(abs(v - want_e[k]) > 1e-9 or bins is not None for v in s)]
                want_c = [sum(v < want_e[k] or k == n - 1 for v in s) / len(s) for k in range(n)]
                check_same('cdf of %s, %s bins' % (s, n), [cdf[k] for k in ok], [want_c[k] for k in ok])
                nb = 20 if bins is None else bins
                for dens in (True, False, None):
                    kw = {} if dens is None else {'density': dens}
                    if bins is not None:
                        kw['bins'] = bins
                    pdf, cen = st.get_pdf(conv(s), **kw)
                    w = (hi - lo) / nb
                    check_same('pdf centres', cen, [lo + w * (k + 0.5) for k in range(nb)])
                    if bins is not None:
                        cnt = [sum(lo + w * k <= v < lo + w * (k + 1) or (k == nb - 1 and v == hi) for v in s) for k in range(nb)]
                        check_same('pdf of %s, %d bins' % (s, nb), pdf, [c / len(s) / w if dens is not False else c for c in cnt])
                    else:
                        check_same('total', float(np.sum(pdf)) * (w if dens is not False else 1), 1.0 if dens is not False else len(s))
        outcome(sorted(s))
