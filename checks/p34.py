import itertools, math, warnings
import numpy as np
from mc import core
from mc.core import Check, outcome, state, check_same, require, transition, count
from sureal.tools.inverse import inversefunc

PI = math.pi
# name -> function (accepts numpy floats and arrays), natural domain (finite ends are where the function lives), open there
BASE = {
    'identity': (lambda x: x * 1.0, (None, None)),
    'affine': (lambda x: 2.5 * x + 1.0, (None, None)),
    'falling': (lambda x: 0.75 - 3.0 * x, (None, None)),
    'cube': (lambda x: x ** 3 + x, (None, None)),
    'cubic': (lambda x: (x - 2.0) ** 3 + x, (None, None)),
    'exp': (np.exp, (None, None)),
    'decay': (lambda x: np.exp(-0.5 * x), (None, None)),
    'sigmoid': (lambda x: 1.0 / (1.0 + np.exp(-x)), (None, None)),
    'arctan': (np.arctan, (None, None)),
    'square': (lambda x: x * x, (0.0, None)),
    'square left': (lambda x: x * x, (None, 0.0)),
    'cos': (np.cos, (0.0, PI)),
    'sin': (np.sin, (-PI / 2, PI / 2)),
    'root': (np.sqrt, (0.0, None)),
    'pole': (lambda x: -1.0 / x if np.ndim(x) or x != 0 else np.inf, (None, 0.0)),
    'pole right': (lambda x: 1.0 / x if np.ndim(x) or x != 0 else np.inf, (0.0, None)),
    'bell': (lambda x: np.exp(-x * x / 2), (0.0, 4.0)),
}
ARGF = {'power': (np.power, (2,), (0.0, None)), 'power3': (np.power, 3, (0.5, None)),
        'line': (lambda x, a, b: a * x + b, (-2.0, 5.0), (None, None)), 'steep': (lambda x, a: a * x ** 3 + x, (4.0,), (None, None))}
FLAGS = (None, False, True, (False, False), (False, True), (True, False), (True, True))


def doms(nat):
    lo, hi = nat
    a = -1.5 if lo is None else lo
    b = (a + 3.0) if hi is None else hi
    w = b - a
    out = []
    if lo is None and hi is None:
        out += [None, (None, None), 1.0, (-1.0, None), (None, 2.0), (None, -1.0), (a, b), (-0.25, 0.5), (1.0, 9.0)]
    elif hi is None:
        out += [lo, (lo, None), (lo + 1.5, None), (lo, lo + 3.0), (lo + 0.5, lo + 0.75)]
    elif lo is None:
        out += [(None, hi), (None, hi - 1.5), (hi - 3.0, hi), (hi - 2.0, hi - 1.0)]
    else:
        out += [(lo, hi), (lo + w / 8, hi), (lo, hi - w / 4), (lo + w / 4, hi - w / 4)]
    return out


def norm(dom):
    if dom is None:
        return None, None
    if isinstance(dom, float):
        return dom, None
    return dom


def norm_flag(fl):
    if fl is None:
        return False, False
    if isinstance(fl, bool):
        return fl, fl
    return fl


class CHECK(Check):
    case_timeout = 120
    rule = ('every function of a family (rising and falling, with and without extra arguments) times every way of bounding the domain, every open/closed flag, '
            'every given image, every point of a grid inside, at the ends of and beyond the domain, singly and in every arrangement of up to three in arrays, '
            'called directly and through the returned callable; every malformed bound')

    def cases(self, tier):
        fs = [(n, f, (), d) for n, (f, d) in BASE.items()] + [(n, f, a, d) for n, (f, a, d) in ARGF.items()]
        for n, f, a, d in fs:
            for k, dom in enumerate(doms(d)):
                for fl in FLAGS:
                    yield 'inv %s %s %s' % (n, dom, fl), ('inv', n, k, fl)
                yield 'img %s %s' % (n, dom), ('img', n, k)
                for fl in ((None, (False, True)) if tier == 'quick' else FLAGS):
                    yield 'arr %s %s %s' % (n, dom, fl), ('arr', n, k, fl)
        for k in range(len(BAD)):
            yield 'bad %s' % (BAD[k],), ('bad', k)
        for c in (-1.0, 0.0, 3.0):
            for dom in (None, 1.0, (0.0, 2.0), (None, 3.0)):
                yield 'flat %s %s' % (c, dom), ('flat', c, dom)

    def get(self, n):
        if n in BASE:
            f, d = BASE[n]
            return f, (), d
        f, a, d = ARGF[n]
        return f, a, d

    def points(self, f, a, lo, hi, steps=8):
        """x values to try: interior"""
        if lo is None and hi is None:
            lo, hi = -2.0, 4.0
        elif hi is None:
            hi = lo + 4.0
        elif lo is None:
            lo = hi - 4.0
        return [lo + (hi - lo) * (k + 0.5) / steps for k in range(steps)]

    def ends(self, F, lo, hi, ol, oh):
        """(x, y, open) of the finite ends"""
        out = []
        if lo is not None:
            out.append((lo, float(F(np.float64(lo))), ol))
        if hi is not None:
            out.append((hi, float(F(np.float64(hi))), oh))
        return out

    def setup(self, n, k, fl):
        f, a, d = self.get(n)
        at = a if isinstance(a, tuple) else (a,)
        F = lambda x: f(x, *at)
        dom = doms(d)[k]
        lo, hi = norm(dom)
        ol, oh = norm_flag(fl)
        xs = self.points(f, at, lo, hi)
        up = F(xs[-1]) > F(xs[0])
        kw = {'domain': list(dom) if isinstance(dom, tuple) else dom, 'open_domain': list(fl) if isinstance(fl, tuple) else fl, 'args': a}
        return f, F, dom, lo, hi, ol, oh, xs, up, kw

    def good(self, what, F, r, y, lo, hi):
        require(math.isfinite(r), '{} of {} is {}', what, y, r)
        require(lo is None or r >= lo, '{} of {} is {}, below the domain', what, y, r)
        require(hi is None or r <= hi, '{} of {} is {}, above the domain', what, y, r)
        g = float(F(np.float64(r)))
        require(abs(g - y) <= 1e-5 * (1 + abs(y)), '{} of {} is {}, which maps to {}', what, y, r, g)
        core.CTX.validated += 1

    def refuses(self, what, fn):
        try:
            r = fn()
        except ValueError:
            core.CTX.validated += 1
            return
        raise core.Violation('%s was accepted: %s' % (what, core.short(r)))

    def test(self, key, p):
        state(key)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            getattr(self, 'do_' + p[0])(*p[1:])

    def do_inv(self, n, k, fl):
        f, F, dom, lo, hi, ol, oh, xs, up, kw = self.setup(n, k, fl)
        if n.startswith('pole') and 0.0 in (lo, hi):
            # lives on an open domain only: the function has no value at this end
            if not (oh if n == 'pole' else ol):
                return
        inv = inversefunc(f, **kw)
        for x in xs:
            y = float(F(np.float64(x)))
            r = inversefunc(f, y_values=y, **kw)
            transition()
            require(np.shape(r) == (), 'shape {} for a number', np.shape(r))
            self.good('inverse', F, float(r), y, lo, hi)
            check_same('returned callable', float(inv(y)), float(r))
            outcome([n, float(r)])
        E = self.ends(F, lo, hi, ol, oh)
        for x, y, op in E:
            if not math.isfinite(y):
                continue
            if op:
                self.refuses('value %s at the open end %s' % (y, x), lambda: inversefunc(f, y_values=y, **kw))
                self.refuses('value %s at the open end %s' % (y, x), lambda: inv(y))
            else:
                require(float(inv(y)) == x, 'value {} at the closed end {} gives {}', y, x, float(inv(y)))
            s = 1.0 if (x == lo) != up else -1.0       # outward
            for dy in (1e-3, 0.5, 100.0):
                self.refuses('value %s beyond the end %s' % (y + s * dy, x), lambda: inv(y + s * dy))
                self.refuses('value %s beyond the end %s' % (y + s * dy, x), lambda: inversefunc(f, y_values=[float(F(np.float64(xs[2]))), y + s * dy], **kw))
                for m in (3, 4, 7):
                    for pos in (0, m // 2, m - 1):
                        many = [float(F(np.float64(v))) for v in (xs * 2)[:m]]
                        many[pos] = y + s * dy
                        self.refuses('value %s beyond the end %s, place %d of %d' % (many[pos], x, pos, m), lambda: inv(np.array(many)))

    def do_img(self, n, k):
        if n.startswith('pole'):
            return
        f, F, dom, lo, hi, ol, oh, xs, up, kw = self.setup(n, k, None)
        ys = sorted(float(F(np.float64(x))) for x in xs)
        for a, b in ((2, 5), (None, 5), (2, None), (1, 6)):
            img = [None if a is None else ys[a], None if b is None else ys[b]]
            inv = inversefunc(f, image=img, **kw)
            for j, y in enumerate(ys):
                if (a is not None and j < a) or (b is not None and j > b):
                    self.refuses('value %s outside the given image %s' % (y, img), lambda: inv(y))
                else:
                    transition()
                    self.good('inverse with image %s' % img, F, float(inv(y)), y, lo, hi)
            # an open end excludes the matching end of the given image
            if a is not None and b is not None and lo is not None and hi is not None:
                for fl in ((True, False), (False, True)):
                    g = inversefunc(f, image=img, **dict(kw, open_domain=list(fl)))
                    low_open = fl[0] if up else fl[1]
                    y_open, y_closed = (ys[a], ys[b]) if low_open else (ys[b], ys[a])
                    self.refuses('open image end %s' % y_open, lambda: g(y_open))
                    self.good('closed image end', F, float(g(y_closed)), y_closed, lo, hi)

    def do_arr(self, n, k, fl):
        if n.startswith('pole'):
            return
        f, F, dom, lo, hi, ol, oh, xs, up, kw = self.setup(n, k, fl)
        inv = inversefunc(f, **kw)
        ys = [float(F(np.float64(x))) for x in xs][1:7:2] + [y for x, y, op in self.ends(F, lo, hi, ol, oh) if not op]
        one = {y: float(inv(y)) for y in ys}
        for m in (0, 1, 2, 3):
            for seq in itertools.product(ys, repeat=m):
                want = [one[y] for y in seq]
                arg = np.array(seq)
                keep = arg.copy()
                got = inv(arg)
                transition()
                require(np.array_equal(arg, keep), 'the argument was changed')
                check_same('list', inv(list(seq)).tolist() if m else list(inv(list(seq))), want)
                check_same('array', got.tolist(), want)
                if m:
                    check_same('row', inv(arg.reshape(1, m)).tolist(), [want])
                    check_same('column', inversefunc(f, y_values=arg.reshape(m, 1), **kw).tolist(), [[w] for w in want])

    def do_bad(self, k):
        kw = dict(BAD[k])
        self.refuses(str(kw), lambda: inversefunc(lambda x: x * 1.0, **kw))

    def do_flat(self, c, dom):
        self.refuses('constant function', lambda: inversefunc(lambda x: x * 0.0 + c, domain=dom))


BAD = []
for d in ([1.0], [1.0, 2.0, 3.0], [[0.0, 1.0]], [], [1.0, 1.0], [2.0, 1.0], [0.0, -1.0], [[1.0], [2.0]]):
    BAD.append((('domain', d),))
    if d:
        BAD.append((('domain', d), ('open_domain', True)))
for o in ([True], [True, False, True], [[True, False]], []):
    BAD.append((('open_domain', o),))
    BAD.append((('domain', [0.0, 1.0]), ('open_domain', o)))
for i in (1.0, [1.0], [0.0, 1.0, 2.0], [[0.0, 1.0]], [1.0, 1.0], [3.0, 2.0], []):
    BAD.append((('image', i),))
    BAD.append((('image', i), ('domain', [0.0, 4.0])))
