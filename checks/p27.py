import itertools, math
import numpy as np
from mc import core, models, ref
from mc.core import Check, outcome, state, skip, check_same, require, transition
from sureal.perf_metric import PerfMetric, RmsePerfMetric, SrccPerfMetric, PccPerfMetric, KendallPerfMetric

METRICS = {'RMSE': RmsePerfMetric, 'SRCC': SrccPerfMetric, 'PCC': PccPerfMetric, 'KENDALL': KendallPerfMetric}
AGGR = {'mean': np.mean, 'median': np.median, 'max': max, 'first': lambda v: v[0], 'count': len}


def rmse(x, y):
    return math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(x, y)) / len(x))


REFS = {'RMSE': rmse, 'SRCC': ref.spearman, 'PCC': ref.pearson, 'KENDALL': ref.kendall}


def mapped(truth, pred):
    """logistic curve over the truth's range widened by 0.1, fitted by least squares: pred = a + b logit"""
    hi, lo = max(truth) + 0.1, min(truth) - 0.1
    z = [math.log((t - lo) / (hi - t)) for t in truth]
    mz, mp = ref.mean(z), ref.mean(pred)
    szz = math.fsum((u - mz) ** 2 for u in z)
    if szz < 1e-9:
        return None
    b = math.fsum((u - mz) * (p - mp) for u, p in zip(z, pred)) / szz
    a = mp - b * mz
    if abs(b) < 1e-6:
        return None
    return [lo + (hi - lo) / (1 + math.exp(max(-700, min(700, -(p - a) / b)))) for p in pred]


def num(v):
    return list(v) if isinstance(v, (list, tuple, np.ndarray)) else v


class CHECK(Check):
    rule = ('every pair of score lists of length 1 to 4 (thorough 5) over a three-letter alphabet with ties, plus longer and badly scaled ones, each metric, '
            'with and without sigmoid mapping, as lists, tuples and arrays; every choice of raw-score lists with every aggregation; every unequal length')

    def cases(self, tier):
        q = tier == 'quick'
        al = (1, 2.5, 4)
        for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            for t in itertools.product(al, repeat=n):
                yield 'grid %s' % (t,), ('grid', t, al if n < 4 or not q else (1, 2.5, 4))
        longs = [[(i * 7) % 5 + 1 for i in range(m)] for m in (6, 9, 17)] + [[math.sin(3 * i) * 10 ** s for i in range(m)] for m in (5, 12) for s in (-3, 0, 4)] + \
                [[i // 3 for i in range(12)], [1, 1, 1, 1, 2], [5, -5, 5, -5, 5, 0], list(range(30)), [1e-9 * i + 1 for i in range(6)], [-1.5, 0.0, -0.0, 2.5, 2.5]] + \
                [[(i * 37) % m for i in range(m)] for m in (70, 257)] + [[(i * i) % 11 for i in range(300)], [math.cos(i * i) for i in range(130)]]
        for i, a in enumerate(longs):
            for j, b in enumerate(longs):
                m = min(len(a), len(b))
                for r in range(0, m, max(1, m // 3)):
                    yield 'long %d %d %d' % (i, j, r), ('pair', a[:m], (b[r:m] + b[:r]))
        raws = ((3,), (1, 5), (2, 2, 5), (4, 1), 2, 3.5)
        for n in (2, 3):
            for t in itertools.product(range(len(raws)), repeat=n):
                yield 'raw %s' % (t,), ('raw', [raws[k] for k in t])
        for n, m in itertools.product(range(0, 5), repeat=2):
            if n != m:
                yield 'unequal %d %d' % (n, m), ('unequal', n, m)

    def test(self, key, p):
        getattr(self, 'do_' + p[0])(*p[1:])

    def do_grid(self, t, al):
        for pr in itertools.product(al, repeat=len(t)):
            self.do_pair(list(t), [v * 2 - 1 for v in pr], fast=True)

    def do_pair(self, truth, pred, fast=False):
        truth, pred = [float(v) for v in truth], [float(v) for v in pred]
        state((truth, pred))
        if len(truth) > 2 and core.digest((truth, pred))[0] in '01234567':
            conv = (np.array, tuple)[len(pred) % 2]
        else:
            conv = list
        for name, M in METRICS.items():
            if len(truth) < 2 and name != 'RMSE':
                continue
            self.one(name, M, conv(truth), conv(pred), truth, pred, {})
            if len(truth) >= 3 and max(truth) > min(truth):
                mp = mapped(truth, pred)
                if mp is not None:
                    self.one(name, M, conv(truth), conv(pred), truth, mp, {'enable_mapping': True}, curve=True)
                    # monotone: ranks as before
                if len(truth) <= 3:
                    self.one(name, M, conv(truth), conv(pred), truth, pred, {'enable_mapping': False})

    def one(self, name, M, t_in, p_in, truth, pred, kw, curve=False):
        before = (repr(t_in), repr(p_in))
        transition()
        try:
            got = M(t_in, p_in).evaluate(**kw)['score']
        except Exception as e:
            raise core.Violation('%s of %s and %s %s failed: %s' % (name, truth, pred, kw, e))
        require((repr(t_in), repr(p_in)) == before, '%s changed its inputs' % name)
        if name != 'RMSE':
            for v in (truth, pred):
                if 0 < max(v) - min(v) < 1e-6 * max(abs(a) for a in v):
                    return      # correlation not determined in floating point
            if curve:
                w = sorted(pred)
                if any(0 < b - a < 1e-9 for a, b in zip(w, w[1:])):
                    return
        want = REFS[name](truth, pred)
        scale = max([1.0] + [abs(v) for v in truth + pred])
        check_same('%s of %s and %s %s' % (name, truth, pred, kw), float(got), want, 1e-7, 1e-9 * (scale if name == 'RMSE' else 10))
        outcome([name, want])

    def do_raw(self, raws):
        pred = [1.0 + 1.5 * i for i in range(len(raws))]
        for name, M in METRICS.items():
            for a, f in AGGR.items():
                truth = [float(f(v)) if isinstance(v, tuple) else float(v) for v in raws]
                for conv in (list, tuple, np.array):
                    t_in = [conv(v) if isinstance(v, tuple) else v for v in raws]
                    kw = {} if a == 'mean' and conv is list else {'aggr_method': f}
                    self.one(name, M, t_in, list(pred), truth, pred, kw)
                if len(raws) == 3 and max(truth) > min(truth) and mapped(truth, pred) is not None:
                    self.one(name, M, [num(v) for v in raws], list(pred), truth, mapped(truth, pred), {'aggr_method': f, 'enable_mapping': True}, curve=True)
        state(raws)

    def do_unequal(self, n, m):
        state((n, m))
        for name, M in METRICS.items():
            transition()
            require(models.refused(lambda: M(list(range(n)), list(range(m))).evaluate()), '%s accepts %d truths and %d predictions' % (name, n, m))
            require(PerfMetric.find_subclass(name) is M, name)
        outcome([n, m])
