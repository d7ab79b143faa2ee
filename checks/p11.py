import itertools
import numpy as np
from mc import core, exp, models, ref, spaces
from mc.core import Check, outcome, state, skip, check_same, require

ABS = ('quality_scores',)
BIAS = ('observer_bias',)
SPREAD = ('quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95', 'observer_bias_std', 'observer_bias_ci95', 'observer_inconsistency',
          'observer_inconsistency_std', 'observer_inconsistency_ci95', 'content_ambiguity', 'content_ambiguity_std', 'content_ambiguity_ci95',
          'observer_scores_std')
REJ = ('observer_rejected', 'observer_rejected_1st_stats', 'observer_rejected_2nd_stats')


def mapped(x, f):
    return x.but(cells=[[tuple(f(v, e, s) if v == v else v for v in c) for s, c in enumerate(row)] for e, row in enumerate(x.cells)])


TRANS = [('+%g' % c, (lambda c: lambda v, e, s: v + c)(c), 1.0, c) for c in (1, -10.5, 100, -3)] + \
        [('*%g' % k, (lambda k: lambda v, e, s: v * k)(k), k, 0.0) for k in (2, 0.5, 20, 0.1)] + \
        [('affine', lambda v, e, s: 25 * v - 25, 25.0, -25.0), ('mirror', lambda v, e, s: 6 - v, -1.0, 6.0)]


class CHECK(Check):
    case_timeout = 300
    rule = ('every experiment of a lattice times every transformation of the scale (four shifts, four stretches, an affine map, the '
            'mirror image) and every shift of a single observer, times every absolute-score model: results compared with the '
            'transformed results of the original')

    def cases(self, tier):
        q = tier == 'quick'
        for x in exp.small_grids('quick', styles=('list',)):
            if x.E == 2 and x.S == 2:
                yield 'closed ' + x.tag, ('closed', x)
        for x in exp.lattice(((3, 3), (4, 6), (5, 12)), exp.REP, ('none', 'diag', 'obs', 'nanrep'),
                             (exp.ACR, exp.CONT, exp.NEG) if not q else (exp.ACR, exp.CONT), ('list', 'dict'), ('alt',), (1,)):
            yield 'closed ' + x.tag, ('closed', x)
        for i, x in enumerate(exp.screening('quick')):
            if i % 13 == 0 or 'rep' in x.tag or 'imbal' in x.tag:
                yield 'closed ' + x.tag, ('closed', x)
        for x in exp.real_lattice(((5, 6), (6, 11)), ('none', 'ragged', 'all2'), ('none', 'diag', 'obs'), ('alt',), quants=(0.25, 1.0)):
            yield 'proj ' + x.tag, ('proj', x)
        for x in exp.real_lattice(((10, 12), (12, 14)), ('none', 'ragged'), ('none', 'diag'), ('blk',)):
            for name in spaces.ITER:
                yield 'mle %s %s' % (name, x.tag), (name, x)

    def doubled(self, x):
        """much smaller and larger scales"""
        base = {n: models.run(n, x) for n in spaces.CLOSED_ABS if spaces.decided(n, x)}
        for k in (2.0 ** -10, 2.0 ** -30, 2.0 ** 20):
            y = mapped(x, lambda v, e, s: v * k)
            for n, a in base.items():
                res = models.run(n, y)
                w = '%s under *%g: ' % (n, k)
                for key_ in ABS + BIAS + SPREAD:
                    if key_ in a:
                        check_same(w + key_, np.array(res[key_], float) / k, np.array(a[key_], float), 1e-9, 1e-9)
                for key_ in REJ:
                    if key_ in a:
                        check_same(w + key_, np.array(res[key_], float), np.array(a[key_], float), 1e-9, 1e-9)

    def test(self, key, p):
        kind, x = p
        h = int(core.digest(key), 16)
        if kind == 'closed':
            self.doubled(x)
            names = [n for n in spaces.CLOSED_ABS if spaces.decided(n, x)]
            if all(len(c) == 1 for row in x.cells for c in row):
                names.append('LS')
            trans = TRANS
            t = 1e-7
        elif kind == 'proj':
            if not spaces.projection_ok(x, 0.03):
                skip('projection degenerate')
                return
            names = ['MLE_CO_AP', 'P910']
            trans = TRANS
            t = 1e-5
        else:
            if not spaces.mle_ok(x, kind):
                skip('likelihood degenerate')
                return
            names = [kind]
            trans = [TRANS[h % len(TRANS)], TRANS[(h + 5) % len(TRANS)]]
            t = 1e-3
        state(x.read().key())
        base = {n: models.run(n, x) for n in names}
        outcome([n + repr(core._flat(list(base[n]['quality_scores']))) for n in names])
        for tn, f, k, c in trans:
            y = mapped(x, f)
            sc = abs(k) * 5 + abs(c)
            for n in names:
                if kind == 'closed' and n != 'LS' and not spaces.decided(n, y):
                    skip('decision near threshold')
                    continue
                o = {'delta_thr': 1e-8 * max(1.0, abs(k))} if kind in spaces.ITER else {}
                res, a = models.run(n, y, **o), base[n]
                w = '%s under %s: ' % (n, tn)
                tol = dict(rtol=t, atol=t * sc)
                check_same(w + 'quality', res['quality_scores'], [k * v + c for v in a['quality_scores']], **tol)
                if 'observer_bias' in a:
                    check_same(w + 'bias', res['observer_bias'], [k * v for v in a['observer_bias']], **tol)
                for key_ in SPREAD:
                    if key_ in a:
                        check_same(w + key_, res[key_], abs(k) * np.array(a[key_], float), **tol)
                for key_ in REJ:
                    if key_ in a:
                        check_same(w + key_, np.array(res[key_], float), np.array(a[key_], float), 1e-6, 1e-6)
        # one observer shifts on a complete panel
        if not all(len(c) == x.R and all(v == v for v in c) for row in x.cells for c in row):
            return
        S = x.S
        for s0 in sorted({0, S // 2, S - 1}):
            for c in (2, -0.75, 40):
                y = mapped(x, lambda v, e, s: v + c if s == s0 else v)
                for n in names:
                    if n in ('MOS', 'SR_MOS', 'SR_MOS_PCC', 'SR_MOS_SRCC', 'BT500', 'MLE_SO'):
                        continue
                    if kind in spaces.ITER and (s0 != h % S or c == 40):
                        continue
                    if kind == 'closed' and n != 'LS' and not spaces.decided(n, y):
                        continue
                    res, a = models.run(n, y), base[n]
                    w = '%s, observer %d shifted by %g: ' % (n, s0, c)
                    tol = dict(rtol=t, atol=t * (5 + abs(c)))
                    r0 = x.read().S
                    if x.style == 'dict':
                        pos = list(x.read().names).index(x.names[s0])
                    else:
                        pos = s0
                    check_same(w + 'relative bias', rel(res['observer_bias'], [c if s == pos else 0 for s in range(r0)]), rel(a['observer_bias']), **tol)
                    check_same(w + 'relative quality', rel(res['quality_scores']), rel(a['quality_scores']), **tol)
                    for key_ in SPREAD:
                        if key_ in a:
                            check_same(w + key_, res[key_], a[key_], **tol)
                    if 'observer_rejected' in a:
                        check_same(w + 'rejected', [bool(v) for v in res['observer_rejected']], [bool(v) for v in a['observer_rejected']])


def rel(v, minus=None):
    v = [float(a) - (minus[i] if minus else 0) for i, a in enumerate(v)]
    m = sum(v) / len(v)
    return [a - m for a in v]
