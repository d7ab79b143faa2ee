import contextlib, io, itertools, os, runpy, sys
import numpy as np
from mc import core, exp, models, like, spaces
from mc.exp import Exp, NAN
from mc.core import Check, outcome, state, check_same, require, transition, scratch

DEMOS = {'bt500': 'itur_bt500_demo/demo_bt500.py', 'p910': 'itut_p910_demo/demo_p910.py', 'p913': 'itut_p913_demo/demo.py'}
KEYS = {'mos_j': 'quality_scores', 'sos_j': 'quality_scores_std', 'bias_i': 'observer_bias', 'inconsistency_i': 'observer_inconsistency'}


def csv_of(T, fmt):
    """the demos' input: one matrix per repetition, separated by a row holding a single comma"""
    R = len(T[0][0])
    blocks = []
    for r in range(R):
        blocks.append('\n'.join(','.join('nan' if exp.isnan(c[r]) else fmt(c[r]) for c in row) for row in T) + '\n')
    return ',\n'.join(blocks)


def run_demo(which, text):
    """run the program the way a user does and read what it prints"""
    f = scratch('in.csv')
    with open(f, 'w') as g:
        g.write(text)
    argv, out = sys.argv, io.StringIO()
    sys.argv = ['demo', '--input-csv', f]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(core.REPO, DEMOS[which]), run_name='__main__')
    finally:
        sys.argv = argv
    s = out.getvalue()
    return eval(s[s.index('{'):], {'nan': NAN, 'inf': float('inf'), 'np': np, 'array': np.array})


class CHECK(Check):
    case_timeout = 120
    rule = ('each of the three stand-alone programs run on the CSV form of every table of the space: all tables one vote away (any cell, any '
            'vote, missing) from base tables, a lattice of sizes x missing patterns x repetitions x scales; the printed result compared '
            'with the package\'s P.910 model on the same votes and with an independent reference of the algorithm')
    assumptions = ['tables on which the alternating projection converges and rounding does not decide which observer dominates']

    def cases(self, tier):
        t = tier != 'quick'
        seen = set()

        def space():
            bases = [exp.realistic(6, 5, quant=1.0, seed=11, spread=1.2).but(tag='base6x5'), exp.realistic(5, 7, quant=1.0, seed=5, spread=1.2).but(tag='base5x7'),
                     exp.realistic(8, 4, quant=0.5, seed=3, spread=1.0).but(tag='base8x4')]
            for b in bases:
                yield from exp.deviations(b, tuple((v,) for v in (1, 2, 3, 4, 5)) + ((),), 1 if not t else 2)
            b = exp.realistic(5, 5, 'ragged', 'nanrep', quant=1.0, seed=7, spread=1.2).but(tag='rep5x5')
            yield from exp.deviations(b, ((1,), (5,), (3,), (), (2, 4), (NAN, 3), (3, 3, 1)), 1 if not t else 2)
            yield from exp.real_lattice(((4, 3), (5, 6), (9, 4), (12, 11)) + (((30, 26), (3, 40), (60, 3)) if t else ()), ('none', 'all2', 'ragged', 'obs2'),
                                        ('none', 'diag', 'half', 'obs', 'vid', 'nanrep'), ('one',), ('list',), quants=(1.0, 0.25, None), spreads=(1.0, 20.0) if not t else (1.0, 20.0, 0.05))
        for x in space():
            if x.key() in seen or not x.all_votes_nonempty():
                continue
            seen.add(x.key())
            yield x.tag, x

    def test(self, key, x):
        T = x.T()
        X = like.arr(T)
        q, b, vi, vj, it = like.p910(X)
        if it > 990 or not np.all(np.isfinite(q)):
            core.skip('projection does not converge')
            return
        for k in range(3):
            # rounding must not decide which observer dominates
            rs = np.random.RandomState(k)
            p = like.p910(X * (1 + 1e-11 * rs.uniform(-1, 1, X.shape)))
            if any(np.max(np.abs(u - v)) > 1e-8 * (1 + np.nanmax(np.abs(X))) for u, v in zip(p[:4], (q, b, vi, vj))):
                core.skip('result decided by rounding')
                return
        state(T)
        n = np.array([sum(not exp.isnan(v) for c in row for v in c) for row in T])
        want = {'mos_j': q + b.mean(), 'sos_j': vj / np.sqrt(n), 'bias_i': b - b.mean(), 'inconsistency_i': vi}
        for name in ('P910', 'MLE_CO_AP2'):
            res = models.run(name, x)
            for k, kk in KEYS.items():
                check_same('%s %s against the reference' % (name, kk), res[kk], want[k], 1e-6, 1e-7)
        fmts = (repr,) if any(v != round(v) for row in T for c in row for v in c if not exp.isnan(v)) else (repr, lambda v: '%d' % v)
        for d in DEMOS:
            if d != 'bt500' and x.R > 1:
                continue
            for fmt in fmts:
                got = run_demo(d, csv_of(T, fmt))
                transition()
                require(set(KEYS) <= set(got), '%s demo printed %s' % (d, sorted(got)))
                for k, kk in KEYS.items():
                    check_same('%s demo %s against the package' % (d, k), got[k], res[kk], 1e-6, 1e-7)
        outcome([list(want['mos_j']), list(want['sos_j'])])
