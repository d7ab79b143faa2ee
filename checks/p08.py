import numpy as np
import sureal
from mc import core, exp, models, ref, like
from mc.core import Check, outcome, state, skip, check_same, require


class CHECK(Check):
    rule = ('every experiment of small grids, lattice and screening space: the real projection models (both interval variants, '
            'P.910, with and without zero-mean bias, with differential scoring) are compared with an independent implementation '
            'of the standard iteration, the fixed-point equations are evaluated on the reported estimates, and the deviations '
            'and intervals recomputed from reported inconsistency and vote counts. Outside the domain: experiments on which the '
            'standard iteration does not converge or an inconsistency vanishes')
    NAMES = ('Subject_MLE_Projection', 'Subject_MLE_Projection2', 'MLE_CO_AP', 'MLE_CO_AP2', 'P910')

    def cases(self, tier):
        n = 0
        for x in exp.zoo(tier):
            yield x.tag, x
        for x in exp.zoo('quick', refs=True, big=False, alphabets=(exp.ACR, exp.CONT)):
            if len(set(x.content)) == x.nc:
                yield 'ref ' + x.tag, x
        for i, x in enumerate(exp.screening('quick')):
            if i % 7 == 0:
                yield x.tag, x

    def test(self, key, x):
        T = x.T()
        opts = {}
        if x.refs:
            T = ref.dscore(T, x.content, x.refs, x.ref_score)
            opts['dscore_mode'] = True
        X = like.arr(T)
        E, S, R = X.shape
        with np.errstate(all='ignore'):
            q, b, vi, vj, it = like.p910(X)
        if it >= 900 or not np.all(np.isfinite(q)):
            skip('does not converge')
            return
        if np.min(vi) < 1e-2 * (np.nanmax(X) - np.nanmin(X) + 1e-300):
            skip('vanishing inconsistency')
            return
        state(x.read().key())
        nj, ni = like.counts(X)
        scale = max(1.0, float(np.nanmax(np.abs(X))))
        tol = dict(rtol=1e-5, atol=2e-6 * scale)
        first = self.NAMES[int(core.digest(key), 16) % len(self.NAMES)]
        second = 'MLE_CO_AP' if first in ('P910', 'Subject_MLE_Projection2', 'MLE_CO_AP2') else 'P910'
        for name, zm in [(first, True), (second, True), (first, False)]:
            o = dict(opts)
            if not zm:
                o['force_subjbias_zeromean'] = False
            res = models.run(name, x, **o)
            m = float(np.mean(b)) if zm else 0.0
            check_same(name + ' quality', res['quality_scores'], q + m, **tol)
            check_same(name + ' bias', res['observer_bias'], b - m, **tol)
            check_same(name + ' inconsistency', res['observer_inconsistency'], vi, **tol)
            qq, bb, vv = (np.array(res[k], float) for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'))
            if zm:
                require(abs(bb.mean()) < 1e-6 * scale, name + ': bias is not zero-mean')
            # fixed point
            r = X - qq[:, None, None] - bb[None, :, None]
            check_same(name + ' bias is the mean residue', [np.nanmean(r[:, s]) for s in range(S)], [0.0] * S, 0, 1e-6 * scale)
            check_same(name + ' inconsistency is the residue deviation', [np.nanstd(r[:, s]) for s in range(S)], vv, **tol)
            w = (1 / (vv ** 2 + 1e-8))[:, None] * np.ones((S, R))
            check_same(name + ' quality is the weighted mean', qq, [np.nansum((X[e] - bb[:, None]) * w) / w[~np.isnan(X[e])].sum() for e in range(E)], **tol)
            # deviations and intervals
            if name in ('Subject_MLE_Projection', 'MLE_CO_AP'):
                sd = [1 / np.sqrt(sum(np.sum(~np.isnan(X[e, s])) / vv[s] ** 2 for s in range(S))) for e in range(E)]
            else:
                sd = np.array([np.nanstd(r[e]) for e in range(E)]) / np.sqrt(nj)
            check_same(name + ' quality deviation', res['quality_scores_std'], sd, **tol)
            bs = vv / np.sqrt(ni)
            check_same(name + ' bias deviation', res['observer_bias_std'], bs, **tol)
            check_same(name + ' inconsistency deviation', res['observer_inconsistency_std'], vv / np.sqrt(2 * ni), 1e-4, 1e-5 * scale)
            for k in ('quality_scores', 'observer_bias'):
                h = 1.95996 * np.array(res[k + '_std'])
                check_same('%s %s interval' % (name, k), res[k + '_ci95'], [h, h], 1e-9, 1e-9)
            check_same(name + ' inconsistency interval', res['observer_inconsistency_ci95'], like.chi_ci(vv, ni), 1e-6, 1e-9)
            check_same(name + ' observer means', res['observer_scores_mean'], [np.nanmean(X[:, s]) for s in range(S)])
            check_same(name + ' observer deviations', res['observer_scores_std'], [np.nanstd(X[:, s]) for s in range(S)])
        outcome(q)
