import math
import numpy as np
from mc import core, exp, models, ref, like
from mc.core import Check, outcome, state, skip, check_same, require, scratch, transition
import sureal.routine as routine
from sureal.dataset_reader import DatasetReader

MOSF = tuple(models.PIPE)
LOGTOL = 3e-3


def logistic2(x, s1, s2):
    w = 60 * max(s1, s2)
    t = np.linspace(-w, w, 60001)
    f = 1 / (4 * s1) / np.cosh(np.clip(t / 2 / s1, -300, 300)) ** 2
    g = 1 / (4 * s2) / np.cosh(np.clip((x - t) / 2 / s2, -300, 300)) ** 2
    return float((f * g).sum() * (t[1] - t[0]))


class CHECK(Check):
    case_timeout = 300
    rule = ('every experiment of small grids and lattice times every rating model that reports fit statistics: dof, likelihood, '
            'AIC, BIC and reconstructions recomputed from the reported parameters and processed votes; reconstruction error and '
            'correlations of the run routine recomputed on files written for a sub-lattice')

    def cases(self, tier):
        i = 0
        for x in exp.zoo(tier):
            yield 'mos ' + x.tag, ('mos', x)
            i += 1
            if i % 3 == 0:
                yield 'ap ' + x.tag, ('ap', x)
        for x in exp.zoo('quick', refs=True, big=False, alphabets=(exp.ACR, exp.PCT)):
            if len(set(x.content)) == x.nc:
                yield 'dmos ' + x.tag, ('dmos', x)
        for x in exp.real_lattice(((8, 7), (6, 12)), ('none', 'ragged'), ('none', 'diag'), ('alt', 'blk', 'one') if tier != 'quick' else ('blk',), refs=True):
            yield 'mle ' + x.tag, ('mle', x)
        for x in exp.screening('quick'):
            if 'edge12/+-' in x.tag or 'rep' in x.tag or 'flat30' in x.tag:
                yield 'mos ' + x.tag, ('mos', x)
        for x in exp.real_lattice(((5, 6), (8, 4)), ('none', 'ragged', 'all2'), ('none', 'diag', 'vid'), ('alt',), quants=(1.0, None), refs=True):
            yield 'run ' + x.tag, ('run', x)

        for x in exp.real_lattice(((4, 3), (3, 5)), ('none', 'all2'), ('none', 'diag', 'vid'), ('alt', 'one'), refs=True):
            for name in ('MLE', 'MLE_CO', 'MLE_SO'):
                for pdf in ('uniform', 'logistic'):
                    if (pdf == 'uniform' or (x.R == 1 and name == 'MLE')):
                        yield 'pdf %s %s %s' % (pdf, name, x.tag), ('pdf', x, pdf, name)

    def test(self, key, p):
        if p[0] == 'pdf':
            return self.other_pdf(*p[1:])
        kind, x = p
        T0 = x.T()
        n0 = sum(1 for row in T0 for c in row for v in c if not math.isnan(v))
        E, S, R = ref.dims(T0)
        if kind in ('mos', 'dmos'):
            state((kind, x.read().key()))
            names = [n for n in MOSF if (models.PIPE[n][0] == 1) == (kind == 'dmos')]
            for name in names:
                d, z, b, scr = models.PIPE[name]
                if z and any(len(set(ref.of_observer(T0, s))) < 2 for s in range(S)):
                    continue
                if scr in ('pearson', 'spearman') and (E < 2 or any(sum(1 for e in range(E) if ref.nn(T0[e][s])) < 2 for s in range(S))):
                    continue
                res = models.run(name, x)
                P = np.asarray(res['raw_scores'], float)
                if P.shape[1] == 0:
                    skip('everyone rejected')
                    continue
                q, sd = res['quality_scores'], res['quality_ambiguity']
                rec = np.ones_like(P) * np.array(q, float)[:, None, None]
                check_same(name + ' reconstructions', res['reconstructions'], rec)
                nP = sum(2 for _ in range(E)) + (S * R if b else 0)
                dof = nP / n0
                check_same(name + ' dof', res['dof'], dof)
                if all(s == s and s > 1e-6 for s in sd):
                    ll = [ref.loggauss(P[e, s, r], q[e], sd[e]) for e in range(E) for s in range(P.shape[1]) for r in range(R)
                          if not math.isnan(P[e, s, r])]
                    self.crit(name, res, math.fsum(ll) / len(ll), dof, n0)
                    outcome([name, res['bic']])
                else:
                    skip('degenerate likelihood')
        elif kind == 'ap':
            X = like.arr(T0)
            with np.errstate(all='ignore'):
                q, b, vi, vj, it = like.p910(X)
            if it >= 900 or not np.all(np.isfinite(q)) or vi.min() < 1e-2:
                skip('degenerate likelihood')
                return
            state((kind, x.read().key()))
            for name in ('MLE_CO_AP', 'P910'):
                res = models.run(name, x)
                q, b, v = (np.array(res[k], float) for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'))
                check_same(name + ' votes', res['raw_scores'], T0)
                check_same(name + ' reconstructions', res['reconstructions'], (q[:, None, None] + b[None, :, None]) * np.ones_like(X))
                dof = (E + 2 * S * R) / n0
                check_same(name + ' dof', res['dof'], dof)
                self.crit(name, res, like.loglik(X, q, b, v, np.zeros(x.nc), x.content) / n0, dof, n0)
            outcome([name, res['bic']])
        elif kind == 'mle':
            state((kind, x.read().key()))
            C = x.nc
            for name, np_ in (('MLE', E + 2 * S * R + C), ('MLE_CO', E + 2 * S * R), ('MLE_SO', E + C), ('DMOS_MLE', E + 2 * S * R + C),
                              ('DMOS_MLE_CO', E + 2 * S * R)):
                res = models.run(name, x, delta_thr=1e-3)
                T = ref.dscore(T0, x.content, x.refs, x.ref_score) if name.startswith('D') else T0
                X = like.arr(T)
                q = np.array(res['quality_scores'], float)
                b = np.array(res.get('observer_bias', np.zeros(S)), float)
                v = np.array(res.get('observer_inconsistency', np.zeros(S)), float)
                a = np.array(res.get('content_ambiguity', np.zeros(C)), float)
                check_same(name + ' votes', res['raw_scores'], T)
                check_same(name + ' reconstructions', res['reconstructions'], (q[:, None, None] + b[None, :, None]) * np.ones_like(X))
                check_same(name + ' dof', res['dof'], np_ / n0)
                if (np.add.outer(a[list(x.content)] ** 2, v ** 2)).min() < 1e-6:
                    skip('degenerate likelihood')
                    continue
                self.crit(name, res, like.loglik(X, q, b, v, a, x.content) / n0, np_ / n0, n0)
                outcome([name, res['bic']], 3)
        else:
            state((kind, x.read().key()))
            f = scratch('p12_%s.py' % core.digest(key))
            DatasetReader.write_out_dataset(x.dataset(), f)
            names = ['MOS', 'DMOS', 'BR_MOS', 'SR_MOS', 'BR_SR_MOS_PCC', 'ZS_MOS', 'MLE_CO_AP', 'LS'] if x.R == 1 and 'none/none' in x.tag else \
                ['MOS', 'DMOS', 'BR_MOS', 'SR_MOS', 'BR_SR_MOS_PCC', 'ZS_MOS', 'MLE_CO_AP']
            transition()
            _, ms, results = routine.run_subjective_models(f, [models.cls_of(n) for n in names])
            for n, res in zip(names, results):
                if 'reconstructions' not in res:
                    require('reconstruction_stats' not in res, n + ' has statistics without reconstructions')
                    continue
                A, B = np.ravel(res['raw_scores']), np.ravel(res['reconstructions'])
                pr = [(float(a), float(b)) for a, b in zip(A, B) if a == a and b == b]
                a, b = zip(*pr)
                st = res['reconstruction_stats']
                check_same(n + ' rmse', st['rmse'], math.sqrt(ref.mean([(u - w) ** 2 for u, w in pr])))
                check_same(n + ' cc', st['cc'], ref.pearson(a, b), 1e-7, 1e-7)
                check_same(n + ' srocc', st['srocc'], ref.spearman(a, b), 1e-7, 1e-7)
                check_same(n + ' number of compared votes', len(pr), int(np.sum(~np.isnan(A))))
                outcome([n, st['rmse']])

    def other_pdf(self, x, pdf, name):
        """a requested density other than the Gaussian is the one the reported likelihood uses"""
        T = x.T()
        X = like.arr(T)
        E, S, R = X.shape
        n0 = int(np.sum(~np.isnan(X)))
        C = x.nc
        state((pdf, name, x.read().key()))
        g = models.run(name, x, delta_thr=1e9)
        if pdf == 'logistic' and min(list(g['observer_inconsistency']) + list(g['content_ambiguity'])) < 0.1:
            skip('narrow logistic density')
            return
        res = models.run(name, x, delta_thr=1e9, numerical_pdf=pdf)
        for k in ('quality_scores', 'observer_bias', 'observer_inconsistency', 'content_ambiguity'):
            if k in g:
                check_same('%s under %s' % (k, pdf), res[k], g[k])
        q = np.array(res['quality_scores'], float)
        b = np.array(res.get('observer_bias', np.zeros(S)), float)
        v = np.array(res.get('observer_inconsistency', np.zeros(S)), float)
        a = np.array(res.get('content_ambiguity', np.zeros(C)), float)
        np_ = {'MLE': E + 2 * S * R + C, 'MLE_CO': E + 2 * S * R, 'MLE_SO': E + C}[name]
        check_same(name + ' dof', res['dof'], np_ / n0)
        ls = []
        for e in range(E):
            for s in range(S):
                for r in range(R):
                    if math.isnan(X[e, s, r]):
                        continue
                    z = X[e, s, r] - q[e] - b[s]
                    if pdf == 'uniform':
                        w1, w2 = v[s] * math.sqrt(12), a[x.content[e]] * math.sqrt(12)
                        big, small, o = max(w1, w2), min(w1, w2), (w1 + w2) / 2 - abs(z)
                        if abs(o) < 1e-6 or big < 1e-6:
                            skip('vote on the edge of a uniform density')
                            return
                        p = 0.0 if o <= 0 else (1 / big if o >= small else o / (w1 * w2))
                        ls.append(math.log(p) if p > 0 else -math.inf)
                    else:
                        k = math.sqrt(3) / math.pi
                        s1, s2 = v[s] * k, a[x.content[e]] * k
                        if min(s1, s2) < 0.05:
                            skip('narrow logistic density')
                            return
                        ls.append(math.log(logistic2(z, s1, s2)))
        ll = sum(ls) / n0
        tol = 1e-7 if pdf == 'uniform' else LOGTOL
        check_same('%s %s loglikelihood' % (name, pdf), res['loglikelihood'], ll, tol, tol)
        check_same('%s %s aic' % (name, pdf), res['aic'], 2 * np_ / n0 - 2 * ll, 2 * tol, 2 * tol)
        check_same('%s %s bic' % (name, pdf), res['bic'], math.log(n0) * np_ / n0 - 2 * ll, 2 * tol, 2 * tol)
        outcome([name, pdf, res['bic']], 3)

    def crit(self, name, res, ll, dof, n0):
        check_same(name + ' loglikelihood', res['loglikelihood'], ll, 1e-7, 1e-7)
        check_same(name + ' aic', res['aic'], 2 * dof - 2 * ll, 1e-7, 1e-7)
        check_same(name + ' bic', res['bic'], math.log(n0) * dof - 2 * ll, 1e-7, 1e-7)
