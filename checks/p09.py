import itertools
import numpy as np
from mc import core, exp, models, ref, like
from mc.core import Check, outcome, state, skip, check_same, require

MODE = {'MLE': 'FULL', 'MLE_CO': 'CO', 'MLE_SO': 'SO', 'DMOS_MLE': 'FULL', 'DMOS_MLE_CO': 'CO', 'MLE_legacy': 'CO'}


def space(tier):
    q = tier == 'quick'
    sizes = ((10, 12), (12, 16), (20, 10)) + (() if q else ((12, 20), (21, 5), (30, 9)))
    return list(exp.real_lattice(sizes, ('none', 'ragged', 'obs2'), ('none', 'diag', 'obs') if q else ('none', 'diag', 'half', 'obs'), ('alt', 'blk') if q else ('alt', 'blk', 'rev'),
                                 quants=(0.25,) if q else (0.25, None), spreads=(1.0,) if q else (1.0, 20.0)))


def hash_(s):
    return int(core.digest(s), 16)


class CHECK(Check):
    case_timeout = 300
    rule = ('every experiment of a feature lattice (size, scale, repetitions, missing votes, style, content layout) times model '
            'times gradient option on which the published iteration converges: score equations (gradient of the Gaussian '
            'log-likelihood) evaluated independently at the reported estimates, estimates of the gradient options compared, '
            'deviations recomputed from the curvature and intervals from the deviations and vote counts')

    def cases(self, tier):
        xs = space(tier)
        for i, x in enumerate(xs):
            for name in ('MLE', 'MLE_CO', 'MLE_SO'):
                yield '%s %s' % (name, x.tag), (name, x, {}, 'est')
            if x.R == 1:
                yield 'MLE_legacy ' + x.tag, ('MLE_legacy', x, {}, 'est')
                yield 'MLE_legacy log ' + x.tag, ('MLE_legacy', x, dict(use_log=True), 'est')
            if i % (4 if tier == 'quick' else 2) == 0:
                yield 'nozero ' + x.tag, (('MLE', 'MLE_CO')[(i // 4) % 2], x, dict(force_subjbias_zeromean=False), 'est')
                for name in ('MLE', 'MLE_CO', 'MLE_SO'):
                    yield 'orig %s %s' % (name, x.tag), (name, x, dict(gradient_method='original'), 'est')
            if i % 8 == 0 and x.E <= 12:
                for name in ('MLE', 'MLE_CO', 'MLE_SO'):
                    yield 'num %s %s' % (name, x.tag), (name, x, dict(gradient_method='numerical'), 'est')
        for x in exp.real_lattice(((10, 12), (20, 10)), ('none', 'ragged'), ('none', 'diag'), ('alt', 'blk')):
            y = x.but(content=tuple(c + (c > 0) for c in x.content), nc=x.nc + 2)
            for name in ('MLE', 'MLE_SO'):
                yield 'unrated %s %s' % (name, x.tag), (name, y, {}, 'est')
        for x in exp.real_lattice(((70, 14), (14, 70)), ('none', 'obs2'), ('none', 'diag'), ('blk',)):
            for name in ('MLE', 'MLE_CO', 'MLE_SO'):
                yield 'large %s %s' % (name, x.tag), (name, x, {}, 'est')
        i = 0
        for x in exp.real_lattice(((10, 12), (15, 10)), ('none', 'obs2'), ('none', 'diag'), ('alt', 'blk'), refs=True):
            i += 1
            yield 'dmos ' + x.tag, (('DMOS_MLE', 'DMOS_MLE_CO')[i % 2], x.but(ref_score=(5.0, 100.0)[i // 2 % 2]), {}, 'est')

    def test(self, key, p):
        name, x, opts, _ = p
        T = x.T()
        init = None
        if name.startswith('DMOS'):
            init = [ref.mean(ref.of_video(T, e)) for e in range(x.E)]
            T = ref.dscore(T, x.content, x.refs, x.ref_score)
        X = like.arr(T)
        E, S, R = X.shape
        C = x.nc
        mode = MODE[name]
        scale = max(1.0, float(np.nanmax(X) - np.nanmin(X)))
        with np.errstate(all='ignore'):
            rr = like.mle_reference(X, x.content, C, mode, thr=1e-9, init=init)
        if rr is None:
            skip('published iteration does not converge')
            return
        rq, rb, rv, ra, it = rr
        var = np.add.outer(ra[list(x.content)] ** 2, rv ** 2)
        if var.min() < (0.01 * scale) ** 2:
            skip('vanishing variance ' + name)
            return
        if max(rv.max(), ra.max()) > 3 * scale:
            skip('diverging scale parameter')
            return
        g = like.derivs(X, rq, rb, rv, ra, x.content)
        state((name, x.read().key(), sorted(opts.items())))
        o = dict(opts)
        if name != 'MLE_legacy':
            o['delta_thr'] = 1e-9
        if opts.get('gradient_method') == 'numerical':
            o['delta_thr'] = 1e-8
        if hash_(key) % 5 == 0:
            o.pop('delta_thr', None)
        res = models.run(name, x, **o)
        q = np.array(res['quality_scores'], float)
        require(len(q) == E, 'one quality per video')
        zm = opts.get('force_subjbias_zeromean', True)
        if mode == 'SO':
            for k in res:
                require(not k.startswith('observer_') , name + ' reports ' + k)
            b, v = np.zeros(S), np.zeros(S)
        else:
            b, v = np.array(res['observer_bias'], float), np.array(res['observer_inconsistency'], float)
            require(len(b) == S and len(v) == S, 'one bias and inconsistency per observer')
            if zm:
                require(abs(b.mean()) < 1e-6 * scale, 'bias is not zero-mean: %g' % b.mean())
        if mode == 'CO':
            for k in res:
                require(not k.startswith('content_'), name + ' reports ' + k)
            a = np.zeros(C)
        else:
            a = np.array(res['content_ambiguity'], float)
            require(len(a) == C, 'one ambiguity per content')
        require(np.all(np.isfinite(np.concatenate([q, b, v, a[sorted(set(x.content))]]))), 'undefined estimates')
        d = like.derivs(X, q, b, v, a, x.content)
        # Newton step left in every parameter: how far from stationary the reported value is, in score units
        lim = {'q': 2e-4, 'b': 2e-4, 'v': 5e-3, 'a': 5e-3}
        if opts.get('gradient_method') == 'numerical':
            lim = {k: 10 * z for k, z in lim.items()}
        on = {'q': True, 'b': mode != 'SO', 'v': mode != 'SO', 'a': mode != 'CO'}
        val = {'v': v, 'a': a}
        # how close the published iteration itself gets to stationarity on this experiment
        for blk in 'qbva':
            if not on[blk]:
                continue
            gr, cu = d[blk]
            for i in range(len(gr)):
                if blk in 'va' and val[blk][i] < 0.03 * scale:
                    continue      # on (or approaching) the boundary of the parameter range
                gref, cref = g[blk][0][i], g[blk][1][i]
                n = max(abs(cref), abs(cu[i]), 1e-12)
                own = abs(gref) / n
                core.CTX.validated += 1
                if abs(gr[i]) / n > lim[blk] * scale + 20 * own:
                    raise core.Violation('%s: not stationary in %s[%d]: gradient %g, curvature %g, value %r (the published iteration leaves %g)'
                                         % (name, blk, i, gr[i], cu[i], (q, b, v, a)['qbva'.index(blk)][i], gref))
        # all methods / thresholds of the same likelihood reach the same estimates (of the two parts of a variance at least the sum)
        shift = float(rb.mean()) if (zm and mode != 'SO') else 0.0
        if 'delta_thr' in o:
            loose = 10 if opts.get('gradient_method') == 'numerical' else 1
            tot = np.add.outer(np.where(np.isfinite(a), a, 0)[list(x.content)] ** 2, v ** 2)
            check_same(name + ' quality (any)', q, rq + shift, rtol=1e-6, atol=1e-4 * loose * scale)
            if mode != 'SO':
                check_same(name + ' bias (any)', b, rb - shift, rtol=1e-6, atol=1e-4 * loose * scale)
            check_same(name + ' total variance', tot, var, rtol=2e-3 * loose, atol=1e-9)
        if min([r for r in list(rv) * (mode != 'SO') + [ra[c] for c in set(x.content)] * (mode != 'CO')]) > 0.05 * scale:
            t = dict(rtol=1e-3, atol=2e-3 * scale) if opts.get('gradient_method') == 'numerical' or 'delta_thr' not in o else dict(rtol=1e-4, atol=2e-4 * scale)
            check_same(name + ' quality', q, rq + shift, **t)
            if mode != 'SO':
                check_same(name + ' bias', b, rb - shift, **t)
            t['atol'] *= 5
            if mode != 'SO':
                check_same(name + ' inconsistency', v, rv, **t)
            if mode != 'CO':
                u = sorted(set(x.content))
                check_same(name + ' ambiguity', a[u], ra[u], **t)
        outcome([name, q], 4)
        if name == 'MLE_legacy':
            require(set(res) <= {'quality_scores', 'observer_bias', 'observer_inconsistency', 'observers'}, 'unexpected keys')
            return
        # deviations and intervals
        num = opts.get('gradient_method') == 'numerical'
        t = dict(rtol=2e-3, atol=1e-5 * scale) if not num else dict(rtol=3e-2, atol=1e-3 * scale)
        check_same(name + ' processed votes', res['raw_scores'], T)
        check_same(name + ' quality deviation', res['quality_scores_std'], 1 / np.sqrt(-d['q'][1]), **t)
        groups = ['quality_scores']
        nj, ni = like.counts(X)
        if mode != 'SO':
            check_same(name + ' bias deviation', res['observer_bias_std'], 1 / np.sqrt(-d['b'][1]), **t)
            self.curv(name + ' inconsistency deviation', res['observer_inconsistency_std'], d['v'][1], v, scale, num)
            check_same(name + ' inconsistency interval', res['observer_inconsistency_ci95'], like.chi_ci(v, ni), 1e-6, 1e-9)
            groups.append('observer_bias')
        if mode != 'CO':
            u = sorted(set(x.content))
            self.curv(name + ' ambiguity deviation', np.array(res['content_ambiguity_std'])[u], d['a'][1][u], a[u], scale, num)
            groups.append('content_ambiguity')
            for c in range(C):
                if c not in u:        # nothing is known about a content none of whose videos were rated
                    sd = res['content_ambiguity_std'][c]
                    require(not sd < np.inf, '%s: content %d has no votes but ambiguity deviation %r' % (name, c, sd))
                    require(not sd < 0, '%s: negative ambiguity deviation %r of content %d' % (name, sd, c))
        for k in groups:
            h = 1.95996 * np.array(res[k + '_std'], float)
            check_same('%s %s interval' % (name, k), res[k + '_ci95'], [h, h], 1e-9, 1e-9)

    def curv(self, what, got, cu, val, scale, num):
        for i, (s, c) in enumerate(zip(got, cu)):
            if c < -0.05 / scale ** 2 and val[i] > 0.05 * scale:
                check_same('%s[%d]' % (what, i), s, 1 / np.sqrt(-c), 3e-2 if not num else 0.1, 1e-3 * scale)
