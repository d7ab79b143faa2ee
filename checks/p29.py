import itertools, math
import numpy as np
from mc import core, exp, models, nondet, spaces
from mc.exp import Exp, NAN
from sureal.dataset_reader import SelectSubjectRawDatasetReader, MissingDataRawDatasetReader
from mc.core import Check, outcome, state, check_same, require, transition

BASE = {'MLE_BSTP': 'MLE', 'MLE_CO_BSTP': 'MLE_CO'}
CI_S = ('quality_scores_ci95',)
CI_V = ('observer_bias_ci95', 'observer_inconsistency_ci95')


def pct(v, p):
    """percentile with linear interpolation between order statistics"""
    v = sorted(v)
    k = (len(v) - 1) * p / 100.0
    f = int(math.floor(k))
    c = min(f + 1, len(v) - 1)
    return v[f] + (v[c] - v[f]) * (k - f)


def sub_observers(x, sel):
    return Exp([[row[s] for s in sel] for row in x.cells], content=x.content, nc=x.nc, style='list')


def sub_videos(x, sel):
    return Exp([x.cells[e] for e in sel], content=[x.content[e] for e in sel], nc=x.nc, style='list')


def reference(base, x, subj, vids, **opts):
    """intervals from the given resamples; x already in reading order"""
    opts = dict(opts, force_subjbias_zeromean=False)
    r0 = models.run(base, x.but(style='list'), **opts)
    q0, b0, v0 = (np.array(r0[k], float) for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'))
    out = {}
    qs = []
    for sel in subj:
        r = models.run(base, sub_observers(x, sel), **opts)
        off = sum(r['observer_bias'][k] - b0[s] for k, s in enumerate(sel)) / len(sel)
        qs.append([q + off for q in r['quality_scores']])
    bs, vs = [], []
    for sel in vids:
        r = models.run(base, sub_videos(x, sel), **opts)
        off = sum(r['quality_scores'][k] - q0[e] for k, e in enumerate(sel)) / len(sel)
        bs.append([b + off for b in r['observer_bias']])
        vs.append(list(r['observer_inconsistency']))

    def ci(est, boots):
        cols = list(zip(*boots))
        return [[est[i] - pct(c, 2.5) for i, c in enumerate(cols)], [pct(c, 97.5) - est[i] for i, c in enumerate(cols)]]
    if subj:
        out['quality_scores_ci95'] = ci(q0, qs)
    if vids:
        out['observer_bias_ci95'] = ci(b0, bs)
        out['observer_inconsistency_ci95'] = ci(v0, vs)
    return out


def real_draws(n, k):
    return [[int(v) for v in np.random.RandomState(i).choice(n, size=n, replace=True)] for i in range(k)]


class CHECK(Check):
    case_timeout = 300
    rule = ('(a) controlled resampling: every sequence of drawn observers, and of drawn videos, for one resample on tiny panels and every '
            'pair of resamples on the smallest; (b) the seeded draws on panels with missing and repeated votes, 1-3 resamples (thorough: '
            'up to the default 30), lists and dictionaries, permuted video numbering, zero-mean forcing on and off, each switch; '
            'reference: plain likelihood model run on independently built resampled datasets, offset alignment and interpolated percentiles')
    assumptions = ['every resample leaves each observer at least one vote']

    def tiny(self):
        a = [[4, 2, 5], [3, 1.5, 3], [5, 3.5, 4], [1, 2, 3]]
        b = [[4, 2], [1, 3.5], [5, 2.5]]
        return {'a': exp.from_table(a, content=(0, 1, 0, 1), nc=2, style='list'),
                'ad': exp.named(exp.from_table(a, content=(0, 1, 1, 0), nc=2, style='dict').but(asset_ids=(2, 0, 3, 1)), 'rev'),
                'b': exp.from_table(b, content=(0, 1, 0), nc=2, style='list')}

    def cases(self, tier):
        t = tier != 'quick'
        for name in BASE:
            for k, n, what in (('b', 1, 'subjects'), ('b', 1, 'videos'), ('b', 2, 'subjects')) + ((('a', 1, 'subjects'), ('ad', 1, 'subjects'), ('ad', 1, 'videos'), ('a', 1, 'videos')) if (t or name == 'MLE_CO_BSTP') else ()):
                x = self.tiny()[k]
                m = x.S if what == 'subjects' else x.E
                for first in itertools.product(range(m), repeat=min(2, m)):
                    yield 'draw/%s/%s/%s/%d/%s' % (name, k, what, n, first), ('draw', name, k, what, n, first)
        pool = spaces.mle_pool()
        for name in BASE:
            for i, x in enumerate(pool):
                if not t and i % 2 != (name == 'MLE_BSTP') and i > 1:
                    continue
                for n in ((1, 3) if not t else (1, 2, 3, 7)):
                    for sub, vid in ((True, True), (True, False), (False, True), (False, False), (None, None)):
                        if n == 1 and sub is None or n == 3 and not t and not (sub or sub is None):
                            continue
                        for zm in ((True, False) if t else ((None,) if n == 3 else (True, False))):
                            yield 'seed/%s/%d/%d/%s/%s/%s' % (name, i, n, sub, vid, zm), ('seed', name, x, n, sub, vid, zm)
        for name in BASE:
            for what in ('subjects', 'videos'):
                yield 'more/%s/%s' % (name, what), ('seed', name, self.tiny()['a'], 34, what == 'subjects', what == 'videos', None)
            for rd in ('selected', 'missing'):
                for i in (2, 4):
                    yield 'reader/%s/%s/%d' % (name, rd, i), ('reader', name, pool[i], rd)
            for i in range(3):
                yield 'dscore/%s/%d' % (name, i), ('dscore', name, i)
        for name in BASE:
            for what in ('subjects', 'videos'):
                for i in (0, 2, 3, 4, 5):
                    yield 'number/%s/%s/%d' % (name, what, i), ('number', name, pool[i], what)
            for i in (2, 4) if not t else (0, 2, 3, 4, 5):
                yield 'default/%s/%d' % (name, i), ('seed', name, pool[i], None, None, None, None)

    def test(self, key, p):
        state(key)
        getattr(self, 'do_' + p[0])(*p[1:])

    def common(self, name, x, res, sub, vid, zm, **opts):
        base = models.run(BASE[name], x, **dict(opts, **({} if zm is None else {'force_subjbias_zeromean': zm})))
        for k in ('quality_scores', 'observer_bias', 'observer_inconsistency', 'content_ambiguity', 'dof', 'loglikelihood', 'aic', 'bic'):
            require((k in res) == (k in base), '%s reported by only one of %s and %s' % (k, name, BASE[name]))
            if k in base:
                check_same('%s of %s against %s' % (k, name, BASE[name]), res[k], base[k], 1e-7, 1e-7)
        for on, keys in ((sub, CI_S), (vid, CI_V)):
            for k in keys:
                require((k in res) == (on is not False), '%s %s though switched %s' % (k, 'present' if k in res else 'absent', 'off' if on is False else 'on'))

    def do_draw(self, name, k, what, n, first):
        x = self.tiny()[k]
        xr = x.read()
        m = x.S if what == 'subjects' else x.E
        opts = dict(delta_thr=1e-3)
        sub, vid = what == 'subjects', what == 'videos'

        def run(s):
            with nondet.controlled(s):
                try:
                    return models.run(name, x, n_bootstrap=n, bootstrap_subjects=sub, boostrap_dis_videos=vid, **opts)
                except ValueError as e:
                    return e
        prefix = list(first)
        while True:
            s = nondet.Script(prefix, 4)
            res = run(s)
            transition()
            t = s.trace
            if isinstance(res, ValueError) and len(t) % m == 0 and len(t) < n * m:
                # the model gave up on an earlier resample: later draws do not matter
                t += [(0, 1)] * (n * m - len(t))
            if len(t) != n * m or any(a not in (m, 1) for _, a in t):
                core.skip('resampling drawn in another way')
                return
            draws = [c for c, _ in t]
            sels = [draws[i * m:(i + 1) * m] for i in range(n)]
            state((name, k, what, tuple(draws)))
            try:
                want = reference(BASE[name], xr, sels if sub else [], sels if vid else [], **opts)
            except ValueError:
                core.skip('the likelihood has no maximum on this resample')
                want = None
            else:
                if isinstance(res, ValueError):
                    raise res
            for kk, w in (want or {}).items():
                check_same('%s with resamples %s' % (kk, sels), [list(v) for v in res[kk]], w, 1e-6, 1e-6)
            if t[-1][0] == 0 and want:
                self.common(name, x, res, sub, vid, None, **opts)
            outcome(sorted((want or {}).items()))
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if len(t) <= len(first):
                return
            prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]

    def do_reader(self, name, x, rd):
        """on a reader that changes the votes, the changed votes are resampled"""
        x = x.read()
        ds = x.but(style='list').dataset()
        if rd == 'selected':
            sel = list(range(x.S))[::-1][:-1]
            reader = SelectSubjectRawDatasetReader(ds, input_dict={'selected_subjects': sel})
            y = sub_observers(x, sel)
        else:
            reader = MissingDataRawDatasetReader(ds, input_dict={'missing_probability': 0.05, 'seed': 11})
            A = reader.opinion_score_3darray.tolist()
            y = Exp([[tuple(v for v in c if v == v) for c in row] for row in A], content=x.content, nc=x.nc, style='list')
        opts = dict(delta_thr=1e-3)
        transition()
        try:
            want = reference(BASE[name], y, real_draws(y.S, 2), real_draws(y.E, 2), **opts)
        except ValueError:
            core.skip('the likelihood has no maximum on one of the resamples')
            return
        res = models.cls_of(name)(reader).run_modeling(n_bootstrap=2, **opts)
        for k, w in want.items():
            check_same('%s of %s on a reader (%s)' % (k, name, rd), [list(v) for v in res[k]], w, 1e-6, 1e-6)
        outcome(sorted(want.items()))

    def do_dscore(self, name, i):
        """options of the model also hold for its resamples; every resample of observers keeps the references"""
        a = [[4, 2, 5, 3], [3, 1.5, 3, 2], [5, 3.5, 4, 4], [1, 2, 3, 1.5], [4.5, 5, 5, 4]]
        x = exp.from_table(a, content=(0, 1, 0, 1, 1), nc=2, style=('list', 'dict', 'list')[i]).but(refs=((2, 4), (0, 3), (2, 1))[i])
        x = x.read()
        opts = dict(delta_thr=1e-3, dscore_mode=True)
        transition()
        ref_ = dict(opts, force_subjbias_zeromean=False)
        run = lambda sel: models.run(BASE[name], Exp([[row[s] for s in sel] for row in x.cells], content=x.content, nc=x.nc, style='list', refs=x.refs), **ref_)
        r0 = models.run(BASE[name], x.but(style='list'), **ref_)
        qs = []
        try:
            for sel in real_draws(x.S, 3):
                r = run(sel)
                off = sum(r['observer_bias'][k] - r0['observer_bias'][s] for k, s in enumerate(sel)) / len(sel)
                qs.append([q + off for q in r['quality_scores']])
        except ValueError:
            core.skip('the likelihood has no maximum on one of the resamples')
            return
        res = models.run(name, x, n_bootstrap=3, bootstrap_subjects=True, boostrap_dis_videos=False, **opts)
        cols = list(zip(*qs))
        q0 = r0['quality_scores']
        check_same('quality intervals of %s with differential scores' % name, [list(v) for v in res['quality_scores_ci95']],
                   [[q0[i] - pct(c, 2.5) for i, c in enumerate(cols)], [pct(c, 97.5) - q0[i] for i, c in enumerate(cols)]], 1e-6, 1e-6)
        outcome(cols)

    def do_number(self, name, x, what):
        """without a number of resamples there are 30"""
        kw = dict(delta_thr=0.05, bootstrap_subjects=what == 'subjects', boostrap_dis_videos=what == 'videos')
        transition()
        a, b = models.run(name, x, **kw), models.run(name, x, n_bootstrap=30, **kw)
        for k in b:
            if k.endswith('_ci95'):
                check_same('%s of %s with the default number of resamples' % (k, name), a[k], b[k], 1e-9, 1e-12)
        outcome([name, what, a['quality_scores']])

    def do_seed(self, name, x, n, sub, vid, zm):
        opts = dict(delta_thr=1e-4)
        kw = dict(opts)
        for k, v in (('n_bootstrap', n), ('bootstrap_subjects', sub), ('boostrap_dis_videos', vid), ('force_subjbias_zeromean', zm)):
            if v is not None:
                kw[k] = v
        nn = 30 if n is None else n
        xr = x.read()
        try:
            want = reference(BASE[name], xr, real_draws(xr.S, nn) if sub is not False else [], real_draws(xr.E, nn) if vid is not False else [], **opts)
        except ValueError:
            core.skip('the likelihood has no maximum on one of the resamples')
            return
        names = ['s%02d' % ((7 * s + 3) % 17) for s in range(xr.S)]
        variants = [x, xr.but(style='list', asset_ids=[(e * 3 + 1) % xr.E if xr.E % 3 else xr.E - 1 - e for e in range(xr.E)])]
        for i, y in enumerate(variants):
            np.random.seed(1000 + i)
            res = models.run(name, y, **kw)
            transition()
            for k, w in want.items():
                check_same('%s of %s, variant %d' % (k, name, i), [list(v) for v in res[k]], w, 1e-6, 1e-6)
            self.common(name, y, res, sub, vid, zm, **opts)
        outcome(sorted((k, v) for k, v in want.items()))
