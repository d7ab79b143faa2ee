import copy, itertools, math, re
import numpy as np
from mc import core, exp, models, nondet, spaces
from mc.exp import Exp, NAN
from mc.core import Check, outcome, state, check_same, require, transition, scratch
import sureal.dataset_reader as dr
import sureal.routine as routine
from sureal.dataset_reader import DatasetReader, RawDatasetReader
from sureal.tools.misc import import_python_file
import json

LISTS = (('MOS',), ('MLE_CO_AP',), ('MOS', 'MLE_CO_AP2'), ('MLE_CO_AP2', 'BR_MOS', 'MOS'), ('MLE_CO', 'MLE_CO_AP'), ('MLE', 'SR_MOS'), ('BR_SR_MOS', 'MLE_SO', 'P910'))
PAR = ('quality_scores', 'observer_bias', 'observer_inconsistency')
AX = PAR + ('quality_scores_std', 'quality_ambiguity')


def from_array(A, content, nc):
    A = np.asarray(A, float)
    return Exp([[tuple(float(v) for v in c) if not all(math.isnan(v) for v in c) else () for c in row] for row in A.tolist()], content=content, nc=nc, style='list')


def perc(x, y, ci):
    n = sum(1 for i in range(len(x)) if y[i] - ci[0][i] <= x[i] and x[i] <= y[i] + ci[1][i])
    return 100.0 * n / len(x)


def write(x, name, kind='py'):
    f = scratch(name + '.' + kind)
    ds = x.dataset()
    if kind == 'py':
        DatasetReader.write_out_dataset(ds, f)
    else:
        with open(f, 'w') as g:
            json.dump(vars(ds), g)
    return f


def points(ax):
    """[(label, xs, ys, segments or None)] of scatters and error bars"""
    out = []
    for c in ax.containers:
        if hasattr(c, 'has_yerr'):
            line, caps, bars = c.lines
            seg = [tuple(float(p[1]) for p in s) for s in bars[0].get_segments()] if c.has_yerr else None
            out.append((c.get_label(), [float(v) for v in line.get_xdata()], [float(v) for v in line.get_ydata()], seg))
    for c in ax.collections:
        if not c.get_label().startswith('_'):
            off = np.asarray(c.get_offsets(), float)
            out.append((c.get_label(), off[:, 0].tolist(), off[:, 1].tolist(), None))
    return out


def rmse(x, y):
    return math.sqrt(sum((a - b) ** 2 for a, b in zip(x, y)) / len(x))


class CHECK(Check):
    case_timeout = 300
    rule = ('(a) coverage percentage: all truths, estimates and asymmetric half-widths over a small alphabet, 1-3 parameters; (b) validation: '
            'generators x parameter sets x missing probabilities x seeds x model lists x options, compared with running each model on the '
            'votes the generator gives, with the written dataset and with the drawn points; (c) sub-sampling: every permutation the '
            'generator may draw for small panels (controlled), and seeded draws, x every fraction x model lists x file kinds, compared '
            'with running the models on those observers only; (d) target-versus-compared scatter')
    assumptions = ['seeded runs', 'fractions of which num x fraction is not within rounding of an integer from below']

    def worker_init(self):
        import matplotlib
        matplotlib.use('Agg')

    def cases(self, tier):
        t = tier != 'quick'
        for n in ((1, 2) if not t else (1, 2, 3)):
            for y in itertools.product((0.0, 1.0, NAN), repeat=n):
                yield 'perc/%d/%s' % (n, y), ('perc', n, y)
        sizes = ((4, 3), (6, 5), (9, 12)) + (((15, 8), (5, 20)) if t else ())
        k = 0
        for (E, S), kind, miss, seed, models_ in itertools.product(sizes, ('normal', 'logistic', 'ambiguity'), (None, 0.0, 0.2), (0, 7) if not t else (0, 1, 7, 123), LISTS):
            k += 1
            if not t and k % 2 and miss == 0.0:
                continue
            yield 'valid/%dx%d/%s/%s/%d/%s' % (E, S, kind, miss, seed, '+'.join(models_)), ('valid', E, S, kind, miss, seed, models_, k)
        for (E, S) in ((3, 2), (4, 3), (3, 4)) + (((4, 5),) if t else ()):
            for frac in (0.3, 0.5, 0.67, 0.75, 0.8, 1.0):
                if int(S * frac) >= 1:
                    yield 'draw/%dx%d/%s' % (E, S, frac), ('draw', E, S, frac)
        xs = list(exp.real_lattice(((5, 6), (7, 13)) + (((9, 26),) if t else ()), ('none', 'ragged'), ('none', 'diag'), ('alt',), ('list', 'dict')))
        for i, x in enumerate(xs):
            for frac in (None, 0.25, 0.5, 0.75, 1.0) + ((0.35, 0.9) if t else ()):
                for seed in (0, 3) if not t else (0, 1, 3, 99):
                    if frac is None and seed:
                        continue
                    for ms in (('MOS',), ('P910', 'MOS'), ('BR_SR_MOS', 'SR_MOS', 'MLE_CO_AP')):
                        yield 'stats/%d/%s/%s/%s' % (i, frac, seed, '+'.join(ms)), ('stats', x, xs[(i + 3) % len(xs)], frac, seed, ms, 'json' if (i + len(ms)) % 2 else 'py')
        for i, x in enumerate(xs[:4 if not t else 8]):
            for tf, cf in ((None, None), (None, 0.5), (0.75, 0.5), (1.0, None)):
                yield 'scatter/%d/%s/%s' % (i, tf, cf), ('scatter', x, xs[(i + 1) % len(xs)], tf, cf)

    def test(self, key, p):
        state(key)
        try:
            getattr(self, 'do_' + p[0])(*p[1:])
        finally:
            import matplotlib.pyplot as plt
            plt.close('all')

    def do_perc(self, n, y):
        xs = (-1.0, -0.5, 0.0, 0.5, 1.0, 2.0) if n < 3 else (-0.5, 0.0, 2.0)
        hs = (0.0, 0.5, 1.5)
        for x in itertools.product(xs, repeat=n):
            for lo in itertools.product(hs, repeat=n):
                for hi in itertools.product(hs, repeat=n):
                    transition()
                    a = routine.get_ci_percentage({'k': list(x)}, {'k': list(y), 'e': [list(lo), list(hi)]}, 'k', 'e')
                    b = perc(x, y, (lo, hi))
                    if not core.same(float(a), b):
                        raise core.Violation('truths %s, estimates %s, half-widths %s: %s%% inside, expected %s%%' % (x, y, (lo, hi), a, b))
                    core.CTX.validated += 1
        outcome([n, y])

    def synthetic(self, kind, E, S, seed):
        q = np.array([1.5 + 3.0 * ((e * 5 + 2) % 7) / 7 for e in range(E)])
        inp = dict(quality_scores=q, observer_bias=np.array([0.2 * ((s * 3) % 5 - 2) for s in range(S)]),
                   observer_inconsistency=np.array([0.4 + 0.1 * ((s * 2) % 5) for s in range(S)]),
                   content_bias=np.array([0.0, 0.0]), content_ambiguity=np.array([0.3, 0.6]), seed=seed)
        if kind == 'ambiguity':
            inp['quality_ambiguity'] = np.array([0.1 * (1 + e % 3) for e in range(E)])
            inp['quality_scores_std'] = np.array([0.1 + 0.05 * ((e * 2) % 5) for e in range(E)])
        return inp, dr.SyntheticLogisticRawDatasetReader if kind == 'logistic' else dr.SyntheticRawDatasetReader

    def do_valid(self, E, S, kind, miss, seed, names, k):
        import matplotlib.pyplot as plt
        inp, cls = self.synthetic(kind, E, S, seed)
        x = Exp([[(1 + (e + s) % 5,) for s in range(S)] for e in range(E)], content=[e % 2 for e in range(E)], nc=2, style='dict' if k % 2 else 'list')
        f = write(x, 'base')
        # what the models must see
        A = np.array(cls(x.dataset(), input_dict=copy.deepcopy(inp)).opinion_score_3darray)
        seen = from_array(A, x.content, 2)
        if miss is not None:
            M = np.array(dr.MissingDataRawDatasetReader(seen.dataset(), input_dict={'missing_probability': miss, 'seed': seed}).opinion_score_3darray)
            seen = from_array(M, x.content, 2)
            if not seen.all_votes_nonempty() or min(sum(bool(c) for c in row) for row in seen.cells) < 2:
                core.skip('a video is left with fewer than two votes')
                return
        if any(m in ('MLE', 'MLE_CO', 'MLE_SO') for m in names) and E < 6:
            core.skip('too few votes for the likelihood models')
            return
        try:
            for m in names:
                if m in spaces.CLOSED_ABS and not spaces.decided(m, seen):
                    core.skip('screening at a threshold')
                    return
        except KeyError:
            pass
        opts = {'delta_thr': 1e-3}
        if k % 3 == 0:
            opts['force_subjbias_zeromean'] = False
        more = dict(opts)
        if miss is not None or k % 2:
            more['missing_probability'] = miss
        out = None
        if k % 4 < 2:
            out = scratch('written.py')
            more['output_synthetic_dataset_filepath'] = out
        if k % 5 == 0:
            more['measure_runtime'] = True
        err = bool(k % 2)
        if k % 7:
            more['do_errorbar'] = err
        else:
            err = False
        ax = None
        if k % 3:
            fig, axes = plt.subplots(nrows=1, ncols=len(AX))
            ax = dict(zip(AX, axes))
        given = copy.deepcopy(inp)
        np.random.seed(99)
        transition()
        ret = routine.validate_with_synthetic_dataset(cls, [models.cls_of(m) for m in names], f, inp, ax, **more)
        require(repr(given) == repr(inp), 'the given parameters were changed')
        require(list(ret['results']) == list(names), 'results for %s, expected %s' % (list(ret['results']), names))
        if out:
            require(ret.get('output_synthetic_dataset_filepath') == out, 'written file not reported')
            B = RawDatasetReader(import_python_file(out)).opinion_score_3darray
            check_same('written votes', B, seen.T(), 1e-9, 1e-9)
        for m in names:
            want = models.run(m, seen, **opts)
            got = ret['results'][m]
            for kk in want:
                if kk in ('reconstructions',):
                    continue
                require(kk in got, '%s lost %s' % (m, kk))
                if isinstance(want[kk], (list, np.ndarray, float, int)):
                    check_same('%s %s on synthetic votes' % (m, kk), got[kk], want[kk], 1e-6, 1e-6)
            require(('runtime' in got) == bool(more.get('measure_runtime')), 'runtime')
            for p in PAR:
                has = p in want and p + '_ci95' in want
                require((p + '_ci_perc' in got) == has, '%s %s percentage' % (m, p))
                if has:
                    edge = min(min(abs(abs(a) - c) for a, c in ((inp[p][i] - want[p][i], want[p + '_ci95'][side][i]),)) for side in (0, 1) for i in range(len(inp[p])))
                    if not edge < 1e-6:
                        check_same('%s %s: percentage of truths inside' % (m, p), got[p + '_ci_perc'], perc(inp[p], want[p], want[p + '_ci95']))
        if ax:
            for p in AX:
                pts = points(ax[p])
                exp_models = [m for m in names if p in ret['results'][m] and p in inp]
                require(len(pts) == len(exp_models), '%s: %d series drawn, expected %s' % (p, len(pts), exp_models))
                for m in exp_models:
                    w = ret['results'][m]
                    mine = [q for q in pts if q[0].startswith(m + ' (')]
                    require(len(mine) == 1, '%s: labels %s' % (p, [q[0] for q in pts]))
                    lab, xx, yy, seg = mine[0]
                    check_same('%s %s drawn truths' % (m, p), xx, list(inp[p]))
                    check_same('%s %s drawn estimates' % (m, p), yy, list(w[p]))
                    r = re.search(r'RMSE (-?[0-9.]+|nan)', lab)
                    require(r and abs(float(r.group(1)) - rmse(inp[p], w[p])) < 1e-4, '%s %s: label %r, RMSE %s' % (m, p, lab, rmse(inp[p], w[p])))
                    if err and p in PAR and p + '_ci95' in w:
                        require(seg is not None, '%s %s: no error bars' % (m, p))
                        ci = w[p + '_ci95']
                        check_same('%s %s error bars' % (m, p), [list(s) for s in seg], [[w[p][i] - ci[0][i], w[p][i] + ci[1][i]] for i in range(len(w[p]))])
                        c = re.search(r'CI% ([0-9.]+)', lab)
                        require(c and abs(float(c.group(1)) - w[p + '_ci_perc']) < 0.051, '%s %s: label %r' % (m, p, lab))
                    else:
                        require(seg is None, '%s %s: error bars drawn' % (m, p))
        outcome([names, ret['results'][names[0]]['quality_scores']])

    def subset(self, x, sel):
        xr = x.read()
        return Exp([[row[s] for s in sel] for row in xr.cells], content=xr.content, nc=xr.nc, style='list', refs=xr.refs)

    def same_result(self, what, got, want, skip_keys=()):
        for kk in want:
            if kk in skip_keys:
                require(kk not in got, '%s: %s kept' % (what, kk))
                continue
            require(kk in got, '%s: %s missing' % (what, kk))
            if isinstance(want[kk], (list, np.ndarray, float, int)):
                check_same('%s %s' % (what, kk), got[kk], want[kk], 1e-6, 1e-6)

    def do_draw(self, E, S, frac):
        x = exp.realistic(E, S, style='list', seed=4)
        f = write(x, 'draw')
        k = int(S * frac)
        seen = set()
        for s, ret in nondet.explore(lambda s: self.controlled(s, f, frac)):
            transition()
            pool, sel = list(range(S)), []
            arity = [a for _, a in s.trace]
            if arity != list(range(S, 1, -1)):
                core.skip('sub-sampling drawn in another way')
                return
            for c, _ in s.trace:
                sel.append(pool.pop(c))
            sel = (sel + pool)[:k]
            seen.add(tuple(sel))
            state((E, S, frac, tuple(sel)))
            require(len(ret) == 1 and len(ret[0]) == 1, 'shape of the result')
            self.same_result('MOS of observers %s' % (sel,), ret[0][0], models.run('MOS', self.subset(x, sel)))
        check_same('number of reachable selections', len(seen), math.perm(S, k))
        outcome(sorted(seen))

    def controlled(self, s, f, frac):
        with nondet.controlled(s):
            return routine.get_sample_stats([{'path': f}], [models.cls_of('MOS')], subj_fraction=frac, random_seed=1)

    def do_stats(self, x, x2, frac, seed, ms, kind):
        fs = [write(x, 'one', kind), write(x2, 'two', kind)]
        sub = {}
        for y in (x, x2):
            S = y.read().S
            sub[id(y)] = y if frac is None else self.subset(y, [int(v) for v in np.random.RandomState(seed).choice(S, size=int(S * frac), replace=False)])
            if not sub[id(y)].all_votes_nonempty():
                core.skip('a video without votes')
                return
        np.random.seed(5)
        transition()
        ret = routine.get_sample_stats([{'path': f} for f in fs], [models.cls_of(m) for m in ms], subj_fraction=frac, random_seed=seed,
                                       **({'do_plot': True, 'plot_type': 'errorbar' if len(ms) > 1 else 'bar'} if seed == 0 and x.E < 6 else {}))
        require(len(ret) == 2 and all(len(r) == len(ms) for r in ret), 'shape of the result')
        for y, rs in zip((x, x2), ret):
            z = sub[id(y)]
            for m, r in zip(ms, rs):
                if m in spaces.CLOSED_ABS and not spaces.decided(m, z):
                    core.skip('screening at a threshold')
                    continue
                self.same_result('%s on fraction %s, seed %s' % (m, frac, seed), r, models.run(m, z))
        outcome([len(ms), frac, seed, ret[0][0]['quality_scores']])

    def do_scatter(self, x, x2, tf, cf):
        import matplotlib.pyplot as plt
        fs = [{'path': write(x, 'alpha')}, {'path': write(x2, 'beta')}]
        T, C = ['MOS', 'P910'], ['BR_MOS', 'MOS']
        for y in (x, x2):
            for fr in (tf, cf):
                S = y.read().S
                if fr is not None and not self.subset(y, [int(v) for v in np.random.RandomState(3).choice(S, size=int(S * fr), replace=False)]).all_votes_nonempty():
                    core.skip('a video without votes')
                    return
        transition()
        plt.close('all')
        routine.plot_scatter_target_vs_compared_models(T, C, fs, target_subj_fraction=tf, compared_subj_fraction=cf, random_seed=3)
        figs = [plt.figure(n) for n in plt.get_fignums()]
        require(len(figs) == 2, '%d figures for 2 datasets' % len(figs))
        for y, fig, d in zip((x, x2), figs, fs):
            S = y.read().S

            def res(m, frac):
                z = y
                if frac is not None:
                    z = self.subset(y, [int(v) for v in np.random.RandomState(3).choice(S, size=int(S * frac), replace=False)])
                return models.run(m, z)['quality_scores'] if z.all_votes_nonempty() else None
            axs = [a for a in fig.axes if points(a)]
            require(len(axs) == len(T), '%d scatters for %d pairs' % (len(axs), len(T)))
            for i, a in enumerate(axs):
                want = res(T[i], tf), res(C[i], cf)
                if None in want:
                    continue
                lab, xx, yy, _ = points(a)[0]
                check_same('scatter of %s: target' % T[i], xx, want[0], 1e-6, 1e-6)
                check_same('scatter of %s: compared' % C[i], yy, want[1], 1e-6, 1e-6)
                require(lab == ('alpha', 'beta')[d is fs[1]], 'label %r' % lab)
                tag = lambda m, fr: m if fr is None else '%s %d%% data' % (m, int(fr * 100))
                require(a.get_xlabel() == tag(T[i], tf) and a.get_ylabel() == tag(C[i], cf), 'axes %r, %r' % (a.get_xlabel(), a.get_ylabel()))
                outcome([xx, yy])
