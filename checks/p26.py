import itertools, math, os
import numpy as np
from mc import core, exp, models, ref, spaces
from mc.pc import from_wins
from mc.core import Check, outcome, state, skip, check_same, require, scratch, transition
import sureal.routine as routine
from sureal.dataset_reader import DatasetReader, PairedCompDatasetReader

PLOTS = ('raw_scores', 'raw_counts', 'raw_counts_per_subject', 'raw_scores_minus_quality_scores', 'raw_scores_minus_quality_scores_and_observer_bias',
         'quality_scores_vs_raw_scores', 'quality_scores', 'subject_scores', 'content_scores')
AXES = {'raw_scores': ('ax_raw_scores',), 'raw_counts': ('ax_raw_counts',), 'raw_counts_per_subject': ('raw_counts_per_subject',),
        'raw_scores_minus_quality_scores': ('ax_raw_scores_minus_quality_scores',),
        'raw_scores_minus_quality_scores_and_observer_bias': ('ax_raw_scores_minus_quality_scores_and_observer_bias',),
        'quality_scores': ('ax_quality_scores',),
        'subject_scores': ('ax_observer_bias', 'ax_observer_inconsistency', 'ax_rejected', 'ax_rejected_1st_stats', 'ax_rejected_2nd_stats'),
        'content_scores': ('ax_content_ambiguity',)}
LISTS = [('MOS',), ('P910',), ('BR_SR_MOS',), ('SR_MOS',), ('MOS', 'P910'), ('P910', 'MOS'), ('P913', 'BT500', 'P910'), ('BR_MOS', 'MLE_CO_AP2', 'ZS_MOS'),
         ('DMOS', 'SR_MOS_PCC', 'BR_SR_MOS'), ('MLE', 'MOS', 'MLE_SO'), ('MLE_CO', 'MLE'), ('MOS', 'BR_MOS', 'P913', 'BT500', 'P910')]


def image(ax, i=-1):
    a = ax.images[i].get_array()
    return np.ma.filled(np.ma.asarray(a, float), np.nan).tolist()


def errorbars(ax):
    """[(label, xs, ys, [(lo, hi)] or None)] of everything drawn as dots with or without intervals, in drawing order"""
    out = []
    own = set()
    for c in ax.containers:
        if hasattr(c, 'has_yerr'):
            line, caps, bars = c.lines
            own.add(line)
            own.update(caps)
            seg = None
            if c.has_yerr:
                seg = [tuple(float(p[1]) for p in s) or (float('nan'), float('nan')) for s in bars[0].get_segments()]  # nothing is drawn for undefined values
            out.append((c.get_label(), [float(v) for v in line.get_xdata()], [float(v) for v in line.get_ydata()], seg))
    for l in ax.lines:
        if l not in own and not l.get_label().startswith('_'):
            out.append((l.get_label(), [float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()], None))
    return out


def bars(ax):
    return [(c.get_label(), [float(p.get_x() + p.get_width() / 2) for p in c.patches], [float(p.get_height()) for p in c.patches], None)
            for c in ax.containers if not hasattr(c, 'has_yerr')]


def series(what, got, want, plot_type, names):
    """want: [(model, bic or None, values, ci or None)] in order"""
    require(len(got) == len(want), '%s shows %d models (%s), expected %s' % (what, len(got), [g[0] for g in got], [w[0] for w in want]))
    x0s = []
    # dots without intervals are listed after those with: match by label
    for name, bic, vals, ci in want:
        m = [g for g in got if g[0] == name or g[0].startswith(name + ' ')]
        require(len(m) == 1, '%s: labels %s, none or several for %s' % (what, [g[0] for g in got], name))
        lab, xs, ys, seg = m[0]
        check_same('%s %s values' % (what, name), ys, vals)
        require(all(abs(x - xs[0] - i) < 1e-6 for i, x in enumerate(xs)), '%s %s: positions %s' % (what, name, xs))
        x0s.append(xs[0])
        if plot_type == 'bar' or ci is None:
            require(seg is None, '%s %s has intervals' % (what, name))
        else:
            require(seg is not None and len(seg) == len(vals), '%s %s has %s intervals' % (what, name, None if seg is None else len(seg)))
            check_same('%s %s intervals' % (what, name), [list(s) for s in seg], [[v - l, v + u] for v, l, u in zip(vals, ci[0], ci[1])], 1e-7, 1e-9)
            avg = ref.mean([l + u for l, u in zip(ci[0], ci[1])])
            if math.isfinite(avg) and abs(avg * 100 % 1 - 0.5) > 1e-6:
                require('[avg CI %.2f]' % avg in lab, '%s %s: label %r, average interval %.4f' % (what, name, lab, avg))
        if bic is not None and math.isfinite(bic) and abs(bic * 100 % 1 - 0.5) > 1e-6:
            require('NBIC %.2f' % bic in lab, '%s %s: label %r, bic %.4f' % (what, name, lab, bic))
    # every model has its own place, in the order given, within the slot of the first item
    require(all(a < b for a, b in zip(x0s, x0s[1:])), '%s: first positions %s' % (what, x0s))
    require(x0s == [] or 0 <= x0s[0] < (1 if want[0][0] == names[0] else len(names)), '%s: first positions %s' % (what, x0s))


def counts(T, per):
    """{(item, value): number} of repetition-averaged votes"""
    E, S, R = ref.dims(T)
    out = {}
    for e in range(E):
        for s in range(S):
            v = ref.nn(T[e][s])
            if v:
                k = (e if per == 'video' else s, round(ref.mean(v), 9))
                out[k] = out.get(k, 0) + 1
    return out


def scatter(ax):
    c = ax.collections[-1]
    off, sz = np.asarray(c.get_offsets(), float), np.asarray(c.get_sizes(), float)
    return {(int(round(x)), round(y, 9)): float(s) for (x, y), s in zip(off.tolist(), sz.tolist())}, len(off)


class CHECK(Check):
    case_timeout = 300
    rule = ('every plot and every list of models (one to five) times plot types, sorted or not, own or given axes, on datasets with repetitions, missing votes, '
            'named observers and several contents: the drawn artists (images, marker offsets and sizes, values, interval segments, labels, ticks) '
            'against the results of the run and the votes')
    assumptions = ['artists are read from matplotlib, not from pixels']

    def worker_init(self):
        import time
        time.sleep = lambda *_: None
        import logging
        logging.getLogger('matplotlib').setLevel(logging.ERROR)

    def cases(self, tier):
        q = tier == 'quick'
        xs = [x for i, x in enumerate(exp.real_lattice(((5, 4), (6, 7)), ('none', 'ragged', 'all2'), ('none', 'diag', 'vid'), ('alt', 'blk'), quants=(0.25, 1.0), refs=True))]
        xs = [exp.named(x, ('rev', 'odd', 'plain')[i % 3]) if x.style == 'dict' else x for i, x in enumerate(xs)]
        hs = spaces.mle_pool()
        hs = [exp.named(x, 'odd') if x.style == 'dict' else x for x in hs]
        i = 0
        for plot in PLOTS:
            for names in LISTS:
                heavy = any(n in spaces.ITER for n in names)
                for pt in ('errorbar', 'bar') if plot in ('quality_scores', 'subject_scores', 'content_scores') else ('errorbar',):
                    for srt in (False, True) if plot == 'quality_scores' else (False,):
                        for k in range((2 if not heavy else 1) * (1 if q else 5)):
                            given = plot in AXES and not (k == 0 and i % 4 == 0)
                            x = xs[(i * 5 + k * 7) % len(xs)] if not heavy else hs[i % len(hs)]
                            i += 1
                            yield '%s %s %s%s%s %s' % (plot, '+'.join(names), pt, '/sorted' if srt else '', '' if given else '/figure', x.tag), \
                                ('plot', plot, names, pt, srt, given, x)
        for k, x in enumerate(exp.real_lattice(((60, 4), (5, 60), (130, 3)), ('none', 'ragged'), ('none', 'diag'), ('blk',), quants=(0.25,), refs=True)):
            for plot in PLOTS:
                if plot != 'content_scores':
                    yield 'large %s %s' % (plot, x.tag), ('plot', plot, (('MOS', 'P910'), ('P913',), ('BT500', 'MOS', 'BR_MOS'))[k % 3], ('errorbar', 'bar')[k % 2] if plot in ('quality_scores', 'subject_scores') else 'errorbar', k % 3 == 1 and plot == 'quality_scores', plot in AXES, x)
        for k, names in enumerate((('P910', 'MOS'), ('MLE', 'BR_SR_MOS'))):
            yield 'all %s' % (names,), ('plot', 'all', names, 'errorbar', False, False, hs[k])
        for k, W in enumerate(([[0, 2, 1], [1, 0, 3], [1, 1, 0]], [[0, 1], [3, 0]], [[0, 5, 1, 0], [1, 0, 2, 2], [1, 2, 0, 1], [1, 1, 4, 0]], [[0, 1, 0], [0, 0, 2.5], [1, .5, 0]])):
            yield 'pc %d' % k, ('pc', from_wins(W, ids=tuple(range(len(W)))[::-1]), W)
            for pt in ('errorbar', 'bar'):
                yield 'pcq %d %s' % (k, pt), ('pcq', from_wins(W), ('BT_MLE', 'THURSTONE_MLE') if k % 2 == 0 else ('BT_NR',), pt)
        many = ('MOS', 'BR_MOS', 'SR_MOS', 'BT500', 'P913', 'ZS_MOS', 'P910', 'DMOS', 'SR_MOS_PCC', 'SR_MOS_SRCC', 'BR_SR_MOS', 'BR_SR_MOS_PCC', 'MLE_CO_AP2')
        for n in (8, 9, 10, 13):
            for plot in ('quality_scores', 'subject_scores') + (() if q else PLOTS):
                for pt in ('errorbar', 'bar'):
                    yield 'many %d %s %s' % (n, plot, pt), ('plot', plot, many[:n] if n % 2 else many[::-1][:n], pt, False, True, hs[0])
        for k, y in enumerate(hs[:4] if q else hs):
            y = y.but(content=tuple(c + (c > 0) for c in y.content), nc=y.nc + 2)
            for pt in ('errorbar', 'bar'):
                yield 'unrated content %d %s' % (k, pt), ('plot', 'content_scores', ('MLE', 'MLE_SO') if k % 2 else ('MOS', 'MLE'), pt, False, True, y)
        for k, y in enumerate([y for y in hs if y.R == 1][:3]):
            for pt in ('errorbar', 'bar'):
                yield 'legacy %d %s' % (k, pt), ('plot', 'subject_scores', ('MOS', 'MLE_legacy', 'P910') if k % 2 else ('MLE_legacy',), pt, False, True, y)
        x = exp.realistic(5, 5, refs=True)
        yield 'ls', ('plot', 'quality_scores', ('LS', 'MOS'), 'errorbar', True, True, x)
        yield 'badtype', ('bad', x)

    def test(self, key, p):
        import matplotlib
        import matplotlib.pyplot as plt
        matplotlib.rcParams['figure.max_open_warning'] = 0
        plt.close('all')
        try:
            getattr(self, 'do_' + p[0])(key, *p[1:])
        finally:
            plt.close('all')

    def do_bad(self, key, x):
        f = scratch('b.py')
        DatasetReader.write_out_dataset(x.dataset(), f)
        state(key)
        transition()
        require(models.refused(routine.run_subjective_models, f, [models.cls_of('MOS')], do_plot=['quality_scores'], plot_type='nonsense'), 'unknown plot type accepted')
        require(models.refused(routine.run_subjective_models, f, [models.cls_of('MOS')], do_plot=['quality_scores'], sort_quality_scores_in_plot='yes'), 'unknown sorting accepted')

    def do_pc(self, key, P, W):
        import matplotlib.pyplot as plt
        f = scratch('v.py')
        DatasetReader.write_out_dataset(P.dataset(), f)
        state(key)
        transition()
        routine.visualize_pc_dataset(f)
        axs = [a for a in plt.gcf().axes if a.get_label() != '<colorbar>']
        n = len(W)
        want = [[(W[i][j] / (W[i][j] + W[j][i]) if W[i][j] + W[j][i] else float('nan')) for j in range(n)] for i in range(n)]
        check_same('winning rates', image(axs[0]), want)
        outcome(want)

    def do_pcq(self, key, P, names, pt):
        import matplotlib.pyplot as plt
        f = scratch('v.py')
        DatasetReader.write_out_dataset(P.dataset(), f)
        state(key)
        transition()
        fig, ax = plt.subplots()
        _, _, res = routine.run_subjective_models(f, [models.cls_of(n) for n in names], do_plot=['quality_scores'], plot_type=pt, ax_dict={'ax_quality_scores': ax},
                                                  dataset_reader_class=PairedCompDatasetReader)
        want = [(n, None, [float(v) for v in r['quality_scores']], r.get('quality_scores_ci95')) for n, r in zip(names, res)]
        series('quality_scores', errorbars(ax) if pt == 'errorbar' else bars(ax), want, pt, names)
        outcome([w[2] for w in want])

    def do_plot(self, key, plot, names, pt, srt, given, x):
        import matplotlib.pyplot as plt
        if any(n in spaces.ITER and not spaces.mle_ok(x, n) for n in names):
            skip('likelihood has no well-defined maximum')
            return
        f = scratch('p%s.py' % core.digest(key))
        DatasetReader.write_out_dataset(x.dataset(), f)
        axd = {}
        if given:
            for a in AXES[plot]:
                axd[a] = plt.subplots()[1]
        before = set(plt.get_fignums())
        state(key)
        transition()
        kw = {}
        if srt:
            kw['sort_quality_scores_in_plot'] = True
        if pt != 'errorbar' or len(names) % 2:
            kw['plot_type'] = pt
        _, ms, res = routine.run_subjective_models(f, [models.cls_of(n) for n in names], do_plot=[plot] if plot != 'all' else 'all', ax_dict=dict(axd), **kw)
        os.remove(f)
        figs = [plt.figure(i) for i in plt.get_fignums() if i not in before]
        if given:
            require(not figs or plot == 'quality_scores_vs_raw_scores', 'figures opened although axes were given')
        fa = [[a for a in g.axes if a.get_label() != '<colorbar>'] for g in figs]
        T = x.T()
        todo = PLOTS if plot == 'all' else (plot,)
        at = 0
        for pl in todo:
            n = {'raw_scores_minus_quality_scores': sum('quality_scores' in r for r in res),
                 'raw_scores_minus_quality_scores_and_observer_bias': sum('observer_bias' in r for r in res),
                 'quality_scores_vs_raw_scores': len(res)}.get(pl, 1)
            if given:
                groups = None
            else:
                groups = fa[at:at + n]
                at += n
                require(len(groups) == n, '%s: %d figures, expected %d' % (pl, len(groups), n))
            self.verify(pl, x, T, names, res, pt, srt, axd if given else None, groups)
        if not given:
            require(at == len(fa), '%d figures, expected %d' % (len(fa), at))
        outcome([key.split()[0], names, [r['quality_scores'] for r in res]])

    def verify(self, plot, x, T, names, res, pt, srt, axd, groups):
        E, S, R = ref.dims(T)
        M = [[ref.mean(ref.nn(T[e][s])) for e in range(E)] for s in range(S)]
        ax = lambda k: axd[AXES[plot][k]] if axd else groups[0][k]
        read = errorbars if pt == 'errorbar' else bars
        if plot == 'raw_scores':
            check_same(plot, image(ax(0)), M)
        elif plot in ('raw_counts', 'raw_counts_per_subject'):
            want = counts(T, 'video' if plot == 'raw_counts' else 'observer')
            got, n = scatter(ax(0))
            require(set(got) == set(want) and n == len(want), '%s marks %s, expected %s' % (plot, sorted(got.items()), sorted(want.items())))
            unit = {k: got[k] / want[k] for k in want}
            u = list(unit.values())
            require(min(u) > 0 and max(u) - min(u) < 1e-6 * max(u), '%s sizes %s for counts %s' % (plot, got, want))
            core.CTX.validated += 1
        elif plot.startswith('raw_scores_minus'):
            has = [(n, r) for n, r in zip(names, res) if 'observer_bias' in r or not plot.endswith('bias')]
            for k, (n, r) in enumerate(has):
                b = r['observer_bias'] if plot.endswith('bias') else [0.0] * S
                q = r['quality_scores']
                want = [[M[s][e] - q[e] - b[s] for e in range(E)] for s in range(S)]
                a = axd[AXES[plot][0]] if axd else groups[k][0]
                check_same('%s %s' % (plot, n), image(a, k if axd else 0), want)
                t = a.get_title()
                shown = has[-1][0] if axd else n       # the last one drawn into the same axes titles them
                require(t.endswith(shown), '%s: title %r for %s' % (plot, t, shown))
            if axd:
                require(len(axd[AXES[plot][0]].images) == len(has), '%s: %d images' % (plot, len(axd[AXES[plot][0]].images)))
        elif plot == 'quality_scores_vs_raw_scores':
            for k, (n, r) in enumerate(zip(names, res)):
                axs = groups[k]
                require(len(axs) >= S, '%s: %d panels' % (plot, len(axs)))
                for s in range(S):
                    off = np.ma.filled(np.ma.asarray(axs[s].collections[0].get_offsets(), float), np.nan).tolist()
                    want = [[M[s][e], float(r['quality_scores'][e])] for e in range(E)]
                    seen = [o for o in off if o[0] == o[0] and o[1] == o[1]]
                    check_same('%s %s observer %d' % (plot, n, s), seen, [w for w in want if w[0] == w[0] and w[1] == w[1]])
                    lb = [t.get_text() for t in axs[s].get_legend().get_texts()]
                    require(n in lb, '%s: legend %s for %s' % (plot, lb, n))
                for a in axs[S:]:
                    require(not a.collections, '%s: more panels than observers' % plot)
        elif plot == 'quality_scores':
            q0 = [float(v) for v in res[0]['quality_scores']]
            order = sorted(range(E), key=lambda e: q0[e]) if srt else list(range(E))
            if srt and any(q0[b] - q0[a] < 1e-9 for a, b in zip(order, order[1:])):
                skip('tied scores in a sorted plot')
                return
            want = []
            for n, r in zip(names, res):
                ci = r.get('quality_scores_ci95')
                want.append((n, r['bic'] if 'bic' in r and 'reconstructions' in r else None, [float(r['quality_scores'][e]) for e in order],
                             None if ci is None else [[float(c[e]) for e in order] for c in ci]))
            series(plot, read(ax(0)), want, pt, names)
            lb = [t.get_text() for t in ax(0).get_legend().get_texts()]
            require(len(lb) == len(names), '%s: legend %s' % (plot, lb))
        elif plot == 'subject_scores':
            for k, key in enumerate(('observer_bias', 'observer_inconsistency')):
                want = [(n, None, [float(v) for v in r[key]], r.get(key + '_ci95')) for n, r in zip(names, res) if key in r]
                series(key, read(ax(k)), want, pt, names)
            if any('observer_bias' in r for r in res):
                lab = [t.get_text() for t in ax(1).get_xticklabels()]
                wl = sorted(x.read().names) if x.style == 'dict' else ['#%d' % (s + 1) for s in range(S)]
                require(lab == list(wl), 'observer ticks %s, expected %s' % (lab, wl))
            if axd:
                for k, key in ((2, 'observer_rejected'), (3, 'observer_rejected_1st_stats'), (4, 'observer_rejected_2nd_stats')):
                    want = [(n, None, [float(v) for v in r[key]], None) for n, r in zip(names, res) if key in r and r[key] is not None]
                    series(key, bars(ax(k)), want, 'bar', names)
                    if want:
                        lg = ax(k).get_legend()
                        lb = [] if lg is None else [t.get_text() for t in lg.get_texts()]
                        require(sorted(lb) == sorted(w[0] for w in want), '%s: legend %s, expected %s' % (key, lb, [w[0] for w in want]))
        elif plot == 'content_scores':
            want = [(n, None, [float(v) for v in r['content_ambiguity']], r.get('content_ambiguity_ci95')) for n, r in zip(names, res) if 'content_ambiguity' in r]
            series(plot, read(ax(0)), want, pt, names)
            if want:
                lab = [t.get_text() for t in ax(0).get_xticklabels()]
                require(lab == ['content%d' % c for c in range(x.nc)], 'content ticks %s' % lab)
