import contextlib, io, itertools, json, math, os, shutil, sys
import numpy as np
from mc import core, exp, models, spaces
from mc.exp import NAN
from mc.pc import from_wins, PC
from mc.core import Check, outcome, state, skip, check_same, require, scratch, transition
from checks.p18 import deq
import sureal.routine as routine
import sureal.__main__ as cli
import sureal.cmd_deprecated as old_cli
from sureal.dataset_reader import (RawDatasetReader, PairedCompDatasetReader, DatasetReader, SelectSubjectRawDatasetReader,
                                   SelectDisVideoRawDatasetReader, MissingDataRawDatasetReader)

FAST = ('MOS', 'BT500', 'P913', 'P910', 'BR_MOS', 'DMOS', 'ZS_MOS', 'SR_MOS', 'LIVE_DMOS', 'BR_SR_MOS_PCC', 'MLE_CO_AP2', 'SR_DMOS')
SLOW = ('MLE', 'MLE_CO', 'MLE_SO', 'DMOS_MLE')
PCM = ('BT_MLE', 'BT_NR', 'THURSTONE_MLE')


def gap(x, ids):
    """the dataset of x with its contents numbered by ids"""
    ds = x.dataset()
    for v in ds.ref_videos + ds.dis_videos:
        v['content_id'] = ids[v['content_id']]
    return ds


def write(ds, path):
    if path.endswith('.json'):
        with open(path, 'w') as f:
            json.dump(vars(ds), f)
    else:
        DatasetReader.write_out_dataset(ds, path)


def alone(name, ds):
    rd = (PairedCompDatasetReader if name in PCM else RawDatasetReader)(ds)
    transition()
    return models.cls_of(name)(rd).run_modeling()


def expected(ds, names, results, observers):
    """the formatted output, built from the results of each model alone"""
    vids = [{'dis_video_name': v['path'], 'models': {}} for v in ds.dis_videos]
    obs = None
    cont = None
    stats = {}
    for n, r in zip(names, results):
        for i, v in enumerate(vids):
            d = v['models'].setdefault(n, {})
            d['quality_score'] = r['quality_scores'][i]
            if r.get('quality_scores_std') is not None:
                d['quality_score_std'] = r['quality_scores_std'][i]
            if 'quality_scores_ci95' in r:
                d['quality_score_ci95'] = [r['quality_scores_ci95'][0][i], r['quality_scores_ci95'][1][i]]
        if 'observer_bias' in r:
            if obs is None:
                obs = [{'observer': o, 'models': {}} for o in observers]
            for i, o in enumerate(obs):
                d = o['models'].setdefault(n, {})
                for k in ('observer_bias', 'observer_inconsistency', 'observer_scores_mean', 'observer_scores_std'):
                    if k in r:
                        d[k] = r[k][i]
                    if k + '_std' in r:
                        d[k + '_std'] = r[k + '_std'][i]
                    if k + '_ci95' in r:
                        d[k + '_ci95'] = [r[k + '_ci95'][0][i], r[k + '_ci95'][1][i]]
        if 'content_ambiguity' in r:
            m = len(r['content_ambiguity'])
            if cont is None:
                nm = {v['content_id']: v['content_name'] for v in ds.ref_videos}
                cont = [{'content': nm.get(i), 'models': {}} for i in range(m)]
            for i, o in enumerate(cont):
                d = o['models'].setdefault(n, {})
                d['content_ambiguity'] = r['content_ambiguity'][i]
                if 'content_ambiguity_std' in r:
                    d['content_ambiguity_std'] = r['content_ambiguity_std'][i]
                if 'content_ambiguity_ci95' in r:
                    d['content_ambiguity_ci95'] = [r['content_ambiguity_ci95'][0][i], r['content_ambiguity_ci95'][1][i]]
        for k in ('aic', 'bic'):
            if k in r:
                stats.setdefault('models', {}).setdefault(n, {})[k] = r[k]
    return vids, obs, cont, stats


def compare_out(out, want):
    vids, obs, cont, stats = want

    def lst(what, got, exp_, label):
        require(isinstance(got, list) and len(got) == len(exp_), '%s: %s entries, expected %d' % (what, None if got is None else len(got), len(exp_)))
        for i, (g, e) in enumerate(zip(got, exp_)):
            if e[label] is not None:
                require(g.get(label) == e[label], '%s %d is named %r, expected %r' % (what, i, g.get(label), e[label]))
            require(set(g['models']) == set(e['models']), '%s %d lists models %s, expected %s' % (what, i, sorted(g['models']), sorted(e['models'])))
            for m in e['models']:
                ge, ee = g['models'][m], e['models'][m]
                require(set(ge) == set(ee), '%s %d %s has %s, expected %s' % (what, i, m, sorted(ge), sorted(ee)))
                for k in ee:
                    check_same('%s %d %s %s' % (what, i, m, k), ge[k] if not isinstance(ge[k], tuple) else list(ge[k]), ee[k])
    lst('dis_videos', out.get('dis_videos'), vids, 'dis_video_name')
    if obs is None:
        require('observers' not in out, 'observers listed without observer model')
    else:
        lst('observers', out.get('observers'), obs, 'observer')
    if cont is None:
        require('contents' not in out, 'contents listed without content model')
    else:
        lst('contents', out.get('contents'), cont, 'content')
    for m, d in stats.get('models', {}).items():
        for k, v in d.items():
            check_same('stats %s %s' % (m, k), out['stats']['models'][m][k], v)


def plain(r):
    return {k: v for k, v in r.items() if k not in ('dis_video_names', 'reconstruction_stats', 'observers', 'contents')}


class CHECK(Check):
    case_timeout = 300
    rule = ('every ordered selection of one and two (and some of three) models on datasets written as Python and JSON files (vote styles, repetitions, missing votes, '
            'names, content numbers with gaps; comparison datasets): results against each model run alone, formatted output against one built from those; '
            'every combination of command-line switches with its printed or written output and plot files; every kind of refused input')

    def worker_init(self):
        import time
        time.sleep = lambda *_: None
        import logging
        logging.getLogger('matplotlib').setLevel(logging.ERROR)

    def pool(self, tier):
        xs = []
        for i, x in enumerate(exp.real_lattice(((5, 4), (7, 6)), ('none', 'ragged', 'all2'), ('none', 'diag', 'vid'), ('alt', 'blk'), quants=(1.0, 0.25), refs=True)):
            if x.style == 'dict':
                x = exp.named(x, ('rev', 'odd', 'num')[i % 3])
            xs.append(x)
        return xs if tier != 'quick' else xs[::2]

    def cases(self, tier):
        q = tier == 'quick'
        xs = self.pool(tier)
        for i, x in enumerate(xs):
            for n in FAST:
                yield 'one %s %s' % (n, x.tag), ('run', x, (n,), i)
        for k, x in enumerate(exp.real_lattice(((130, 3), (3, 130), (30, 30)), ('none', 'ragged'), ('none', 'diag'), ('blk',), quants=(0.25,), refs=True)):
            for j, pr in enumerate((('MOS', 'P910'), ('P913', 'BT500', 'MOS'))):
                yield 'large %s %s' % ('+'.join(pr), x.tag), ('run', x, pr, k + j)
        pairs = list(itertools.permutations(FAST, 2))
        for k, pr in enumerate(pairs):
            for x in [xs[k % len(xs)]] if q else [xs[(k + j) % len(xs)] for j in range(6)]:
                yield 'two %s+%s %s' % (pr[0], pr[1], x.tag), ('run', x, pr, k)
        for k, t in enumerate(itertools.permutations(('MOS', 'P910', 'P913', 'BT500'), 3)):
            yield 'three %s %s' % ('+'.join(t), xs[k % len(xs)].tag), ('run', xs[k % len(xs)], t, k)
        for k, x in enumerate(xs[:: (4 if q else 1)]):
            yield 'all ' + x.tag, ('run', x, FAST + FAST[:1], k)
        for k, x in enumerate(spaces.mle_pool()):
            for j in range(4):
                yield 'slow %d %s' % (j, x.tag), ('run', x, (SLOW[(k + j) % 4], 'P910', SLOW[(k + j + 1) % 4]), k + j)
        for k, gone in enumerate((0, 2, 3)):
            for pr in (('BR_MOS', 'MOS'), ('MOS', 'BR_MOS'), ('P913',)):
                x = exp.Exp([[() if s == gone else (float(1 + (3 * e + s * s) % 5),) for s in range(4)] for e in range(5)], content=(0, 0, 1, 1, 1), style='list')
                yield 'absent %d %s' % (gone, '+'.join(pr)), ('run', x, pr, 2 * k)
        for k, (rd, pr) in enumerate(itertools.product(('subjects', 'videos', 'missing', 'twice'), (('MOS',), ('P910',), ('P910', 'MOS'), ('BT500', 'P913', 'BR_SR_MOS_PCC')))):
            for x in [xs[(k * 5) % len(xs)]] if q else xs[::3]:
                yield 'reader %s %s %s' % (rd, '+'.join(pr), x.tag), ('reader', x, pr, (rd, k))
        Ws = [[[0, 2, 1], [1, 0, 3], [1, 1, 0]], [[0, 1], [3, 0]], [[0, 5, 1, 0], [1, 0, 2, 2], [1, 2, 0, 1], [1, 1, 4, 0]]]
        for i, W in enumerate(Ws):
            for k in (1, 2):
                for pr in itertools.permutations(PCM, k):
                    yield 'pc %s %d' % ('+'.join(pr), i), ('run', from_wins(W, ids=tuple(range(len(W)))[::-1]), pr, i)
        # command line
        sw = [tuple(s for s, b in zip(('--plot-raw-data', '--plot-dis-videos', '--plot-observers'), bits) if b) for bits in itertools.product((0, 1), repeat=3)]
        ms = [('MOS',), ('P910',), ('BT500', 'P913'), ('MOS', 'P910', 'P913', 'BT500'), ('MLE_CO_AP2', 'MOS')]
        for k, (s, m) in enumerate(itertools.product(sw, ms)):
            yield 'cli %s %s' % ('+'.join(m), ' '.join(s)), ('cli', xs[(k * 7) % len(xs)], m, (s, True, k))
        for k, m in enumerate(ms):
            yield 'print %s' % '+'.join(m), ('cli', xs[k % len(xs)], m, ((), False, k))
        for s in sw:
            yield 'cli pc %s' % ' '.join(s), ('cli', from_wins(Ws[0]), ('BT_MLE', 'BT_NR'), (s, True, 0))
        for m in old_cli.SUBJECTIVE_MODELS:
            yield 'old %s' % m, ('old', next(y for y in xs[2:] if not m.startswith('DMOS') or True), m, None)
        for b in ('unknown', 'mixed', 'mixed2', 'type', 'type2', 'partial', 'case', 'oldunknown', 'oldusage', 'nomodels', 'nodataset'):
            yield 'refuse ' + b, ('refuse', xs[0], b, None)

    def test(self, key, p):
        import matplotlib.pyplot as plt
        plt.close('all')
        kind, x, m, k = p
        try:
            getattr(self, 'do_' + kind)(key, x, m, k)
        finally:
            plt.close('all')

    def dataset(self, x, k):
        """(dataset, observer names)"""
        if isinstance(x, PC):
            return x.dataset(), None
        ds = x.dataset()
        if k % 3 == 1 and x.nc == 2:
            ds = gap(x, {0: 3, 1: 1})
        elif k % 3 == 1 and x.nc == 3:
            ds = gap(x, {0: 2, 1: 0, 2: 4})
        for i, v in enumerate(ds.dis_videos):
            v['path'] = 'dir %d/video-%d.yuv' % (i % 2, (i * 5 + 2) % 11)
            if k % 2 == 0:
                v['path'] = ('http://h//a/%d.yuv?x=1', './b%d.yuv', '../x/./c%d', ' d%d ', '/e/f/../%d.mp4', 'g%d/', 'Same', 'C:\\h%d.yuv', '\u00e9%d.yuv', '%d', '~/j%d')[(i + k) % 11].replace('%d', str(i))
            if i in x.refs:
                r = [r for r in ds.ref_videos if r['content_id'] == v['content_id']][0]
                v['path'] = r['path']
        names = sorted(x.read().names) if x.style == 'dict' else ['observer%d' % s for s in range(x.S)]
        return ds, names

    def do_run(self, key, x, names, k):
        if any(n in SLOW and not spaces.mle_ok(x, n) for n in names):
            skip('likelihood has no well-defined maximum')
            return
        ds, observers = self.dataset(x, k)
        ext = '.json' if k % 2 and not isinstance(x, PC) else '.py'
        sub = ('', 'old.pyfiles', 'v1.json', 'a b', '.py.json', 'json.py')[k % 6]
        os.makedirs(scratch(sub), exist_ok=True)
        f = scratch(os.path.join(sub, ('d%s', 'd.py%s', 'd.json%s')[k // 6 % 3] % core.digest(key))) + ext
        write(ds, f)
        pc = isinstance(x, PC)
        kw = {'dataset_reader_class': PairedCompDatasetReader} if pc else {}
        state((key,))
        transition()
        loaded, ms, res = routine.run_subjective_models(f, [models.cls_of(n) for n in names], **kw)
        require(len(ms) == len(res) == len(names), '%d models, %d results for %s' % (len(ms), len(res), names))
        ref_ = [alone(n, ds) for n in names]
        paths = [v['path'] for v in ds.dis_videos]
        for n, mo, r, w in zip(names, ms, res, ref_):
            require(mo.TYPE == n, 'model %s in place of %s' % (mo.TYPE, n))
            check_same(n + ' dis_video_names', list(r['dis_video_names']), paths)
            a, b = plain(r), plain(w)
            require(set(a) == set(b), '%s reports %s, alone %s' % (n, sorted(a), sorted(b)))
            for kk in b:
                check_same('%s %s' % (n, kk), a[kk], b[kk], 1e-9, 1e-9)
        if ext != '.json':
            deq([v.get('os') for v in ds.dis_videos], [v.get('os') for v in loaded.dis_videos], 'votes of the returned dataset')
        out = routine.format_output_of_run_subjective_models(loaded, ms, res)
        compare_out(out, expected(ds, names, ref_, observers))
        outcome([names, [r['quality_scores'] for r in ref_]])
        os.remove(f)

    def do_reader(self, key, x, names, k):
        """the run uses the dataset reader it is given, with the settings it is given"""
        rd, k = k
        ds, _ = self.dataset(x, 3 * k)
        sel = list(range(x.S))[::-1][:-1]
        vid = [e for e in range(x.E) if e != 1]
        cls, info = {
            'subjects': (SelectSubjectRawDatasetReader, {'selected_subjects': sel}),
            'twice': (SelectSubjectRawDatasetReader, {'selected_subjects': sel + sel[:2]}),
            'videos': (SelectDisVideoRawDatasetReader, {'selected_dis_videos': vid}),
            'missing': (MissingDataRawDatasetReader, {'missing_probability': 0.2, 'seed': k}),
        }[rd]
        f = scratch('rd%s.py' % core.digest(key))
        write(ds, f)
        state((key,))
        transition()
        _, ms, res = routine.run_subjective_models(f, [models.cls_of(n) for n in names], dataset_reader_class=cls, dataset_reader_info_dict=dict(info))
        os.remove(f)
        require(len(ms) == len(res) == len(names), '%d models, %d results for %s' % (len(ms), len(res), names))
        kept = vid if rd == 'videos' else range(x.E)
        for n, mo, r in zip(names, ms, res):
            w = models.cls_of(n)(cls(ds, input_dict=dict(info))).run_modeling()
            require(mo.TYPE == n, 'model %s in place of %s' % (mo.TYPE, n))
            check_same(n + ' dis_video_names', list(r['dis_video_names']), [ds.dis_videos[e]['path'] for e in kept])
            a, b = plain(r), plain(w)
            require(set(a) == set(b), '%s reports %s, alone %s' % (n, sorted(a), sorted(b)))
            for kk in b:
                check_same('%s %s %s' % (rd, n, kk), a[kk], b[kk], 1e-9, 1e-9)
            outcome([rd, n, w['quality_scores']])

    def do_cli(self, key, x, names, k):
        import matplotlib.pyplot as plt
        switches, todir, idx = k
        ds, observers = self.dataset(x, idx)
        pc = isinstance(x, PC)
        f = scratch('c%s' % core.digest(key)) + ('.json' if idx % 2 and not pc else '.py')
        write(ds, f)
        d = scratch('out%s/deeper' % core.digest(key))
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)
        argv = ['sureal', '--dataset', f, '--models'] + list(names) + (['--output-dir', d] if todir else []) + list(switches)
        state((key,))
        transition()
        buf = io.StringIO()
        saved = sys.argv
        sys.argv = argv
        try:
            with contextlib.redirect_stdout(buf):
                rc = cli.main()
        finally:
            sys.argv = saved
        require(rc == 0, 'exit code %r' % rc)
        if todir:
            out = json.load(open(os.path.join(d, 'output.json')))
        else:
            t = buf.getvalue()
            out = json.loads(t[t.index('{'):t.rindex('}') + 1])
        ref_ = [alone(n, ds) for n in names]
        compare_out(out, expected(ds, names, ref_, observers))
        want = ('--plot-raw-data' in switches) * (1 if pc else 3) + ('--plot-dis-videos' in switches) + ('--plot-observers' in switches)
        figs = [plt.figure(i) for i in plt.get_fignums()]
        kinds = sorted(self.kind(fg) for fg in figs)
        exp_kinds = []
        if '--plot-raw-data' in switches:
            exp_kinds += ['image'] + ([] if pc else ['points', 'points'])
        if '--plot-dis-videos' in switches:
            exp_kinds += ['bars']
        if '--plot-observers' in switches:
            exp_kinds += ['two']
        require(kinds == sorted(exp_kinds), 'plots %s, expected %s' % (kinds, sorted(exp_kinds)))
        if todir:
            files = sorted(os.listdir(d))
            pngs = [n for n in files if n.endswith('.png')]
            require(len(pngs) == want and len(files) == want + 1, 'files %s, expected output.json and %d plots' % (files, want))
            for n in pngs:
                require(open(os.path.join(d, n), 'rb').read(4) == b'\x89PNG', n + ' is not a picture')
            shutil.rmtree(os.path.dirname(d))
        os.remove(f)
        outcome([names, switches, todir, kinds])

    def kind(self, fig):
        axs = [a for a in fig.axes if a.get_label() != '<colorbar>']
        if len(axs) == 2:
            return 'two'
        a = axs[0]
        if a.images:
            return 'image'
        if a.containers:
            return 'bars'
        if a.collections:
            return 'points'
        return 'bars' if a.lines else '?'

    def do_old(self, key, x, name, k):
        ds, observers = self.dataset(x, 0)
        f = scratch('o%s.py' % core.digest(key))
        write(ds, f)
        for todir, pr in ((True, False), (True, True), (False, True)):
            d = scratch('oldout')
            shutil.rmtree(d, ignore_errors=True)
            import matplotlib.pyplot as plt
            plt.close('all')
            saved = sys.argv
            sys.argv = ['sureal', name, f] + (['--output-dir', d] if todir else []) + (['--print'] if pr else [])
            state((key, todir, pr))
            transition()
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    rc = old_cli.main()
            finally:
                sys.argv = saved
            require(rc == 0, 'exit code %r' % rc)
            want = models.cls_of(name)(RawDatasetReader(ds)).run_modeling(gradient_method='simplified', normalize_final=False) \
                if name in SLOW + ('DMOS_MLE_CO',) else alone(name, ds)
            n = 2 + (name in ('MLE', 'MLE_CO', 'MLE_CO_AP', 'MLE_CO_AP2', 'DMOS_MLE', 'DMOS_MLE_CO')) + (name in ('MLE', 'DMOS_MLE'))
            if todir:
                out = json.load(open(os.path.join(d, 'sureal.json')))
                for kk in ('quality_scores', 'quality_scores_std', 'quality_scores_ci95', 'observer_bias', 'observer_inconsistency', 'content_ambiguity', 'bic'):
                    require((kk in out) == (kk in want), '%s %s' % (name, kk))
                    if kk in want and out[kk] != '<not serializable>':
                        check_same('%s %s' % (name, kk), out[kk], want[kk])
                check_same('names', out['dis_video_names'], [v['path'] for v in ds.dis_videos])
                require(sum(fn.endswith('.png') for fn in os.listdir(d)) == n, 'plots %s' % sorted(os.listdir(d)))
            if pr:
                t = buf.getvalue()
                out = json.loads(t[t.index('{\n'):t.rindex('}') + 1])
                check_same('%s printed scores' % name, out['quality_scores'], list(want['quality_scores']))
            shutil.rmtree(d, ignore_errors=True)
            outcome([name, todir, pr])
        os.remove(f)

    def do_refuse(self, key, x, b, k):
        ds = x.dataset()
        f = scratch('r.py')
        write(ds, f)
        pcf = scratch('pcr.py')
        write(from_wins([[0, 1], [3, 0]]).dataset(), pcf)
        out = scratch('rout')
        args = {
            'unknown': ['--dataset', f, '--models', 'MOS', 'NOSUCH'],
            'partial': ['--dataset', f, '--models', 'MO'],
            'case': ['--dataset', f, '--models', 'mos'],
            'mixed': ['--dataset', f, '--models', 'MOS', 'BT_MLE'],
            'mixed2': ['--dataset', pcf, '--models', 'BT_MLE', 'P910'],
            'type': ['--dataset', f[:-3] + '.txt', '--models', 'MOS'],
            'type2': ['--dataset', f[:-3], '--models', 'MOS'],
            'nomodels': ['--dataset', f, '--models'],
            'nodataset': ['--models', 'MOS'],
        }
        state((key,))
        transition()
        shutil.copy(f, f[:-3] + '.txt')
        shutil.copy(f, f[:-3])
        saved = sys.argv
        buf = io.StringIO()
        rc = 'refused'
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                if b == 'oldunknown':
                    sys.argv = ['sureal', 'NOSUCH', f, '--output-dir', out]
                    rc = old_cli.main()
                elif b == 'oldusage':
                    sys.argv = ['sureal', 'MOS']
                    rc = old_cli.main()
                else:
                    sys.argv = ['sureal'] + args[b] + ['--output-dir', out]
                    rc = cli.main()
        except (Exception, SystemExit):
            pass
        finally:
            sys.argv = saved
        require(rc not in (0, None), '%s was not refused' % b)
        require(not os.path.exists(os.path.join(out, 'output.json')), '%s: output written' % b)
        outcome([b])
