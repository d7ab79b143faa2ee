import itertools, math
import numpy as np
from mc import core, exp, models, ref, spaces
from mc.pc import from_wins
from mc.core import Check, outcome, state, skip, check_same, require, transition
from sureal.dataset_reader import PairedCompDatasetReader

COEF = {'p2': (0.5, -2.0), 'p1': (3.0, -0.25), 'p0': (7.0, -1.5)}
ALL = spaces.CLOSED_ABS[:-2] + spaces.CLOSED_Z + spaces.CLOSED_D + spaces.PROJ[:-1] + spaces.ITER + spaces.ITER_D + ('LS', 'MLE_legacy')


def transforms():
    for k in range(4):
        for orders in itertools.combinations(('p0', 'p1', 'p2'), k):
            for sign in ((0, 1) if orders else (0,)):
                yield {o: COEF[o][(sign + i) % 2] for i, o in enumerate(orders)}
    yield {'p1': 0.0, 'p0': 2.0}
    yield {'p2': 1, 'p1': 2, 'p0': 3}


class CHECK(Check):
    case_timeout = 300
    rule = ('every model times every subset of transform orders and the normalisation switch on every experiment of a lattice: '
            'quality scores recomputed from the plain run, everything else compared with it; every contradicting option per model')

    def worker_init(self):
        import time
        time.sleep = lambda *_: None

    def cases(self, tier):
        q = tier == 'quick'
        xs = list(exp.real_lattice(((5, 6), (8, 11)) if q else ((4, 5), (5, 6), (8, 11), (12, 12)), ('none', 'ragged', 'all2'), ('none', 'diag', 'vid'), ('alt',) if q else ('alt', 'blk'),
                                   quants=(1.0, None), refs=True))
        for i, x in enumerate(xs):
            for name in ALL:
                heavy = name in spaces.ITER + spaces.ITER_D + ('MLE_legacy',)
                if heavy and (i % 6 != 0 if q else i % 2 != 0):
                    continue
                if name in ('LS', 'MLE_legacy') and not (x.R == 1 and all(x.votes(e, s) for e in range(x.E) for s in range(x.S))):
                    continue
                yield '%s %s' % (name, x.tag), ('rating', name, x)
        for k, W in enumerate(([[0, 2, 1], [1, 0, 3], [1, 1, 0]], [[0, 1], [3, 0]], [[0, 5, 1, 0], [1, 0, 2, 2], [1, 2, 0, 1], [1, 1, 4, 0]])):
            for name in ('BT_NR', 'BT_MLE', 'THURSTONE_MLE'):
                yield 'pc %s %d' % (name, k), ('pc', name, from_wins(W))
        for i, x in enumerate(xs[:6]):
            for name in ALL + ('PERSUBJECT',):
                if name in ('LS', 'MLE_legacy', 'PERSUBJECT') and not (x.R == 1 and all(x.votes(e, s) for e in range(x.E) for s in range(x.S))):
                    continue
                yield 'refuse %s %s' % (name, x.tag), ('refuse', name, x)

    def go(self, kind, name, x, **opts):
        transition()
        if kind == 'pc':
            return models.cls_of(name)(PairedCompDatasetReader(x.dataset())).run_modeling(**opts)
        return models.cls_of(name)(models.reader(x)).run_modeling(**opts)

    def test(self, key, p):
        kind, name, x = p
        if kind == 'refuse':
            return self.refuse(name, x)
        state((name, x.key()))
        plain = self.go(kind, name, x)
        q = [float(v) for v in plain['quality_scores']]
        if kind == 'rating' and (not all(math.isfinite(v) for v in q) or max(q) - min(q) < 1e-9):
            skip('no defined scores')
            return
        m, sd = ref.mean(q), ref.pstd(q)
        heavy = name in spaces.ITER + spaces.ITER_D + ('MLE_legacy',)
        combos = [(nz, t) for nz in (None, True) for t in [None] + list(transforms())][1:] + [(False, None), (False, {'p1': 3.0}), (False, {})]
        if heavy:
            combos = [c for i, c in enumerate(combos) if i % 5 == len(key) % 5 or (c[0] and c[1] is None)]
        for nz, t in combos:
            opts = {}
            if nz is not None:
                opts['normalize_final'] = nz
            if t is not None:
                opts['transform_final'] = dict(t)
            res = self.go(kind, name, x, **opts)
            want = [(v - m) / sd for v in q] if nz else list(q)
            if t is not None:
                want = [t.get('p2', 0) * v * v + t.get('p1', 0) * v + t.get('p0', 0) for v in want]
            what = '%s normalize=%s transform=%s' % (name, nz, t)
            check_same(what + ' quality', res['quality_scores'], want, 1e-9, 1e-9)
            require(set(res) == set(plain), what + ': keys differ: %s' % sorted(set(res) ^ set(plain)))
            for k in plain:
                if k != 'quality_scores':
                    check_same(what + ' ' + k, res[k], plain[k], 1e-12, 1e-12)
            outcome(res['quality_scores'])

    def refuse(self, name, x):
        d, z, b, scr = spaces.pipe_of(name) if name in models.PIPE or name == 'LIVE_DMOS' else (0, 0, 0, None)
        bad = [dict(zscore_mode=True, bias_offset=True)] + ([] if scr and name != 'LIVE_DMOS' else [dict(subject_rejection_type='kurtosis')])
        if name in spaces.PROJ:
            bad = []
        bad += [dict(subject_rejection=True, subject_rejection_type='nonsense')]
        if d or name.startswith('DMOS'):
            bad.append(dict(dscore_mode=True))
        if z:
            bad.append(dict(zscore_mode=True))
        if b:
            bad.append(dict(bias_offset=True))
        if (scr and name != 'LIVE_DMOS') or name in spaces.ITER + spaces.ITER_D + ('LS', 'MLE_legacy'):
            bad.append(dict(subject_rejection=True))
        if name in spaces.ITER + spaces.ITER_D:
            bad.append(dict(gradient_method='nonsense'))
        for opts in bad:
            transition()
            state((name, x.key(), sorted(opts.items())))
            for nz in (False, True):
                o = dict(opts, normalize_final=True) if nz else opts
                require(models.refused(models.cls_of(name)(models.reader(x)).run_modeling, **o), '%s accepts %s' % (name, o))
            outcome([name, sorted(opts)])
        # the same options set to what the model does anyway are harmless
        if name in models.PIPE:
            base = self.go('rating', name, x)
            keep = dict(normalize_final=False, transform_final=None)
            if not d:
                keep['dscore_mode'] = False
            if not z:
                keep['zscore_mode'] = False
            if not b:
                keep['bias_offset'] = False
            res = self.go('rating', name, x, **keep)
            for k in base:
                check_same(name + ' neutral options ' + k, res[k], base[k], 1e-12, 1e-12)
