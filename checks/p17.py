import copy, itertools, math
import numpy as np
from mc import core, exp, models, ref, spaces
from mc.exp import Exp, NAN
from mc.pc import from_wins, PC
from mc.core import Check, outcome, state, skip, check_same, require, scratch, transition
from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader, DatasetReader
from sureal.tools.misc import import_python_file

MODELS = ('MOS', 'DMOS', 'SR_MOS', 'BR_MOS', 'BR_SR_MOS', 'ZS_MOS', 'SR_MOS_PCC', 'MLE_CO_AP', 'Subject_MLE_Projection2', 'LIVE_DMOS', 'LS')


def rich(x):
    """dataset with extra per-video and per-dataset facts"""
    ds = x.dataset()
    for i, v in enumerate(ds.dis_videos):
        v['bitrate'] = 100 * (i + 1)
        if i % 2:
            v['resampling_type'] = 'bicubic'
        if i % 3 == 1:
            v['crop_cmd'] = [i, 'x']
    for i, v in enumerate(ds.ref_videos):
        v['fps'] = 24 + i
    ds.note = {'k': [1, 2]}
    ds._origin = 'lab'
    return ds


def subsets(items, full):
    items = list(items)
    if len(items) <= full:
        for k in range(len(items) + 1):
            yield from (list(c) for c in itertools.combinations(items, k))
    else:
        yield from ([], items[:1], items[1:], items[::2], items[::-1], items[-2:] + items[:1])


def facts(v, drop=('os', 'groundtruth', 'groundtruth_std')):
    return {k: w for k, w in v.items() if k not in drop}


class CHECK(Check):
    case_timeout = 300
    rule = ('every model times every subset of content ids and of asset ids (datasets of 4 videos; structured subsets beyond), every '
            'combination of overriding options, every dataset of a lattice: exported videos, metadata, scores and deviations compared '
            'with the model results and the source; per-subject export; filtered loading compared with prior removal')

    def cases(self, tier):
        q = tier == 'quick'
        for x in exp.real_lattice(((4, 5), (7, 6)), ('none', 'ragged'), ('none', 'diag'), ('alt', 'blk'), quants=(1.0,) if q else (1.0, None), refs=True):
            for ids in (None, [(3 * i + 1) % x.E if x.E % 3 else x.E - 1 - i for i in range(x.E)], [90 - 7 * i for i in range(x.E)]):
                y = x if ids is None else x.but(asset_ids=ids)
                for m in MODELS:
                    if m == 'LS' and not (x.R == 1 and 'none/none' in x.tag):
                        continue
                    yield 'aggr %s %s %s' % (m, x.tag, ids), ('aggr', m, y)
                yield 'filter %s %s' % (x.tag, ids), ('filter', y)
        for k, cont in enumerate(((0, 0, 0, 1, 1), (1, 1, 1, 0, 0), (0, 0, 0, 0, 0), (2, 2, 0, 1, 1))):
            yield 'pcfilter %d' % k, ('pcfilter', cont)
        for k, W in enumerate(([[0, 2, 1], [1, 0, 3], [1, 1, 0]], [[0, 5, 1, 0], [1, 0, 2, 2], [1, 2, 0, 1], [1, 1, 4, 0]])):
            for ids in (None, list(reversed(range(len(W))))):
                for m in ('BT_MLE', 'BT_NR', 'THURSTONE_MLE'):
                    yield 'pc %s %d %s' % (m, k, ids), ('pc', m, from_wins(W, ids))
        for v in (3, 0, 2.5):
            for m in ('MOS', 'BR_MOS', 'DMOS'):
                x = exp.Exp([[(v,)] * 4] * 3, content=(0, 1, 0), refs=(0, 1), style='list')
                yield 'aggr unanimous %s %s' % (m, v), ('aggr', m, x)
        for x in exp.lattice(((60, 3), (24, 4)), ('none',), ('none', 'diag'), (exp.ACR,), ('list', 'dict'), ('many', 'far', 'each'), salts=(6,)):
            yield 'manyfilter ' + x.tag, ('manyfilter', x)
        for style in ('list', 'tuple', 'dict'):
            for i, x in enumerate(exp.grid(2, 2, ((1,), (2.5,), ()), style=style, content=(0, 1))):
                if x.all_votes_nonempty():
                    yield 'per %s %d' % (style, i), ('per', x)
        for x in exp.lattice(((3, 4), (5, 3), (8, 9)), ('none',), ('none', 'diag', 'obs', 'vid', 'one'), (exp.ACR, exp.CONT), ('list', 'tuple', 'dict'), ('alt', 'one'), refs=True):
            yield 'per ' + x.tag, ('per', x)

    def worker_init(self):
        import time
        time.sleep = lambda *_: None

    def test(self, key, p):
        if p[0] == 'aggr':
            self.aggr(key, p[1], p[2])
        elif p[0] == 'pc':
            self.pc(p[1], p[2])
        elif p[0] == 'manyfilter':
            self.manyfilt(key, p[1])
        elif p[0] == 'pcfilter':
            self.pcfilt(key, p[1])
        elif p[0] == 'filter':
            self.filt(key, p[1])
        else:
            self.per(key, p[1])

    def compare(self, what, out, src, q, sd, keep=lambda v: True, over={}):
        want = [(v, a, None if sd is None else sd[i]) for i, (v, a) in enumerate(zip(src.dis_videos, q)) if keep(v)]
        require(len(out.dis_videos) == len(want), '%s: %d videos, expected %d' % (what, len(out.dis_videos), len(want)))
        for v, (w, a, s) in zip(out.dis_videos, want):
            require(facts(v) == facts(w), '%s: metadata %r, expected %r' % (what, facts(v), facts(w)))
            require('os' not in v, what + ': votes kept')
            check_same('%s: score of %s' % (what, w['path']), v['groundtruth'], float(a), 1e-12, 0)
            if s is None:
                require('groundtruth_std' not in v, what + ': deviation without a value')
            else:
                check_same('%s: deviation of %s' % (what, w['path']), v['groundtruth_std'], float(s), 1e-12, 0)
        require(out.ref_videos == src.ref_videos, what + ': references')
        for k in src.__dict__:
            if k not in ('dis_videos', 'ref_videos'):
                require(getattr(out, k) == over.get(k, getattr(src, k)), '%s: attribute %s' % (what, k))
        for k, v in over.items():
            require(getattr(out, k, None) == v, '%s: option %s not applied' % (what, k))
        outcome([v['groundtruth'] for v in out.dis_videos])

    def aggr(self, key, m, x):
        if m == 'LIVE_DMOS' or m == 'ZS_MOS':
            if any(len(set(ref.of_observer(x.T(), s))) < 2 for s in range(len(x.T()[0]))):
                skip('z-scoring undefined')
                return
        src = rich(x)
        pristine = copy.deepcopy(src)
        mod = models.cls_of(m)(RawDatasetReader(src))
        require(models.refused(mod.to_aggregated_dataset), 'export before modelling accepted')
        transition()
        res = mod.run_modeling()
        q, sd = list(res['quality_scores']), res.get('quality_scores_std')
        self.compare(m, mod.to_aggregated_dataset(), pristine, q, sd)
        cids, aids = sorted(set(x.content)), list(x.asset_ids)
        for cs in [None] + list(subsets(cids, 3)):
            for as_ in [None] + list(subsets(aids, 4)):
                o = {}
                if cs is not None:
                    o['aggregate_content_ids'] = cs
                if as_ is not None:
                    o['aggregate_asset_ids'] = as_
                state((m, x.key(), repr(o)))
                transition()
                out = mod.to_aggregated_dataset(**o)
                self.compare('%s %r' % (m, o), out, pristine, q, sd,
                             lambda v: (cs is None or v['content_id'] in cs) and (as_ is None or v['asset_id'] in as_))
        for w, h, r in itertools.product((None, 640), (None, 360), (None, 'lanczos')):
            over = {k: v for k, v in (('quality_width', w), ('quality_height', h), ('resampling_type', r)) if v is not None}
            transition()
            self.compare('%s %r' % (m, over), mod.to_aggregated_dataset(**over), pristine, q, sd, over=over)
            d2 = rich(x)
            d2.quality_width, d2.quality_height, d2.resampling_type = 11, 12, 'own'
            m2 = models.cls_of(m)(RawDatasetReader(d2))
            if m != 'LS' and m[0] != 'L' and 'Proj' not in m:
                m2.run_modeling()
                self.compare('%s own %r' % (m, over), m2.to_aggregated_dataset(**over), d2, q, sd, over=over)
        f = scratch('p17_%s.py' % core.digest(key))
        mod.to_aggregated_dataset_file(f)
        self.compare(m + ' file', import_python_file(f), pristine, q, sd)
        mod.to_aggregated_dataset_file(f, aggregate_content_ids=cids[:1], quality_width=99)
        self.compare(m + ' filtered file', import_python_file(f), pristine, q, sd, lambda v: v['content_id'] in cids[:1], over={'quality_width': 99})
        require(repr(src.__dict__) == repr(pristine.__dict__), 'export changed the source dataset')

    def pc(self, m, x):
        src = x.dataset()
        mod = models.cls_of(m)(PairedCompDatasetReader(src))
        transition()
        res = mod.run_modeling()
        state((m, x.key()))
        for as_ in [None] + list(subsets(range(x.n), 4)):
            o = {} if as_ is None else dict(aggregate_asset_ids=as_)
            self.compare('%s %r' % (m, o), mod.to_aggregated_dataset(**o), x.dataset(), res['quality_scores'], res.get('quality_scores_std'),
                         lambda v: as_ is None or v['asset_id'] in as_)

    def per(self, key, x):
        for opts, f in (({}, None), (dict(bias_offset=True), lambda T: ref.remove_bias(T)), (dict(zscore_mode=True), lambda T: ref.zscore(T)),
                        (dict(dscore_mode=True), lambda T: ref.dscore(T, x.content, x.refs, x.ref_score))):
            T = x.T()
            if 'dscore_mode' in opts and not x.refs:
                continue
            if 'zscore_mode' in opts and any(len(set(ref.of_observer(T, s))) < 2 for s in range(len(T[0]))):
                continue
            P = f(T) if f else T
            src = rich(x)
            pristine = copy.deepcopy(src)
            mod = models.cls_of('PERSUBJECT')(RawDatasetReader(src))
            state((x.key(), repr(opts)))
            transition()
            mod.run_modeling(**opts)
            for over in ({}, dict(quality_width=5, resampling_type='z')):
                out = mod.to_aggregated_dataset(**over)
                want = [(i, v) for i in range(x.E) for v in ref.of_video(P, i)]
                got = [v for v in out.dis_videos if not math.isnan(v['groundtruth'])]
                require(len(got) == len(want), 'per-subject export has %d entries for %d votes' % (len(got), len(want)))
                for v, (i, a) in zip(got, want):
                    require(facts(v) == facts(pristine.dis_videos[i]), 'per-subject entry of %s: %r' % (pristine.dis_videos[i]['path'], facts(v)))
                    check_same('per-subject score of %s' % v['path'], v['groundtruth'], a)
                require(out.ref_videos == pristine.ref_videos, 'per-subject references')
                for k in over:
                    require(getattr(out, k) == over[k], 'per-subject option %s' % k)
                outcome([v['groundtruth'] for v in got])
            require(repr(src.__dict__) == repr(pristine.__dict__), 'per-subject export changed the source dataset')
        f = scratch('p17p_%s.py' % core.digest(key))
        mod.to_aggregated_dataset_file(f)
        a, b = import_python_file(f).dis_videos, mod.to_aggregated_dataset().dis_videos
        check_same('per-subject file', [v['groundtruth'] for v in a], [v['groundtruth'] for v in b])

    def manyfilt(self, key, x):
        f = scratch('p17m_%s.py' % core.digest(key))
        DatasetReader.write_out_dataset(rich(x), f)
        mod = models.cls_of('MOS')(RawDatasetReader(rich(x)))
        res = mod.run_modeling()
        cids, aids = sorted(set(x.content)), list(x.asset_ids)
        ways = lambda ids: [None, ids, ids[::-1], ids[1:], ids[:-1], ids[::2], ids[1::2], ids[-1:], ids + [12345]]
        for cs in ways(cids):
            for as_ in ways(aids):
                keep = lambda v: (cs is None or v['content_id'] in cs) and (as_ is None or v['asset_id'] in as_)
                state((x.key(), repr(cs), repr(as_)))
                transition()
                self.compare('many %r %r' % (cs, as_), mod.to_aggregated_dataset(aggregate_content_ids=cs, aggregate_asset_ids=as_), rich(x),
                             res['quality_scores'], res['quality_scores_std'], keep)
                want = [v for v in rich(x).dis_videos if keep(v)]
                if want:
                    got = models.cls_of('MOS').from_dataset_file(f, content_ids=cs, asset_ids=as_).dataset_reader.dataset
                    require(core.same(got.dis_videos, want, 0, 0), 'filtered loading %r %r: videos %r' % (cs, as_, [v['path'] for v in got.dis_videos]))

    def pcfilt(self, key, cont):
        """comparison datasets (comparisons within contents) loaded with filters"""
        n = len(cont)

        def make():
            comps = [(o, i, j, v) for i in range(n) for j in range(n) if i != j and cont[i] == cont[j] for o, v in (('a', 1), ('b', 0.5))]
            ds = PC(n, [('%s%d' % (o, min(i, j)), i, j, v) if i < j else ('c%d' % (i % 2), i, j, v) for o, i, j, v in comps]).dataset()
            ds.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': 'r%d' % c} for c in sorted(set(cont))]
            for v, c in zip(ds.dis_videos, cont):
                v['content_id'] = c
            return ds
        f = scratch('p17pc_%s.py' % core.digest(key))
        DatasetReader.write_out_dataset(make(), f)
        cids = sorted(set(cont))
        for cs in [None] + list(subsets(cids, 3)):
            for as_ in [None] + list(subsets(range(n), 5)):
                d = make()
                d.dis_videos = [v for v in d.dis_videos if (cs is None or v['content_id'] in cs) and (as_ is None or v['asset_id'] in as_)]
                state((cont, repr(cs), repr(as_)))
                transition()

                def table(g):
                    try:
                        return g().opinion_score_3darray
                    except (AssertionError, KeyError, IndexError, ValueError):
                        return None
                want = table(lambda: PairedCompDatasetReader(d))
                for m in ('BT_MLE', 'THURSTONE_MLE'):
                    got = table(lambda: models.cls_of(m).from_dataset_file(f, content_ids=cs, asset_ids=as_).dataset_reader)
                    require((got is None) == (want is None), 'filtered loading %r %r %s, prior removal %s' % (
                        cs, as_, 'refused' if got is None else 'accepted', 'refused' if want is None else 'accepted'))
                    if want is not None:
                        check_same('%s filtered comparisons %r %r' % (m, cs, as_), got, want, 0, 0)
        outcome([cont])

    def filt(self, key, x):
        f = scratch('p17f_%s.py' % core.digest(key))
        DatasetReader.write_out_dataset(rich(x), f)
        cids, aids = sorted(set(x.content)), list(x.asset_ids)
        for cs in [None] + list(subsets(cids, 3)):
            for as_ in [None] + list(subsets(aids, 4)):
                d = rich(x)
                d.dis_videos = [v for v in d.dis_videos if (cs is None or v['content_id'] in cs) and (as_ is None or v['asset_id'] in as_)]
                if not d.dis_videos:
                    try:
                        left = models.cls_of('MOS').from_dataset_file(f, content_ids=cs, asset_ids=as_).dataset_reader.dataset.dis_videos
                    except Exception:
                        left = []       # nothing is left to read: refusing is fine too
                    require(not left, 'loading with filters %r %r that keep no video kept %d' % (cs, as_, len(left)))
                    continue
                state((x.key(), cs, as_))
                transition()
                m = models.cls_of('MOS').from_dataset_file(f, content_ids=cs, asset_ids=as_)
                got = m.dataset_reader.dataset
                require(core.same(got.dis_videos, d.dis_videos, 0, 0), 'filtered loading %r %r: videos %r' % (cs, as_, [v['path'] for v in got.dis_videos]))
                a, b = m.run_modeling(), models.run('MOS', RawDatasetReader(d))
                for k in ('quality_scores', 'quality_scores_std', 'raw_scores'):
                    check_same('filtered %s' % k, a[k], b[k], 1e-12, 0)
                if len(d.dis_videos) > 2:
                    a = models.cls_of('BR_SR_MOS').from_dataset_file(f, cs, as_).run_modeling()
                    b = models.run('BR_SR_MOS', RawDatasetReader(d))
                    for k in ('quality_scores', 'observer_bias', 'observer_rejected'):
                        check_same('filtered %s' % k, a[k], b[k], 1e-12, 0)
                outcome(a['quality_scores'])
