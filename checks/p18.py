import copy, itertools, json, math, random
from types import SimpleNamespace
import numpy as np
from mc import core, exp, models, ref, nondet
from mc.exp import Exp, NAN
from mc.pc import PC, from_wins
from mc.core import Check, outcome, state, skip, check_same, require, scratch, transition
import sureal.dataset_reader as dr
from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader, DatasetReader
from sureal.tools.misc import import_python_file, import_json_file

ODD = ["plain", "O'Neill", 'say "hi"', 'back\\slash', 'tab\there', 'line\nbreak', 'Zo\u00eb', '\u65e5\u672c', '# not a comment', '%s {0} $x', '', ' lead', "'''", '"""', '\\n', 'a' * 120, 'nan', 'None', '1']
VALUES = [0, -3, 1.5, 1e-300, 0.1 + 0.2, 1e22, True, None, 'x', "it's", [1, [2, 'y']], (1, 2), {'a': 1, 'b': {'c': [None]}}, [], {}, (3,), 'two\nlines', 12345678901234567890,
          [0.1] * 40, {'k%02d' % i: i for i in range(40)}, set([1]), b'bytes', -0.0,
          NAN, float('inf'), [1, -float('inf')], {'a': NAN, 'b': [[NAN, 2]]}, (NAN, 2), [{'a': 1}, {'a': 1}], [{'b': 1, 'a': 2}, {'z': '', 'y': None}]]


def deq(a, b, path=''):
    """structural equality: values and kinds (numpy scalars count as Python numbers), NaN equal to NaN"""
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, float) and isinstance(b, float):
        ok = (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
        require(ok, '%s: %r, was %r' % (path, b, a))
        return
    require(type(a) is type(b), '%s: %s, was %s' % (path, core.short(b, 100), core.short(a, 100)))
    if isinstance(a, dict):
        require(a.keys() == b.keys(), '%s: keys %s, were %s' % (path, core.short(list(b), 300), core.short(list(a), 300)))
        for k in a:
            deq(a[k], b[k], '%s[%r]' % (path, k))
    elif isinstance(a, (list, tuple)):
        require(len(a) == len(b), '%s: length %d, was %d' % (path, len(b), len(a)))
        for i, (x, y) in enumerate(zip(a, b)):
            deq(x, y, '%s[%d]' % (path, i))
    else:
        require(a == b, '%s: %r, was %r' % (path, b, a))


def fields(ds):
    return {k: v for k, v in vars(ds).items() if not k.startswith('__')}


class CHECK(Check):
    rule = ('every dataset of the small grids and lattice in every style, every odd string at every place a string can stand, every '
            'value kind as attribute and video field, and every exporter/converter/combiner/simulation reader of the package on a '
            'lattice: written, loaded, compared field by field, modelled again; written again and compared; JSON against Python')

    def cases(self, tier):
        q = tier == 'quick'
        for style in ('list', 'tuple', 'dict'):
            for x in exp.small_grids('quick', (style,), True):
                yield 'grid %s %s' % (style, x.tag), ('rating', x)
        for i, x in enumerate(exp.zoo(tier, big=not q)):
            if not q or i % 3 == 0:
                yield 'zoo ' + x.tag, ('rating', x)
        for x in exp.lattice(((270, 3), (3, 270), (40, 40)), ('none', 'ragged'), ('none', 'diag'), (exp.ACR, exp.CONT), ('list', 'dict'), ('far',), salts=(4,)):
            yield 'large ' + x.tag, ('rating', x)
        for i, s in enumerate(ODD):
            for place in ('name', 'path', 'refpath', 'content_name', 'observer', 'attr', 'field', 'fieldname', 'license', 'subject'):
                yield 'odd %d %s' % (i, place), ('odd', s, place)
        for i, v in enumerate(VALUES):
            for place in ('attr', 'field', 'reffield', 'subjects', 'license'):
                yield 'value %d %s' % (i, place), ('value', v, place)
        for k, x in enumerate(exp.lattice(((2, 2), (4, 3), (6, 5)), ('none', 'all2', 'ragged'), ('none', 'diag', 'vid'), (exp.ACR, exp.CONT), ('list', 'dict'), ('alt', 'one'), refs=True)):
            for how in ('aggregated', 'persubject', 'pc', 'combined', 'dictionary', 'missing', 'select', 'corrupt', 'corruptdata', 'synthetic', 'logistic'):
                yield 'made %s %s' % (how, x.tag), ('made', how, x)
        for perm in itertools.permutations(range(3)):
            yield 'order %r' % (perm,), ('order', perm)
        for a in ('_private', '_', 'x_', 'X', '_dis_videos', 'ref_videos_', 'subjects2', 'os', 'dataset_name2', '\u00e9', '___x'.lstrip('_') + '__', 'a' * 60):
            yield 'attribute ' + a, ('attribute', a)
        for n, comps in ((2, 1), (3, 2), (4, 5)):
            for st in itertools.product((0, 0.5, 1), repeat=min(3, n)):
                yield 'pc %d %r' % (n, st), ('pcds', PC(n, [(ODD[(i * 3 + n) % len(ODD)], i, (i + 1) % n, v) for i, v in enumerate(st) if n > 2 or i == 0], ids=list(reversed(range(n)))))

    def trip(self, what, ds, write=DatasetReader.write_out_dataset):
        transition()
        f = scratch('p18.py')
        before = copy.deepcopy(fields(ds))
        write(ds, f)
        deq(before, fields(ds), what + ' writing changed the dataset: ')
        back = import_python_file(f)
        deq(before, fields(back), what + ' ')
        g = scratch('p18b.py')
        DatasetReader.write_out_dataset(SimpleNamespace(**fields(back)), g)
        deq(before, fields(import_python_file(g)), what + ' second trip ')
        core.CTX.validated += 1
        return back

    def both(self, a, b, names=('MOS', 'BR_SR_MOS')):
        for n in names:
            x, y = models.run(n, RawDatasetReader(a)), models.run(n, RawDatasetReader(b))
            require(x.keys() == y.keys(), n + ' keys')
            for k in x:
                check_same('%s on reloaded file: %s' % (n, k), y[k], x[k], 0, 0)
        outcome(x['quality_scores'])

    def test(self, key, p):
        kind = p[0]
        state(repr(p))
        if kind == 'rating':
            x = p[1]
            ds = x.dataset()
            back = self.trip(x.style, ds)
            if x.all_votes_nonempty():
                self.both(ds, back)
            if x.style != 'tuple' and not any(isinstance(c, tuple) for v in ds.dis_videos for c in (v['os'].values() if isinstance(v['os'], dict) else v['os'])):
                f = scratch('p18.json')
                with open(f, 'w') as h:
                    json.dump(fields(ds), h)
                deq(fields(ds), fields(import_json_file(f)), 'json ')
        elif kind == 'odd':
            _, s, place = p
            x = exp.fill(3, 3, exp.ACR)
            ds = Exp([[(v,) for v in r] for r in x], content=(0, 1, 0), style='dict').dataset()
            self.put(ds, place, s)
            back = self.trip(place, ds)
            self.both(ds, back)
            f = scratch('p18.json')
            for asc in (True, False):
                with open(f, 'w', encoding='utf-8') as h:
                    json.dump(fields(ds), h, ensure_ascii=asc)
                deq(fields(ds), fields(import_json_file(f)), 'json ')
        elif kind == 'value':
            _, v, place = p
            ds = Exp([[(v_,) for v_ in r] for r in exp.fill(3, 2, exp.ACR)], content=(0, 1, 0)).dataset()
            self.put(ds, place, v)
            self.both(ds, self.trip(place, ds))
            if not isinstance(v, (tuple, set, bytes)):
                f = scratch('p18.json')
                with open(f, 'w') as h:
                    json.dump(fields(ds), h)
                deq(fields(ds), fields(import_json_file(f)), 'json ')
        elif kind == 'order':
            # lists are written in their own order
            ds = Exp([[(v_,) for v_ in r] for r in exp.fill(5, 2, exp.ACR)], content=(0, 1, 2, 1, 0), asset_ids=(4, 2, 0, 1, 3)).dataset()
            ds.ref_videos = [ds.ref_videos[i] for i in p[1]]
            ds.dis_videos = [ds.dis_videos[i] for i in p[1]] + ds.dis_videos[3:]
            ds.dis_videos[0] = dict(reversed(list(ds.dis_videos[0].items())))
            self.both(ds, self.trip('order', ds))
        elif kind == 'attribute':
            ds = Exp([[(v_,) for v_ in r] for r in exp.fill(3, 2, exp.ACR)], content=(0, 1, 0)).dataset()
            setattr(ds, p[1], [1, 'x'])
            self.both(ds, self.trip('attribute', ds))
        elif kind == 'pcds':
            ds = p[1].dataset()
            back = self.trip('pc', ds)
            check_same('comparison table of the reloaded file', PairedCompDatasetReader(back).opinion_score_3darray, p[1].table(), 0, 0)
            outcome(p[1].table())
        else:
            self.made(p[1], p[2])

    def put(self, ds, place, s):
        if place == 'name':
            ds.dataset_name = s
        elif place == 'path':
            ds.dis_videos[1]['path'] = s
        elif place == 'refpath':
            ds.ref_videos[1]['path'] = s
        elif place == 'content_name':
            ds.ref_videos[0]['content_name'] = s
        elif place == 'observer':
            for v in ds.dis_videos:
                v['os'][s] = v['os'].pop('obs001')
        elif place == 'attr':
            ds.extra = s
        elif place == 'field':
            ds.dis_videos[2]['extra'] = s
        elif place == 'reffield':
            ds.ref_videos[0]['extra'] = s
        elif place == 'fieldname':
            ds.dis_videos[2][s] = 7
        elif place == 'license':
            ds.license = s
        elif place == 'subject':
            ds.subjects = [{'name': s, 'age': 30}, {'name': 'b'}]
        elif place == 'subjects':
            ds.subjects = s

    def made(self, how, x):
        src = x.dataset()
        src.subjects = [{'name': 'n'}]
        src.license = "it's\nfree"
        rd = RawDatasetReader(src)
        f = scratch('p18m.py')
        if how == 'aggregated':
            for n in ('MOS', 'MLE_CO_AP'):
                m = models.cls_of(n)(rd)
                m.run_modeling()
                ds = m.to_aggregated_dataset(quality_width=3)
                self.trip(how, ds)
                m.to_aggregated_dataset_file(f, quality_width=3)
                deq(fields(ds), fields(import_python_file(f)), how + ' file ')
            q = list(m.model_result['quality_scores'])
            ds = rd.to_aggregated_dataset([NAN] + q[1:], scores_std=[1.0] * len(q))
            self.trip(how + ' undefined', ds)
        elif how == 'persubject':
            if x.R > 1 or (x.style == 'list' and not all(x.votes(e, s) for e in range(x.E) for s in range(x.S))):
                if x.style == 'dict' and x.R > 1:
                    skip('per-subject export of repeated dictionary votes')
                    return
            m = models.cls_of('PERSUBJECT')(rd)
            m.run_modeling()
            ds = m.to_aggregated_dataset()
            self.trip(how, ds)
            m.to_aggregated_dataset_file(f)
            deq(fields(ds), fields(import_python_file(f)), how + ' file ')
        elif how == 'pc':
            if x.R > 1:
                return skip('comparisons of repeated votes')
            for o in (dict(), dict(pc_type='within_subject'), dict(pc_type='within_subject', sampling_seed=3, sampling_rate=0.5, cointoss_rate=0.3)):
                ds = rd.to_pc_dataset(**o)
                back = self.trip(how, ds)
                rd.to_pc_dataset_file(f, **o)
                deq(fields(ds), fields(import_python_file(f)), how + ' file ')
                if any(v['os'] for v in ds.dis_videos):
                    check_same('pc table', PairedCompDatasetReader(back).opinion_score_3darray, PairedCompDatasetReader(ds).opinion_score_3darray, 0, 0)
        elif how == 'combined':
            y = x.but(cells=x.cells[1:], content=x.content[1:], refs=[e - 1 for e in x.refs if e > 0], asset_ids=x.asset_ids[1:])
            other = y.dataset()
            other.dataset_name = 'other'
            for i, v in enumerate(other.dis_videos):
                v['path'] = src.dis_videos[i + 1]['path']
            ds = rd.to_combined_overlap_dataset(RawDatasetReader(other))
            back = self.trip(how, ds)
            self.both(ds, back, ('MOS',))
            rd.to_combined_overlap_dataset_file(f, RawDatasetReader(other))
            deq(fields(ds), fields(import_python_file(f)), how + ' file ')
        elif how == 'dictionary':
            ds = rd.to_dictionary_style_dataset()
            back = self.trip(how, ds)
            self.both(ds, back, ('MOS',))
            rd.to_dictionary_style_dataset_file(f)
            deq(fields(ds), fields(import_python_file(f)), how + ' file ')
        else:
            cls, inp = {
                'missing': (dr.MissingDataRawDatasetReader, dict(missing_probability=0.3, seed=2)),
                'select': (dr.SelectSubjectRawDatasetReader, dict(selected_subjects=[1, 0])),
                'corrupt': (dr.CorruptSubjectRawDatasetReader, dict(selected_subjects=[1], corrupt_behavior='flip')),
                'corruptdata': (dr.CorruptDataRawDatasetReader, dict(corrupt_probability=0.4)),
                'synthetic': (dr.SyntheticRawDatasetReader, None),
                'logistic': (dr.SyntheticLogisticRawDatasetReader, None)}[how]
            if inp is None:
                S = rd.num_observers
                inp = dict(quality_scores=np.linspace(1, 4, x.E), observer_bias=np.linspace(-.5, .5, S), observer_inconsistency=np.linspace(.1, .4, S),
                           content_bias=np.zeros(x.nc), content_ambiguity=np.ones(x.nc) * 0.2, seed=4)
            np.random.seed(7)
            ds = cls(src, input_dict=inp).to_dataset()
            np.random.seed(7)
            T = np.array(cls(src, input_dict=inp).opinion_score_3darray)
            back = self.trip(how, ds)
            check_same(how + ' table read back', RawDatasetReader(back).opinion_score_3darray, T, 0, 0)
            outcome(T)
