import copy, itertools, math
import numpy as np
from mc import core, exp, models, ref
from mc.exp import Exp, NAN
from mc.core import Check, outcome, state, skip, check_same, require, scratch, transition
from checks.p18 import deq, fields
from types import SimpleNamespace
from sureal.dataset_reader import RawDatasetReader


def mk(name, vids, refs, **attrs):
    """vids: list of (path, content, os); refs: contents"""
    ds = SimpleNamespace(dataset_name=name, yuv_fmt='yuv420p', width=10, height=20, ref_score=5.0)
    for k, v in attrs.items():
        setattr(ds, k, v)
    ds.ref_videos = [{'content_id': c, 'content_name': '%s-c%d' % (name, c), 'path': '%s/ref%d' % (name, c), 'fps': 20 + c} for c in refs]
    ds.dis_videos = [{'content_id': c, 'asset_id': 10 * (i + 1) + len(name), 'path': p, 'os': os, 'from': name} for i, (p, c, os) in enumerate(vids)]
    return ds


def votes(v):
    """a recorded vote as list of repetitions"""
    return list(v) if isinstance(v, (list, tuple)) else [v]


def as_dict(ds, i):
    os = ds.dis_videos[i]['os']
    return dict(os) if isinstance(os, dict) else {'%s_subject%d' % (ds.dataset_name, k): v for k, v in enumerate(os)}


def expected(a, b):
    refs, dis, seen = [], [], []
    for i, v in enumerate(a.dis_videos):
        for j, w in enumerate(b.dis_videos):
            if v['path'] == w['path']:
                if v['content_id'] not in seen:
                    seen.append(v['content_id'])
                    r = [r for r in a.ref_videos if r['content_id'] == v['content_id']]
                    refs.append(dict(r[0], content_id=len(seen) - 1))
                d = {k: x for k, x in v.items() if k != 'os'}
                d['content_id'] = seen.index(v['content_id'])
                os = {}
                for src, k in ((a, i), (b, j)):
                    for o, x in as_dict(src, k).items():
                        os.setdefault(o, []).extend(votes(x))
                dis.append((d, os))
    return refs, dis


def osof(kind, e, names, salt):
    val = lambda k: 1 + (e * 3 + k * 2 + salt) % 5
    if kind == 'list':
        return [val(k) for k in range(len(names))]
    if kind == 'tuple':
        return tuple(val(k) + 0.5 for k in range(len(names)))
    if kind == 'listrep':
        return [[val(k), val(k + 1)] if (e + k) % 2 else val(k) for k in range(len(names))]
    if kind == 'listnan':
        return [NAN if (e + k) % 3 == 0 else val(k) for k in range(len(names))]
    if kind == 'dict':
        return {n: val(k) for k, n in enumerate(names)}
    if kind == 'dictrep':
        return {n: ([val(k), val(k + 2)] if (e + k) % 2 == 0 else (val(k),) if k % 2 else val(k)) for k, n in enumerate(names)}
    if kind == 'dictmiss':
        return {n: val(k) for k, n in enumerate(names) if (e + k) % 3}
    raise KeyError(kind)


KINDS = ('list', 'tuple', 'listrep', 'listnan', 'dict', 'dictrep', 'dictmiss')
DSNAMES = ('lab', 'lab_a', 'lab_b', 'lab_', 'Lab', 'lab 1', 'lab 11', 'lab1', 'a/lab', 'lab.v1', 'lab.v2', 'lab-1', '1', 'x' * 70, 'x' * 71, 'lab_subject', 'lab_subject1', '\xe9t\xe9', 'ete')
ALIKE = ('v/p1.yuv', 'v/P1.yuv', 'V/p1.yuv', 'v/p1.yuv ', ' v/p1.yuv', 'p1.yuv', './v/p1.yuv', 'v//p1.yuv', 'v/p1.mp4', 'v/p1', 'v/p1.yuv/', 'v\\p1.yuv', 'v/p11.yuv',
         'v/p\xe9.yuv', 'v/pe\u0301.yuv', 'v/pe.yuv', '')
NAMES1, NAMES2 = ('ann', 'bob', 'cem'), ('bob', 'dia', 'ann')


class CHECK(Check):
    rule = ('every pair of datasets over: path sets (all subsets of 3 shared paths, in every order in either), contents of the videos, '
            'vote styles of either (list, tuple, dictionary, with repetitions and gaps), names equal or different (all pairs of 19 dataset names that share prefixes, case, length); results compared '
            'with the definition; all sequences of repeated combinations for non-interference; dictionary conversion of every style')

    def cases(self, tier):
        q = tier == 'quick'
        P = ('p0', 'p1', 'p2')
        firsts = [(pa, ca) for pa in itertools.permutations(P) for ca in ((0, 0, 0), (2, 0, 2), (1, 2, 0), (2, 1, 1))]
        seconds = [pb for k in range(0, 4) for pb in itertools.permutations(P, k)]
        for (pa, ca), pb in itertools.product(firsts, seconds):
            kinds = itertools.product(KINDS, KINDS) if not q else [(k1, k2) for i, k1 in enumerate(KINDS) for j, k2 in enumerate(KINDS)
                                                                   if (i + j + len(pb) + ca[0] + P.index(pa[0])) % 5 == 0]
            for k1, k2 in kinds:
                yield 'pair %r %r %r %s %s' % (pa, ca, pb, k1, k2), ('pair', pa, ca, pb, k1, k2)
        ops = ['ab', 'ba', 'aa', 'ac', 'ca', 'bc', 'da', 'db']
        for h in itertools.product(ops, repeat=3 if q else 4):
            yield 'history ' + ' '.join(h), ('history', h)
        for kind in KINDS:
            for name in ('one', 'two words', 'x'):
                yield 'dict %s %s' % (kind, name), ('dict', kind, name)
        for n1, n2 in itertools.product(DSNAMES, repeat=2):
            for k1, k2 in (('list', 'list'), ('listrep', 'tuple'), ('dict', 'list'), ('listnan', 'dictmiss')):
                yield 'names %r %r %s %s' % (n1, n2, k1, k2), ('names', n1, n2, k1, k2)
        for pa, pb in itertools.product(ALIKE, repeat=2):
            yield 'alike %r %r' % (pa, pb), ('alike', pa, pb)
        for E, far in ((70, 0), (300, 0), (8, 300)):
            for k1, k2 in (('list', 'dict'), ('dictmiss', 'listnan')):
                yield 'large %d %d %s %s' % (E, far, k1, k2), ('large', E, far, k1, k2)
        for x in exp.small_grids('quick', ('list', 'dict'), True):
            yield 'dictgrid ' + x.tag, ('dictgrid', x)

    def mkpair(self, pa, ca, pb, k1, k2):
        a = mk('first', [(p, c, osof(k1, int(p[1]), NAMES1, 1)) for p, c in zip(pa, ca)] + [('only-a', ca[0], osof(k1, 7, NAMES1, 2))], (0, 1, 2), subjects=['s'])
        vb = [(p, (2 * int(p[1]) + 1) % 4, osof(k2, int(p[1]), NAMES2, 3)) for p in pb]
        vb.insert(len(vb) // 2, ('only-b', 0, osof(k2, 5, NAMES2, 4)))
        b = mk('second', vb, (0, 1, 2, 3), ref_score=9.0)
        return a, b

    def combine(self, a, b, **kw):
        transition()
        fa, fb = copy.deepcopy(fields(a)), copy.deepcopy(fields(b))
        out = RawDatasetReader(a).to_combined_overlap_dataset(RawDatasetReader(b), **kw)
        deq(fa, fields(a), 'first dataset changed: ')
        deq(fb, fields(b), 'second dataset changed: ')
        return out

    def compare(self, a, b, out):
        refs, dis = expected(a, b)
        deq(refs, out.ref_videos, 'references ')
        require(len(out.dis_videos) == len(dis), 'combined videos %s, expected %s' % ([v['path'] for v in out.dis_videos], [d['path'] for d, _ in dis]))
        for v, (d, os) in zip(out.dis_videos, dis):
            deq(d, {k: x for k, x in v.items() if k != 'os'}, 'metadata of %s ' % d['path'])
            deq({k: [float(y) for y in x] for k, x in os.items()}, {k: [float(y) for y in votes(x)] for k, x in v['os'].items()}, 'votes on %s ' % d['path'])
        for k in fields(a):
            if k not in ('ref_videos', 'dis_videos'):
                deq(getattr(a, k), getattr(out, k), 'attribute %s ' % k)
        core.CTX.validated += 1
        outcome([(v['path'], sorted((k, str(x)) for k, x in v['os'].items())) for v in out.dis_videos])

    def test(self, key, p):
        state(key)
        if p[0] == 'pair':
            a, b = self.mkpair(*p[1:])
            out = self.combine(a, b)
            self.compare(a, b, out)
            if out.dis_videos:
                # usable as a rating dataset: the table holds first then second votes
                rd = RawDatasetReader(out)
                names = sorted(set(o for v in out.dis_videos for o in v['os']))
                R = rd.opinion_score_3darray.shape[2]
                _, dis = expected(a, b)
                T = [[[float(y) for y in os.get(o, [])] + [NAN] * (R - len(os.get(o, []))) for o in names] for _, os in dis]
                check_same('vote table of the combination', rd.opinion_score_3darray, T, 0, 0)
                check_same('width option', self.combine(a, b, quality_width=77).quality_width, 77)
        elif p[0] == 'history':
            P = ('p0', 'p1', 'p2')
            ds = {}
            ds['a'], ds['b'] = self.mkpair(P, (1, 0, 1), ('p2', 'p0'), 'dictrep', 'dictrep')
            ds['c'] = mk('third', [(q, 0, osof('listrep', i, NAMES1, 1)) for i, q in enumerate(('p1', 'p0'))], (0,))
            ds['d'] = None
            fresh = copy.deepcopy(ds)
            outs = []
            for o in p[1]:
                x, y = o
                if ds[x] is None or ds[y] is None:
                    continue
                out = self.combine(ds[x], ds[y])
                self.compare(fresh[x], fresh[y], out)
                if outs:
                    deq(outs[-1][0], fields(outs[-1][1]), 'earlier combination changed: ')
                outs.append((copy.deepcopy(fields(out)), out))
                if out.dis_videos and o in ('ab', 'ac'):
                    ds['d'] = out
                    fresh['d'] = copy.deepcopy(out)
            for f, o in outs:
                deq(f, fields(o), 'earlier combination changed: ')
            for k in ds:
                if ds[k] is not None:
                    deq(fields(fresh[k]), fields(ds[k]), 'dataset %s changed: ' % k)
        elif p[0] == 'alike':
            # only equal paths are the same video
            _, pa, pb = p
            a = mk('first', [(pa, 1, osof('dict', 1, NAMES1, 1)), ('x', 0, osof('dict', 2, NAMES1, 1))], (0, 1))
            b = mk('second', [('y', 0, osof('list', 2, NAMES2, 1)), (pb, 1, osof('list', 1, NAMES2, 1))], (0, 1))
            self.compare(a, b, self.combine(a, b))
        elif p[0] == 'large':
            _, E, far, k1, k2 = p
            cs = [exp.fresh(far + (e * 7) % 5) for e in range(E)]
            a = mk('first', [('p%d' % e, cs[e], osof(k1, e, NAMES1, 1)) for e in range(E)], range(far + 5))
            b = mk('second', [('p%d' % (e * 2), exp.fresh(far + e % 3), osof(k2, e, NAMES2, 3)) for e in reversed(range(E))], range(far + 5))
            self.compare(a, b, self.combine(a, b))
        elif p[0] == 'names':
            # observers of list-style datasets with different names are different people
            _, n1, n2, k1, k2 = p
            a = mk(n1, [('v%d' % i, i % 2, osof(k1, i, NAMES1, i)) for i in range(2)], (0, 1))
            b = mk(n2, [('v%d' % i, i % 2, osof(k2, i, NAMES2, i)) for i in range(2)], (0, 1))
            self.compare(a, b, self.combine(a, b))
            for ds, k in ((a, k1), (b, k2)):
                if not k.startswith('dict'):
                    self.todict(ds)
            if n1 != n2 and not k1.startswith('dict') and not k2.startswith('dict'):
                na, nb = (set(n for v in RawDatasetReader(d).to_dictionary_style_dataset().dis_videos for n in v['os']) for d in (a, b))
                require(not (na & nb), 'generated names of differently named datasets collide: %s' % (na & nb))
        elif p[0] == 'dict':
            _, kind, name = p
            a = mk(name, [('v%d' % i, i % 2, osof(kind, i, NAMES1, i)) for i in range(4)], (0, 1))
            self.todict(a)
            b = mk(name + 'z', [('v%d' % i, i % 2, osof(kind, i, NAMES1, i)) for i in range(4)], (0, 1))
            if 'list' in kind or kind == 'tuple':
                na = set(n for v in RawDatasetReader(a).to_dictionary_style_dataset().dis_videos for n in v['os'])
                nb = set(n for v in RawDatasetReader(b).to_dictionary_style_dataset().dis_videos for n in v['os'])
                require(len(na) == len(NAMES1), 'generated names are not distinct: %s' % na)
                require(not (na & nb), 'generated names of differently named datasets collide: %s' % (na & nb))
        else:
            self.todict(p[1].dataset())

    def todict(self, a):
        transition()
        before = copy.deepcopy(fields(a))
        out = RawDatasetReader(a).to_dictionary_style_dataset()
        deq(before, fields(a), 'source changed: ')
        deq({k: v for k, v in before.items() if k != 'dis_videos'}, {k: v for k, v in fields(out).items() if k != 'dis_videos'}, 'attributes ')
        require(len(out.dis_videos) == len(a.dis_videos), 'number of videos')
        for v, w in zip(out.dis_videos, before['dis_videos']):
            deq({k: x for k, x in w.items() if k != 'os'}, {k: x for k, x in v.items() if k != 'os'}, 'metadata ')
            require(isinstance(v['os'], dict), 'votes are not a dictionary')
            if isinstance(w['os'], dict):
                deq(w['os'], v['os'], 'votes ')
        if not isinstance(before['dis_videos'][0]['os'], dict):
            # every generated name stands for one list position throughout
            n = len(before['dis_videos'][0]['os'])
            names = list(out.dis_videos[0]['os'])
            require(len(set(names)) == n, 'generated names %s for %d positions' % (names, n))
            for v, w in zip(out.dis_videos, before['dis_videos']):
                require(list(v['os']) == names, 'names differ between videos')
                deq(list(w['os']), list(v['os'].values()), 'votes ')
        outcome([sorted((k, str(x)) for k, x in v['os'].items()) for v in out.dis_videos])
