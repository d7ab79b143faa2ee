import itertools, copy
import numpy as np
from mc import core, exp, models, ref, spaces
from mc.core import Check, outcome, state, skip, check_same, require, transition
from mc.exp import NAN
from sureal.dataset_reader import RawDatasetReader


def permuted(x, vp=None, op=None):
    vp = list(vp) if vp is not None else list(range(x.E))
    op = list(op) if op is not None else list(range(x.S))
    return x.but(cells=[[x.cells[e][s] for s in op] for e in vp], content=[x.content[e] for e in vp],
                 refs=[i for i, e in enumerate(vp) if e in x.refs], names=[x.names[s] for s in op],
                 asset_ids=[x.asset_ids[e] for e in vp])


def perms(n, full):
    if n <= full:
        return list(itertools.permutations(range(n)))
    out = [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0], [n - 1] + list(range(n - 1))]
    for i in range(min(n - 1, 4)):
        p = list(range(n))
        p[i], p[n - 1 - i] = p[n - 1 - i], p[i]
        out.append(p)
    p = [(i * 7 + 3) % n for i in range(n)]
    if len(set(p)) == n:
        out.append(p)
    return out


class Presentation:
    """One way of writing an experiment: dataset plus maps video index, observer index, content id -> original."""
    def __init__(self, name, ds, vmap, omap, cmap):
        self.name, self.ds, self.vmap, self.omap, self.cmap = name, ds, vmap, omap, cmap


def order_of(x):
    """original observer index of every column the reader sees"""
    r = x.read()
    if x.style != 'dict':
        return list(range(x.S))
    pos = {n: s for s, n in enumerate(x.names)}
    return [pos[n] for n in r.names]


def presentations(x, full=3):
    idv, idc = list(range(x.E)), list(range(x.nc))
    base = order_of(x)
    for vp in perms(x.E, full):
        y = permuted(x, vp=vp)
        yield Presentation('videos %s' % (list(vp),), y.dataset(), list(vp), base, idc)
    for op in perms(x.S, full):
        y = permuted(x, op=op)
        yield Presentation('observers %s' % (list(op),), y.dataset(), idv, [op[s] for s in order_of(y)], idc)
    if x.style == 'dict':
        for kind in ('rev', 'num', 'odd'):
            y = exp.named(x, kind)
            yield Presentation('names ' + kind, y.dataset(), idv, order_of(y), idc)
        ds = x.dataset()
        for v in ds.dis_videos:
            v['os'] = dict(reversed(list(v['os'].items())))
        yield Presentation('key order', ds, idv, base, idc)
        ds = x.dataset()
        for v in ds.dis_videos:
            for n in x.read().names:
                v['os'].setdefault(n, NAN)
        yield Presentation('explicit missing', ds, idv, base, idc)
        y = x.read()
        yield Presentation('dict as list', y.dataset(style='list'), idv, base, idc)
    else:
        y = x.but(style='dict')
        if y.read().S == x.S:
            yield Presentation('list as dict', y.dataset(), idv, order_of(y), idc)
        yield Presentation('tuple', x.dataset(style='tuple'), idv, base, idc)
    yield Presentation('one-element repetitions', x.dataset(wrap_single=True), idv, base, idc)
    ds = x.dataset()
    for v in ds.dis_videos:
        f = lambda c: [float(w) for w in c] if isinstance(c, (list, tuple)) else float(c)
        v['os'] = {k: f(c) for k, c in v['os'].items()} if isinstance(v['os'], dict) else [f(c) for c in v['os']]
    yield Presentation('floats', ds, idv, base, idc)
    ds = x.dataset()
    for i, v in enumerate(ds.dis_videos):
        v['asset_id'] = (x.E - i) * 10 + 7
    yield Presentation('asset ids', ds, idv, base, idc)
    ds = x.dataset()
    for v in ds.ref_videos + ds.dis_videos:
        v['path'] = '/elsewhere/%s.mp4' % v['path'].replace('/', '--')
    for v in ds.ref_videos:
        v['content_name'] = 'zz' + v['content_name'][::-1]
    ds.dataset_name = 'another'
    yield Presentation('paths', ds, idv, base, idc)
    ds = x.dataset()
    ds.ref_videos.reverse()
    yield Presentation('reference order', ds, idv, base, idc)
    for cm in ([list(p) for p in itertools.permutations(range(x.nc))] if x.nc <= 3 else []) + [[2 * c + 1 for c in range(x.nc)]]:
        ds = x.dataset()
        for v in ds.ref_videos + ds.dis_videos:
            v['content_id'] = cm[v['content_id']]
        yield Presentation('contents %s' % cm, ds, idv, base, cm)


class CHECK(Check):
    case_timeout = 300
    rule = ('every presentation (all permutations of up to 4 videos or observers, structured ones beyond; renamings, renumberings, '
            'styles) of every experiment of a lattice, times every rating model: results mapped back to videos, observers and '
            'contents compared with those of the original presentation')

    def cases(self, tier):
        q = tier == 'quick'
        full = 3 if q else 4
        for x in exp.lattice(((3, 3), (4, 6)) if q else ((3, 3), (4, 4), (5, 7)), ('none', 'ragged') if q else ('none', 'ragged', 'all2'), ('none', 'diag'),
                             (exp.ACR, exp.PCT) if q else (exp.ACR, exp.CONT, exp.PCT, exp.NEG), ('list', 'dict'), ('alt', 'rev'), (1,), refs=True):
            yield 'closed ' + x.tag, ('closed', x, full)
        for i, x in enumerate(exp.screening('quick')):
            if i % 41 == 0 or 'rep/+-' in x.tag:
                yield 'closed ' + x.tag, ('closed', x, 2)
        for x in exp.real_lattice(((5, 6), (6, 11)), ('none', 'ragged'), ('none', 'diag'), ('alt', 'blk'), quants=(0.25,), refs=True):
            yield 'proj ' + x.tag, ('proj', x, 2)
        for x in exp.lattice(((70, 4), (4, 70)), ('ragged',), ('diag',), (exp.ACR,), ('list', 'dict'), ('rev',), (1,), refs=True):
            yield 'closed ' + x.tag, ('closed', x, 1)
        for k, x in enumerate(exp.real_lattice(((10, 12), (12, 14)), ('none', 'ragged'), ('none', 'diag'), ('blk',), refs=True, seeds=(1,) if q else (1, 50))):
            for name in spaces.ITER + spaces.ITER_D:
                yield 'mle %s %s' % (name, x.tag), (name, x, 0)

    def test(self, key, p):
        kind, x, full = p
        if kind == 'closed':
            names = [n for n in spaces.CLOSED_ABS + spaces.CLOSED_Z + spaces.CLOSED_D if spaces.decided(n, x)]
            if all(len(c) == 1 for row in x.cells for c in row):
                names.append('LS')
            tol = dict(rtol=1e-7, atol=1e-7)
        elif kind == 'proj':
            if not spaces.projection_ok(x):
                skip('projection degenerate')
                return
            names = ['MLE_CO_AP', 'P910']
            tol = dict(rtol=1e-5, atol=1e-5)
        else:
            if not spaces.mle_ok(x, kind):
                skip('likelihood degenerate')
                return
            names = [kind]
            tol = dict(rtol=1e-4, atol=1e-4)
        base_o = order_of(x)
        bases = {}
        for n in names:
            bases[n] = models.run(n, RawDatasetReader(x.dataset()))
        outcome([n + repr(core._flat(list(bases[n]['quality_scores']))) for n in names])
        pres = list(presentations(x, full))
        if kind not in ('closed', 'proj'):
            h = int(core.digest(key), 16)
            pres = [q for i, q in enumerate(pres) if (i + h) % 6 == 0]
        for pr in pres:
            state((x.key(), pr.name))
            for n in names:
                res = models.run(n, RawDatasetReader(copy.deepcopy(pr.ds)))
                self.compare(n, pr, bases[n], res, base_o, tol, x)

    def compare(self, n, pr, a, b, base_o, tol, x):
        require(set(a) - {'observers'} == set(b) - {'observers'}, '%s under %s: keys differ: %s' % (n, pr.name, sorted(set(a) ^ set(b))))
        what = '%s under %s: ' % (n, pr.name)
        pos = {o: i for i, o in enumerate(base_o)}
        oi = [pos[o] for o in pr.omap]
        for k in spaces.PER_VIDEO:
            if k in a:
                A = np.array(a[k], float)
                check_same(what + k, b[k], A[pr.vmap], **tol)
        for k in spaces.PER_VIDEO2:
            if k in a:
                check_same(what + k, b[k], np.array(a[k], float)[:, pr.vmap], **tol)
        for k in spaces.PER_OBS:
            if k in a:
                check_same(what + k, np.array(b[k], float), np.array(a[k], float)[oi], **tol)
        for k in spaces.PER_OBS2:
            if k in a:
                check_same(what + k, b[k], np.array(a[k], float)[:, oi], **tol)
        used = sorted(set(x.content))
        for k in spaces.PER_CONT:
            if k in a:
                check_same(what + k, [b[k][pr.cmap[c]] for c in used], [a[k][c] for c in used], **tol)
        for k in spaces.PER_CONT2:
            if k in a:
                check_same(what + k, [[b[k][j][pr.cmap[c]] for c in used] for j in (0, 1)], [[a[k][j][c] for c in used] for j in (0, 1)], **tol)
        gap = max(pr.cmap) + 1 != x.nc
        for k in spaces.SCALARS:
            if k in a and not (gap and k != 'loglikelihood'):
                check_same(what + k, b[k], a[k], **tol)
