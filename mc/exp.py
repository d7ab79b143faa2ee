"""Abstract rating experiments, their materialisation as sureal datasets, and generators."""
import itertools, math, copy
from types import SimpleNamespace

NAN = float('nan')


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


class Exp:
    """cells[e][s] = tuple of repeated votes of observer s on video e (() = none, NaN = explicit missing)."""

    def __init__(self, cells, content=None, refs=None, nc=None, ref_score=5.0, style='dict', names=None,
                 asset_ids=None, tag='', paths='plain'):
        self.paths = paths
        self.cells = tuple(tuple(tuple(c) for c in row) for row in cells)
        self.E = len(self.cells)
        self.S = len(self.cells[0])
        self.content = tuple(content) if content is not None else (0,) * self.E
        self.refs = frozenset(refs) if refs is not None else frozenset()
        self.nc = nc if nc is not None else max(self.content) + 1
        self.ref_score = ref_score
        self.style = style
        self.names = tuple(names) if names is not None else tuple('obs%03d' % s for s in range(self.S))
        self.asset_ids = tuple(asset_ids) if asset_ids is not None else tuple(range(self.E))
        self.tag = tag

    def but(self, **kw):
        d = dict(cells=self.cells, content=self.content, refs=self.refs, nc=self.nc, ref_score=self.ref_score,
                 style=self.style, names=self.names, asset_ids=self.asset_ids, tag=self.tag, paths=self.paths)
        d.update(kw)
        return Exp(**d)

    def key(self):
        return (self.cells, self.content, tuple(sorted(self.refs)), self.nc, self.ref_score, self.style, self.names,
                self.asset_ids, self.paths)

    def __repr__(self):
        return 'Exp(cells=%r, content=%r, refs=%r, nc=%r, ref_score=%r, style=%r, names=%r, asset_ids=%r, paths=%r)' % (
            self.cells, self.content, sorted(self.refs), self.nc, self.ref_score, self.style, self.names, self.asset_ids, self.paths)

    # --- facts
    @property
    def R(self):
        """repetition depth of the vote table"""
        return max([1] + [len(c) for row in self.cells for c in row])

    def table(self):
        """E x S x R nested list, NaN where there is no vote."""
        R = self.R
        return [[[float(c[r]) if r < len(c) else NAN for r in range(R)] for c in row] for row in self.cells]

    def votes(self, e, s):
        return [float(x) for x in self.cells[e][s] if not isnan(float(x))]

    def all_votes_nonempty(self):
        """every video and every observer has at least one vote"""
        return all(any(self.votes(e, s) for s in range(self.S)) for e in range(self.E)) and \
            all(any(self.votes(e, s) for e in range(self.E)) for s in range(self.S))

    def path(self, e):
        r, d = PATHS[self.paths]
        return r(self.content[e]) if e in self.refs else d(e, self.content[e], self.nc)

    def read(self):
        """The experiment as a reader must see it: observers in reading order, unseen dictionary names absent."""
        if self.style == 'dict':
            keep = sorted((self.names[s], s) for s in range(self.S) if any(len(row[s]) for row in self.cells))
            cols = [s for _, s in keep]
            return self.but(cells=[[row[s] for s in cols] for row in self.cells], names=[n for n, _ in keep])
        return self

    def T(self):
        return self.read().table()

    # --- materialisation
    def dataset(self, style=None, wrap_single=False, int_votes=False):
        style = style or self.style
        ds = SimpleNamespace()
        ds.dataset_name = 'exp'
        ds.yuv_fmt = 'yuv420p'
        ds.width = 1920
        ds.height = 1080
        ds.ref_score = self.ref_score
        ds.ref_videos = [{'content_id': c, 'content_name': 'content%d' % c, 'path': PATHS[self.paths][0](c)}
                         for c in range(self.nc)]
        ds.dis_videos = []
        for e in range(self.E):
            # (equal numbers are not the same object, as when they are parsed one by one)
            ds.dis_videos.append({'content_id': fresh(self.content[e]), 'asset_id': fresh(self.asset_ids[e]),
                                  'path': self.path(e), 'os': self.os_of(e, style, wrap_single)})
        return ds

    def os_of(self, e, style, wrap_single=False):
        def cell(c):
            if len(c) == 0:
                return NAN
            if len(c) == 1 and not wrap_single:
                return c[0]
            return list(c) if style != 'tuple' else tuple(c)
        row = self.cells[e]
        if style == 'list':
            return [cell(c) for c in row]
        if style == 'tuple':
            return tuple(cell(c) for c in row)
        return {self.names[s]: cell(c) for s, c in enumerate(row) if len(c) > 0}


def fresh(v):
    return int(str(v)) if type(v) is int else v


# path of the reference of a content; path of a distorted video (never that of its own content's reference)
PATHS = {
    'plain': (lambda c: 'ref/c%d.yuv' % c, lambda e, c, n: 'dis/v%d.yuv' % e),
    'samename': (lambda c: 'ref/c%d.yuv' % c, lambda e, c, n: 'dis%d/c%d.yuv' % (e, c)),
    'samedir': (lambda c: 'c%d/x.yuv' % c, lambda e, c, n: 'c%d/x%d.yuv' % (c, e)),
    'prefix': (lambda c: '/c%d' % c, lambda e, c, n: '/c%d' % c + '_' * (e + 1)),
    'suffix': (lambda c: 'c%d.yuv' % c, lambda e, c, n: 'a' * (e + 1) + 'c%d.yuv' % c),
    'case': (lambda c: 'Ref%d.YUV' % c, lambda e, c, n: ('ref%d.yuv', 'REF%d.yuv', 'ref%d.YUV', 'Ref%d.yuv', 'rEf%d.yuv')[e % 5] % c + ' ' * (e // 5)),
    'extension': (lambda c: 'v%d.yuv' % c, lambda e, c, n: 'v%d.%s' % (c, ('mp4', 'y4m', 'yuv.gz', '264')[e % 4] + '' * e + ('' if e < 4 else str(e)))),
    'space': (lambda c: 'c%d' % c, lambda e, c, n: ' ' * (e + 1) + 'c%d' % c),
    'dots': (lambda c: 'd/c%d' % c, lambda e, c, n: './' * (e + 1) + 'd/c%d' % c),
    # the path of another content's reference (that content's own rated reference is another entry)
    'crossed': (lambda c: 'c%d.yuv' % c, lambda e, c, n: 'c%d.yuv' % ((c + 1) % n) if n > 1 and e % 2 == 0 else 'd%d.yuv' % e),
}


# ------------------------------------------------------------------ generators

def grid(E, S, cell_alphabet, **kw):
    """All experiments of E videos x S observers over the cell alphabet (simplest first)."""
    for comb in itertools.product(cell_alphabet, repeat=E * S):
        yield Exp([comb[e * S:(e + 1) * S] for e in range(E)], **kw)


def fill(E, S, alphabet, salt=0):
    """A fixed, well-mixed table over the alphabet (no two rows/columns proportional)."""
    out = []
    x = 12345 + 7919 * salt
    for e in range(E):
        row = []
        for s in range(S):
            x = (x * 1103515245 + 12345 + 31 * e + 17 * s) % (1 << 31)
            row.append(alphabet[(x >> 12) % len(alphabet)])
        out.append(row)
    return out


ACR = (1, 2, 3, 4, 5)
CONT = (1.25, 2.5, 3.0, 3.75, 4.5, 4.875)
PCT = (0, 13, 25, 50, 77, 100)
NEG = (-3, -1, 0, 1, 2.5, 3)
FINE = (3.0, 3.0005, 2.999, 3.00001, 4.0, 1.125)          # votes that nearly coincide
HUGE = (1000003, 1234567.25, 999999, -20000, 1000001, 0)

CONTENT_LAYOUTS = {
    'one': lambda E: (0,) * E,
    'alt': lambda E: tuple(e % 2 for e in range(E)),
    'blk': lambda E: tuple(min(e // max(1, (E + 2) // 3), 2) for e in range(E)),
    'rev': lambda E: tuple((E - 1 - e) % 3 for e in range(E)),
    'many': lambda E: tuple((e * 7) % 11 if E <= 11 else (e * 7) % 13 for e in range(E)),   # up to 13 contents
    'far': lambda E: tuple((300, 5, 257, 0, 299)[e % 5] for e in range(E)),                 # large numbers
    'each': lambda E: tuple(range(E)),
    'gap': lambda E: tuple((0, 9, 2, 17)[e % 4] for e in range(E)),                        # contents without rated videos
}
PLAIN_LAYOUTS = ('one', 'alt', 'blk', 'rev')

REP = ('none', 'all2', 'ragged', 'one3', 'obs2')
MISS = ('none', 'one', 'diag', 'half', 'obs', 'vid')


def apply_reps(tab, rep, alphabet):
    """table of scalars -> cells with repetitions"""
    E, S = len(tab), len(tab[0])
    L = len(alphabet)

    def extra(e, s, k):
        return alphabet[(3 * e + 5 * s + 7 * k + e * s) % L]
    out = []
    for e in range(E):
        row = []
        for s in range(S):
            c = [tab[e][s]]
            if rep == 'all2':
                c.append(extra(e, s, 1))
            elif rep == 'ragged':
                for k in range((e + 2 * s) % 3):
                    c.append(extra(e, s, k))
            elif rep == 'deep':      # up to six
                for k in range((e * 2 + s) % 6):
                    c.append(extra(e, s, k))
            elif rep == 'one3' and (e, s) == (E // 2, S // 2):
                c += [extra(e, s, 1), extra(e, s, 2)]
            elif rep == 'obs2' and s == S - 1:
                c.append(extra(e, s, 1))
            row.append(tuple(c))
        out.append(row)
    return out


def apply_missing(cells, miss):
    E, S = len(cells), len(cells[0])
    out = [list(r) for r in cells]
    for e in range(E):
        for s in range(S):
            drop = False
            if miss == 'one':
                drop = (e, s) == (E - 1, 0)
            elif miss == 'diag':
                drop = e % S == s
            elif miss == 'half':
                drop = (e * 3 + s * 2 + (e * s) % 3) % 2 == 1
            elif miss == 'obs':      # last observer saw only the first two videos
                drop = s == S - 1 and e > 1
            elif miss == 'vid':      # last video seen by the first two observers only
                drop = e == E - 1 and s > 1
            elif miss == 'nanrep':   # explicit missing inside a repetition
                if len(out[e][s]) > 1 and (e + s) % 2 == 0:
                    out[e][s] = (NAN,) + out[e][s][1:]
            elif miss == 'nanmid':   # explicit missing at the end or in the middle of repetitions
                if len(out[e][s]) > 1:
                    k = len(out[e][s]) - 1 - (e + s) % 2
                    out[e][s] = out[e][s][:k] + (NAN,) + out[e][s][k + 1:]
            elif miss == 'first':
                drop = s == 0 and e < E - 1 and e != 1
            if drop:
                out[e][s] = ()
    return out


def lattice(sizes, reps=REP, misses=MISS, alphabets=(ACR, CONT), styles=('list', 'dict'), layouts=('alt',), salts=(0,),
            refs=False, ref_score=5.0):
    """Product of dataset features; skips experiments in which a video or an observer has no vote at all."""
    seen = set()
    for (E, S), al, rep, miss, style, lay, salt in itertools.product(sizes, alphabets, reps, misses, styles, layouts, salts):
        cells = apply_missing(apply_reps(fill(E, S, al, salt), rep, al), miss)
        content = CONTENT_LAYOUTS[lay](E)
        rf = None
        if refs:
            rf = [max(e for e in range(E) if content[e] == c) if c % 2 else
                  min(e for e in range(E) if content[e] == c) for c in sorted(set(content))]
        x = Exp(cells, content=content, nc=max(content) + 1, refs=rf, style=style, ref_score=ref_score,
                tag='%dx%d/%s/%s/%s/%s/%s/%d' % (E, S, 'acr' if al is ACR else str(al[1]), rep, miss, style, lay, salt))
        if not x.all_votes_nonempty():
            continue
        k = x.key()
        if k in seen:
            continue
        seen.add(k)
        yield x


NAMES = {
    'plain': lambda S: ['obs%03d' % s for s in range(S)],
    'rev': lambda S: ['obs%03d' % (S - s) for s in range(S)],
    'num': lambda S: [str((s * 7 + 8) % (S * 7 + 13)) if S * 7 + 13 > 0 else str(s) for s in range(S)],
    # names that differ only in case, spaces, digits or accents
    'alike': lambda S: [('b', 'B', 'b ', ' b', '01', '1', '1.0', 'e\u0301', '\xe9', 'nan', 'None', 'B_')[s % 12] + ('' if s < 12 else '_%d' % s) for s in range(S)],
    'odd': lambda S: [('Z', 'a', ' b', '\xe9t\xe9', "o'neil", 'Anna Maria', '10', '9', '', '_x')[s % 10] + ('' if s < 10 else str(s))
                      for s in range(S)],
}


def nonempty(x):
    return x.all_votes_nonempty()


def named(x, kind):
    names = NAMES[kind](x.S)
    assert len(set(names)) == x.S, (kind, names)
    return x.but(names=names, tag=x.tag + '/' + kind)


SMALL = ((), (1,), (2,), (5,))
REPS_SMALL = ((1,), (4,), (2, 5), (NAN, 3), ())


def from_table(tab, **kw):
    return Exp([[(() if v is None else (tuple(v) if isinstance(v, (list, tuple)) else (v,))) for v in row] for row in tab], **kw)


def _noise(n, seed):
    """deterministic, roughly normal numbers"""
    x, out = 88172645463325252 ^ (seed * 2654435761), []
    for _ in range(n):
        t = 0.0
        for _ in range(6):
            x ^= (x << 13) & 0xFFFFFFFFFFFFFFFF
            x ^= x >> 7
            x ^= (x << 17) & 0xFFFFFFFFFFFFFFFF
            t += x / 2.0 ** 64
        out.append((t - 3) * 2 ** 0.5)
    return out


def realistic(E, S, rep='none', miss='none', layout='alt', style='list', quant=0.25, seed=1, refs=False, spread=1.0, base=3.0, ref_score=5.0):
    """Panel generated from quality + bias + observer noise + content noise (well-conditioned for likelihood models)."""
    content = CONTENT_LAYOUTS[layout](E)
    z = _noise(3 * E * S * 3 + 10, seed)
    it = iter(z)
    cells = []
    for e in range(E):
        row = []
        for s in range(S):
            q = base + spread * 1.5 * (((e * 5 + 3) % 7) / 3.5 - 1)
            b = spread * 0.4 * (((s * 3 + 1) % 5) / 2.0 - 1)
            v = spread * (0.5 + 0.12 * ((s * 2) % 5))
            a = spread * (0.4 + 0.25 * content[e])
            k = {'none': 1, 'all2': 2, 'ragged': 1 + (e + 2 * s) % 3, 'obs2': 2 if s == S - 1 else 1,
                 'one3': 3 if (e, s) == (1, 1) else 1}[rep]
            c = tuple(q + b + v * next(it) + a * next(it) for _ in range(k))
            if quant:
                c = tuple(round(w / quant) * quant for w in c)
            row.append(c)
        cells.append(row)
    cells = apply_missing(cells, miss)
    rf = None
    if refs:
        rf = [max(e for e in range(E) if content[e] == c) if c % 2 else min(e for e in range(E) if content[e] == c) for c in sorted(set(content))]
    return Exp(cells, content=content, nc=max(content) + 1, refs=rf, style=style, ref_score=ref_score,
               tag='real%dx%d/%s/%s/%s/%s/q%s/%d/x%s' % (E, S, rep, miss, layout, style, quant, seed, spread))


def real_lattice(sizes, reps, misses, layouts, styles=('list', 'dict'), quants=(0.25,), seeds=(1,), spreads=(1.0,), **kw):
    for i, ((E, S), rep, miss, lay, q, seed, sp) in enumerate(itertools.product(sizes, reps, misses, layouts, quants, seeds, spreads)):
        x = realistic(E, S, rep, miss, lay, styles[i % len(styles)], q, seed + i, spread=sp, base=3.0 * sp, **kw)
        if x.all_votes_nonempty():
            yield x


def screening(tier):
    """Panels in which one or two observers are outliers, over every high/normal/low pattern of theirs."""
    normal = [5, 1, 4, 4, 2, 2, 3, 3, 3, 3, 3, 3]      # mean 3, deviation 1, kurtosis 3: 5 and 1 are exactly at 2 sigma
    bases = {
        'edge12': lambda e: list(normal),
        'in13': lambda e: [3, 3, 3, 3, 2, 4, 2, 4, 3, 2, 4, 3, 3],
        'wide14': lambda e: [3, 2, 4, 3, 2, 4, 3, 2.5, 3.5, 3, 2, 4, 2.5, 3.5],
        'flat24': lambda e: [3] * 24,
        'flat30': lambda e: [3 + (e % 2)] * 30,
        'spread30': lambda e: [3 + 0.25 * ((s * 5 + e) % 3 - 1) for s in range(30)],
    }
    lv = {'+': 5, '-': 1, '0': None, '.': ()}
    for b, f in sorted(bases.items()):
        for E in ((2, 3) if tier == 'quick' else (2, 3, 4)):
            for i, pat in enumerate(itertools.product('+-0.', repeat=E)):
                for j, pat2 in enumerate(itertools.product('+-0', repeat=E) if E <= (2 if tier == 'quick' else 3) else ['0' * E, '+-' * (E // 2) + '+' * (E % 2)]):
                    rows = []
                    for e in range(E):
                        row = [(v,) for v in f(e)]
                        for s, p in ((0, pat[e]), (1, pat2[e])):
                            if p == '.':
                                row[s] = ()
                            elif lv[p] is not None:
                                row[s] = (lv[p],)
                            elif b == 'edge12':
                                row[s] = (3,)
                        rows.append(row)
                    x = Exp(rows, style='list' if (i + j) % 2 else 'dict', tag='screen/%s/%s/%s' % (b, ''.join(pat), ''.join(pat2)))
                    if nonempty(x):
                        yield x
    # ratios exactly on the thresholds: 1 outlier among 20 slots; 13 high and 7 low
    hi = [5, 1] + normal[2:]
    for n, want in ((20, '1of20'), (19, '1of19'), (21, '2of40')):
        rows = [[(3,)] * 12 for _ in range(n)]
        for e in range(n):
            rows[e] = [(v,) for v in ([3, 3] + [3, 2, 4, 3, 2, 4, 3, 2, 4, 3])]
        rows[0] = [(v,) for v in normal]
        yield Exp(rows, style='list', tag='screen/ratio/' + want)
    # one high and one low outlier each of two observers among n slots: the share is above, at or below 5%
    for n in (38, 39, 40, 41, 42):
        for style in ('list', 'dict'):
            rows = [[(v,) for v in ([3, 3] + [3, 2, 4, 3, 2, 4, 3, 2, 4, 3])] for e in range(n)]
            rows[n // 2] = [(v,) for v in normal]
            rows[n - 1] = [(1,), (5,)] + [(v,) for v in normal[2:]]
            yield Exp(rows, style=style, tag='screen/ratio/2of%d/%s' % (n, style))
    for n in (19, 20, 21):
        rows = [[(v, v) for v in ([3, 3] + [3, 2, 4, 3, 2, 4, 3, 2, 4, 3])] for e in range(n)]
        rows[n - 1] = [(5, 1), (1, 5)] + [(v, v) for v in normal[2:]]
        yield Exp(rows, style='list', tag='screen/ratio/2of2x%d' % n)
    for hi_n, lo_n in ((13, 7), (12, 8), (14, 6), (10, 10), (7, 13), (20, 0)):
        rows = []
        for e in range(20):
            up = e < hi_n
            rows.append([(5,) if up else (1,), (1,) if up else (5,)] + [(v,) for v in normal[2:]])
        yield Exp(rows, style='list', tag='screen/imbalance/%d-%d' % (hi_n, lo_n))
    # two repetitions: slots are (video, repetition)
    for pat in itertools.product('+-0', repeat=4):
        rows = []
        for e in range(2):
            row = [(v, v) for v in [3, 3, 3, 3, 2, 4, 2, 4, 3, 2, 4, 3, 3]]
            row[4] = tuple({'+': 5, '-': 1, '0': 3}[p] for p in pat[2 * e:2 * e + 2])
            rows.append(row)
        yield Exp(rows, style='dict', tag='screen/rep/' + ''.join(pat))


def small_grids(tier, styles=('list', 'dict'), repetitions=True, ok=nonempty, sizes=None):
    for st in styles:
        for (E, S) in (sizes or ((1, 2), (2, 1), (2, 2)) + (((1, 4), (4, 1), (3, 2), (2, 3)) if tier != 'quick' else ())):
            for i, x in enumerate(grid(E, S, SMALL, style=st)):
                x.tag = 'grid%dx%d/%s/%d' % (E, S, st, i)
                if ok(x):
                    yield x
        if repetitions:
            for i, x in enumerate(grid(2, 2, REPS_SMALL, style=st)):
                x.tag = 'repgrid2x2/%s/%d' % (st, i)
                if ok(x):
                    yield x


def zoo(tier, refs=False, ref_score=5.0, complete=False, repetitions=True, grids=True, big=True, ok=nonempty, alphabets=None,
        styles=('list', 'dict'), extremes=True):
    """The shared space of experiments: all small grids plus a lattice of features of larger ones."""
    if grids and not refs and not complete:
        yield from small_grids(tier, styles, repetitions, ok)
    reps = (REP if repetitions else ('none',))
    misses = (MISS + ('nanrep',) if not complete else ('none',))
    al = alphabets or (ACR, CONT, PCT, NEG)
    thorough = tier != 'quick'
    sizes = ((3, 2), (4, 3), (5, 4), (6, 7)) + (((2, 5), (7, 3), (9, 9)) if thorough else ())
    seen = set()

    def emit(it):
        for x in it:
            if ok(x) and x.key() not in seen:
                seen.add(x.key())
                yield x
    yield from emit(lattice(sizes, reps, misses, al, styles, ('alt', 'one') if not thorough else PLAIN_LAYOUTS,
                            salts=(0, 1) if thorough else (0,), refs=refs, ref_score=ref_score))
    if big:
        bsizes = ((12, 11), (5, 26), (34, 4)) + (((33, 27), (110, 3), (4, 105)) if thorough else ())
        yield from emit(lattice(bsizes, reps, misses, al[:3], styles, ('blk', 'rev'), salts=(2,), refs=refs, ref_score=ref_score))
    # unusual values: nearly equal and very large votes, many and unused contents, many repetitions, missing votes inside repetitions
    if extremes:
        yield from emit(lattice(((4, 3), (13, 5)), ('none', 'deep') if repetitions else ('none',), ('none', 'diag', 'nanmid', 'first') if not complete else ('none',),
                                alphabets or (FINE, HUGE, ACR), styles, ('many', 'gap'), salts=(3,), refs=refs, ref_score=ref_score))
    # large numbers of videos, observers and contents
    if big:
        yield from emit(lattice(((270, 3), (3, 270), (70, 33)), ('none', 'ragged') if repetitions else ('none',), ('none', 'diag') if not complete else ('none',),
                                (ACR,), styles, ('far',), salts=(4,), refs=refs, ref_score=ref_score))
    if 'dict' in styles:
        for kind in ('rev', 'num', 'odd', 'alike'):
            for x in lattice(((4, 3), (3, 12)), ('none', 'ragged') if repetitions else ('none',), ('none', 'diag', 'obs') if not complete else ('none',),
                             al[:2], ('dict',), ('rev',), refs=refs, ref_score=ref_score):
                yield from emit([named(x, kind)])


def deviations(base, alphabet, k=1, cells=None):
    """All experiments that differ from base in at most k cells (cells drawn from the alphabet)."""
    pos = cells if cells is not None else [(e, s) for e in range(base.E) for s in range(base.S)]
    yield base.but(tag=base.tag + '+0')
    for kk in range(1, k + 1):
        for ps in itertools.combinations(pos, kk):
            for vals in itertools.product(alphabet, repeat=kk):
                if any(base.cells[e][s] == tuple(v) for (e, s), v in zip(ps, vals)):
                    continue
                c = [list(r) for r in base.cells]
                for (e, s), v in zip(ps, vals):
                    c[e][s] = v
                yield base.but(cells=c, tag=base.tag + '+' + ';'.join('%d,%d=%s' % (e, s, list(v)) for (e, s), v in zip(ps, vals)))
