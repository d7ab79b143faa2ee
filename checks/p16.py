import copy, itertools, math, random
from fractions import Fraction
from mc import core, exp, models, nondet
from mc.exp import Exp, NAN
from mc.core import Check, outcome, state, skip, check_same, require, transition, same
from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader

TYPES = ('within_subject_within_content', 'within_subject')


def obs_names(x):
    return list(x.names) if x.style == 'dict' else [str(s) for s in range(x.S)]


def pairs(x, typ):
    """(observer name, i, j) with i, j positions of videos both rated by the observer"""
    nm = obs_names(x)
    for s in range(x.S):
        for i in range(x.E):
            for j in range(i):
                if x.votes(i, s) and x.votes(j, s) and (typ == TYPES[1] or x.content[i] == x.content[j]):
                    yield nm[s], s, i, j


def decode(ds):
    """comparisons of a PC dataset: (observer, i, j) i>j -> share of i; refuses inconsistent or repeated records"""
    ids = [v['asset_id'] for v in ds.dis_videos]
    out = {}
    for i, v in enumerate(ds.dis_videos):
        for (o, a), val in v['os'].items():
            require(a in ids, 'comparison with unknown asset %r' % (a,))
            j = ids.index(a)
            require(i != j, 'video compared with itself')
            require(val in (0, 0.5, 1), 'share %r' % (val,))
            k, w = ((o, i, j), float(val)) if i > j else ((o, j, i), 1.0 - val)
            if k in out:
                require(out[k] == w, 'contradicting records of pair %r: %s and %s' % (k, out[k], w))
                if out[k] != 0.5:
                    raise core.Violation('pair %r recorded twice' % (k,))
            out[k] = w
    return out


def share(a, b):
    return 1.0 if a > b else 0.0 if a < b else 0.5


class CHECK(Check):
    case_timeout = 300
    rule = ('every rating table of the small grids times style, asset id order, content layout and conversion type: the exact set of '
            'comparisons; every per-video rate vector over {0,1} exactly; for rates between, coin tosses, ties and noise all answers '
            'of the random generator are enumerated and the exact probability of every outcome of every pair compared with the '
            'stated rule; non-interference with the source dataset; reproducibility by seed after any generator history')

    def cases(self, tier):
        q = tier == 'quick'
        cells = ((1,), (2,), (), (NAN,))
        for style in ('list', 'dict'):
            for E, S in ((2, 1), (2, 2), (3, 1)) + (() if q else ((4, 1), (3, 2))):
                for i, x in enumerate(exp.grid(E, S, cells if S == 1 or not q else cells[:3], style=style)):
                    if x.all_votes_nonempty() or i % 3 == 0:
                        yield 'grid %s %dx%d %d' % (style, E, S, i), ('exact', x)
        for x in exp.lattice(((4, 3), (5, 4), (6, 12), (12, 5)), ('none',), exp.MISS, (exp.ACR, exp.CONT, exp.NEG), ('list', 'tuple', 'dict'), ('alt', 'blk', 'one', 'rev')):
            yield x.tag, ('exact', x)
        for x in exp.lattice(((4, 3), (13, 5), (24, 12)), ('none',), ('none', 'diag', 'first'), (exp.FINE, exp.HUGE, exp.ACR), ('list', 'dict'), ('many', 'gap'), salts=(3,)):
            yield x.tag, ('exact', x)
            if x.style == 'dict':
                for kind in ('alike', 'odd'):
                    y = exp.named(x, kind)
                    yield y.tag + kind, ('exact', y)
        for x in exp.lattice(((70, 2), (130, 1), (3, 70), (11, 4)), ('none',), ('none', 'diag'), (exp.ACR,), ('list', 'dict'), ('alt', 'many', 'far'), salts=(5,)):
            yield x.tag, ('exact', x)
        base = [Exp([[(3,), (1,)], [(2,), (4,)], [(5,), (4,)]], content=(0, 0, 0), style=st, asset_ids=ids) for st in ('list', 'dict')
                for ids in ((0, 1, 2), (2, 0, 1), (70, 50, 60))]
        base += [Exp([[(3,), ()], [(2,), (4,)], [(), (4,)], [(1,), (2,)]], content=(0, 1, 0, 1), style='dict', asset_ids=ids) for ids in ((0, 1, 2, 3), (3, 1, 0, 2))]
        for k, x in enumerate(base):
            for v in itertools.product((0.0, 1.0), repeat=x.E):
                yield '01 %d %r' % (k, v), ('zeroone', x, v)
        three = [Exp([[(a,)], [(b,)], [(c,)]], style='dict', asset_ids=ids) for a, b, c in ((1, 2, 2), (3, 1, 2)) for ids in ((0, 1, 2), (1, 2, 0), (9, 4, 6))]
        three.append(Exp([[(2,)], [()], [(1,)], [(4,)]], style='dict', asset_ids=(2, 3, 0, 1)))
        rates = list(itertools.product((0.0, 0.5, 1.0), repeat=3))
        for k, x in enumerate(three):
            for r in rates:
                rr = (r[0], 0.5, r[1], r[2]) if x.E == 4 else r
                yield 'sample %d %r' % (k, r), ('prob', x, dict(per_asset_sampling_rates=list(rr)))
                if max(r) - min(r) < 1 or not q or k % 2 == 0:
                    yield 'toss %d %r' % (k, r), ('prob', x, dict(per_asset_cointoss_rates=list(rr)))
            for g in (0.0, 0.25, 0.5, 0.75, 1.0):
                yield 'srate %d %s' % (k, g), ('prob', x, dict(sampling_rate=g))
                yield 'crate %d %s' % (k, g), ('prob', x, dict(cointoss_rate=g))
            for tb in ('coin_toss', 'even_split'):
                yield 'tie %d %s' % (k, tb), ('prob', x, dict(tiebreak_method=tb))
            for nl in itertools.product((0.0, 0.6, 3.0), repeat=3):
                nn = (nl[0], 9.0, nl[1], nl[2]) if x.E == 4 else nl
                yield 'noises %d %r' % (k, nl), ('prob', x, dict(per_asset_noise_levels=list(nn)))
            for nl in (0.0, 0.4, 2.0):
                yield 'noise %d %s' % (k, nl), ('prob', x, dict(noise_level=nl))
            for ms in itertools.product((1.0, 2.5), repeat=3):
                mm = (ms[0], 7.0, ms[1], ms[2]) if x.E == 4 else ms
                yield 'means %d %r' % (k, ms), ('prob', x, dict(per_asset_mean_scores=list(mm)))
        for k, ids in enumerate(((0, 1), (8, 3))):
            x = Exp([[(1,)], [(2,)]], style='dict', asset_ids=ids)
            for a in range(17):
                yield 'fine rate %d %d' % (k, a), ('prob', x, dict(sampling_rate=a / 16), 16)
                yield 'fine toss %d %d' % (k, a), ('prob', x, dict(cointoss_rate=a / 16), 16)
                for b in (0, 1, 4, 15, 16):
                    yield 'fine rates %d %d %d' % (k, a, b), ('prob', x, dict(per_asset_sampling_rates=[a / 16, b / 16]), 32)
                    yield 'fine tosses %d %d %d' % (k, a, b), ('prob', x, dict(per_asset_cointoss_rates=[a / 16, b / 16]), 32)
        two = [Exp([[(a,)], [(b,)]], style=st, asset_ids=ids) for a, b in ((1, 2), (2, 1), (2, 2)) for st in ('list', 'dict') for ids in ((0, 1), (1, 0))]
        for k, x in enumerate(two):
            for s in (None, 0.25, 0.5, 1.0):
                for c in (None, 0.0, 0.25, 0.5, 1.0):
                    for nl in (None, 0.0, 0.7):
                        for tb in (None, 'coin_toss'):
                            for ms in (None, [3.0, 1.0], [1.0, 1.0]):
                                o = dict(sampling_rate=s, cointoss_rate=c, noise_level=nl, tiebreak_method=tb, per_asset_mean_scores=ms)
                                o = {a: b for a, b in o.items() if b is not None}
                                yield 'combo %d %r' % (k, o), ('prob', x, o)
        for k, (x, bad) in enumerate(itertools.product(base[:4], range(len(self.bad(3))))):
            yield 'bad %d' % k, ('bad', x, bad)
        for seed in range(8 if q else 60):
            for k in range(4):
                yield 'seed %d %d' % (seed, k), ('seed', base[k], seed)

    def bad(self, n):
        return [dict(sampling_rate=-0.1), dict(cointoss_rate=1.5), dict(cointoss_rate=-0.5), dict(noise_level=-1.0), dict(per_asset_sampling_rates=[1.0] * (n - 1)),
                dict(per_asset_cointoss_rates=[0.5] * (n + 1)), dict(per_asset_noise_levels=[0.5] * (n + 1)), dict(per_asset_mean_scores=[1.0] * (n - 1)),
                dict(sampling_rate=1.0, per_asset_sampling_rates=[1.0] * n), dict(cointoss_rate=1.0, per_asset_cointoss_rates=[1.0] * n),
                dict(noise_level=1.0, per_asset_noise_levels=[1.0] * n), dict(pc_type='nonsense'), dict(tiebreak_method='nonsense'),
                dict(per_asset_cointoss_rates=[0.5] * (n - 1) + [1.5]), dict(per_asset_noise_levels=[0.5] * (n - 1) + [-1])]

    def convert(self, x, **o):
        transition()
        src = x.dataset()
        before = copy.deepcopy(src.__dict__)
        out = RawDatasetReader(src).to_pc_dataset(**o)
        require(repr(src.__dict__) == repr(before), 'conversion changed the source dataset')
        a = [{k: v for k, v in d.items() if k != 'os'} for d in out.dis_videos]
        b = [{k: v for k, v in d.items() if k != 'os'} for d in before['dis_videos']]
        require(a == b, 'videos or metadata changed')
        require(out.ref_videos == before['ref_videos'], 'references changed')
        for k in before:
            if k not in ('dis_videos', 'ref_videos'):
                require(getattr(out, k) == before[k], 'attribute %s changed' % k)
        return decode(out), out

    def test(self, key, p):
        state(repr(p))
        if p[0] == 'exact':
            x = p[1]
            perms = list(itertools.permutations(range(x.E))) if x.E <= 3 else [tuple(range(x.E)), tuple(reversed(range(x.E))), tuple((i * 5 + 1) % x.E for i in range(x.E))
                                                                                if x.E % 5 else tuple((i + 2) % x.E for i in range(x.E)), tuple(100 - 3 * i for i in range(x.E))]
            for ids in perms:
                y = x.but(asset_ids=ids)
                for typ in (None,) + TYPES:
                    o = {} if typ is None else dict(pc_type=typ)
                    got, out = self.convert(y, **o)
                    want = {(nm, i, j): share(y.votes(i, s)[0], y.votes(j, s)[0]) for nm, s, i, j in pairs(y, typ or TYPES[0])}
                    require(got == want, 'comparisons %s: got %r, expected %r' % (typ, got, want))
                    outcome(sorted(got.items()))
                    if set(ids) == set(range(x.E)) and want:
                        rd = PairedCompDatasetReader(out)
                        require(rd.num_observers == len(set(k[0] for k in want)), 'observers of the converted dataset')
        elif p[0] == 'zeroone':
            _, x, v = p
            plain, _ = self.convert(x, pc_type=TYPES[1])
            got, _ = self.convert(x, pc_type=TYPES[1], per_asset_sampling_rates=list(v))
            for k in plain:
                r = (v[k[1]] + v[k[2]]) / 2
                if r == 1:
                    require(k in got, 'pair %r with rate 1 dropped' % (k,))
                if r == 0:
                    require(k not in got, 'pair %r with rate 0 kept' % (k,))
            require(all(got[k] == plain.get(k) for k in got), 'sampling changed a comparison')
            tossed, _ = self.convert(x, pc_type=TYPES[1], per_asset_cointoss_rates=list(v))
            require(set(tossed) == set(plain), 'tossing changed the set of pairs')
            for k in plain:
                r = (v[k[1]] + v[k[2]]) / 2
                if r == 0:
                    require(tossed[k] == plain[k], 'pair %r tossed at rate 0' % (k,))
                if r == 1:
                    require(tossed[k] in (0.0, 1.0), 'tossed pair %r undecided' % (k,))
            noisy, _ = self.convert(x, pc_type=TYPES[1], per_asset_noise_levels=[50.0 * w for w in v])
            for k in plain:
                if v[k[1]] == v[k[2]] == 0:
                    require(noisy[k] == plain[k], 'pair %r without noise changed' % (k,))
            require(set(noisy) == set(plain), 'noise changed the set of pairs')
            for g in (0, 1, 0.0, 1.0):
                got, _ = self.convert(x, pc_type=TYPES[1], sampling_rate=g)
                require(got == (plain if g else {}), 'global sampling rate %s' % g)
            require(self.convert(x, pc_type=TYPES[1], cointoss_rate=0.0, noise_level=0.0, sampling_rate=1.0)[0] == plain, 'neutral options')
            outcome(sorted(got.items()))
        elif p[0] == 'prob':
            self.prob(*p[1:])
        elif p[0] == 'bad':
            o = self.bad(p[1].E)[p[2]]
            transition()
            require(models.refused(RawDatasetReader(p[1].dataset()).to_pc_dataset, **o), 'options accepted: %r' % (o,))
            outcome(sorted(o))
        else:
            _, x, seed = p
            o = dict(sampling_seed=seed, sampling_rate=0.6, cointoss_rate=0.3, noise_level=0.8, tiebreak_method='coin_toss', pc_type=TYPES[1])
            a, _ = self.convert(x, **o)
            for hist in (lambda: None, lambda: random.seed(99), lambda: [random.random() for _ in range(7)], lambda: self.convert(x, sampling_rate=0.5),
                         lambda: random.gauss(0, 1)):
                hist()
                b, _ = self.convert(x, **o)
                require(a == b, 'same seed, different comparisons')
            outcome(sorted(a.items()))

    def prob(self, x, o, n=4):
        """exact distribution of every pair over all answers of the generator"""
        size = n
        o = dict(o, pc_type=TYPES[1])
        zs = (-1.0, 0.0, 1.0)
        dist = {}
        total = Fraction(0)
        n = 0
        src = x.dataset()

        def run(s):
            with nondet.controlled(s):
                return self.convert(x, **copy.deepcopy(o))[0]
        everyp = list(pairs(x, TYPES[1]))
        intercepted = False
        for s, got in nondet.explore(run, n=size, zs=zs, limit=300000):
            w = s.weight()
            total += w
            n += 1
            intercepted |= s.calls > 0
            for nm, si, i, j in everyp:
                r = got.get((nm, i, j))
                d = dist.setdefault((nm, i, j), {})
                d[r] = d.get(r, Fraction(0)) + w
            require(set(got) <= {(nm, i, j) for nm, si, i, j in everyp}, 'pairs that were not rated: %r' % (got,))
        core.count('generator scripts', n)
        require(total == 1, 'exploration incomplete')
        for nm, si, i, j in everyp:
            want = self.expected(x, si, i, j, o, zs)
            if want is None:
                continue
            random_needed = len(want) > 1
            if random_needed and not intercepted:
                core.count('generator not intercepted')
                continue
            got = {k: v for k, v in dist[(nm, i, j)].items() if v}
            core.CTX.validated += 1
            require(got == want, 'pair %r with %r: outcome probabilities %r, expected %r' % ((nm, i, j), o, got, want))
        outcome(sorted((k, sorted((str(a), str(b)) for a, b in v.items())) for k, v in dist.items()))

    def expected(self, x, s, i, j, o, zs):
        def opt(glob, per, none):
            if per in o:
                return (Fraction(o[per][i]) + Fraction(o[per][j])) / 2
            return Fraction(o[glob]) if glob in o else none
        rate = opt('sampling_rate', 'per_asset_sampling_rates', Fraction(1))
        toss = opt('cointoss_rate', 'per_asset_cointoss_rates', Fraction(0))
        ms = o.get('per_asset_mean_scores')
        a, b = (ms[i], ms[j]) if ms else (x.votes(i, s)[0], x.votes(j, s)[0])
        if 'noise_level' in o:
            na = nb = o['noise_level']
        elif 'per_asset_noise_levels' in o:
            na, nb = o['per_asset_noise_levels'][i], o['per_asset_noise_levels'][j]
        else:
            na = nb = 0.0
        d = {}

        def add(k, w):
            if w:
                d[k] = d.get(k, Fraction(0)) + w
        add(None, 1 - rate)
        half = Fraction(1, 2)
        add(1.0, rate * toss * half)
        add(0.0, rate * toss * half)
        noisy = 'noise_level' in o or 'per_asset_noise_levels' in o
        for za in (zs if noisy else (0.0,)):
            for zb in (zs if noisy else (0.0,)):
                w = rate * (1 - toss) / (len(zs) ** 2 if noisy else 1)
                diff = (a + na * za) - (b + nb * zb)
                if 0 < abs(diff) < 1e-9:
                    return None
                r = share(diff, 0)
                if r == 0.5 and o.get('tiebreak_method') == 'coin_toss':
                    add(1.0, w * half)
                    add(0.0, w * half)
                else:
                    add(r, w)
        return d
