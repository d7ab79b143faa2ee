import copy, itertools, math
from fractions import Fraction
import numpy as np
from mc import core, exp, models, ref, nondet
from mc.exp import Exp, NAN
from mc.core import Check, outcome, state, skip, check_same, require, transition, same
import sureal.dataset_reader as dr
from sureal.dataset_reader import RawDatasetReader

BEH = ('shuffle', 'flip', 'min', 'mid', 'max', 'constant')


def cells_of(T):
    """votes per cell, repetition padding ignored"""
    return [[[float(v) for v in c if v == v] for c in row] for row in np.asarray(T, float).tolist()]


class CHECK(Check):
    case_timeout = 300
    rule = ('every ordered selection of observers and of videos of small datasets; every configuration of the corrupting and missing-data '
            'readers on small tables under every sequence of answers of the random generator (exact probabilities per vote); synthetic '
            'readers under every noise script of small tables (exact joint distributions) and with real seeds on larger ones')

    def cases(self, tier):
        q = tier == 'quick'
        for x in exp.lattice(((3, 3), (2, 4), (4, 3)), ('none', 'ragged'), ('none', 'diag', 'obs'), (exp.ACR, exp.CONT), ('list', 'dict'), ('alt',), refs=True):
            S, E = x.read().S, x.E
            sel = [p for k in range(1, S + 1) for p in itertools.permutations(range(S), k)] if S <= 3 else \
                [p for k in (1, 2) for p in itertools.permutations(range(S), k)] + [tuple(range(S)), tuple(reversed(range(S))), (1, 3, 0), (2, 2, 0)]
            for p in sel + [(0, 0), (1, 1, 0)]:
                yield 'subjects %r %s' % (p, x.tag), ('subjects', x, p)
            vid = [p for k in range(1, E + 1) for p in itertools.permutations(range(E), k)] if E <= 3 else [p for p in itertools.permutations(range(E), 2)] + [(3, 2, 1, 0), (1, 1, 2)]
            for ids in (None, [E - 1 - i for i in range(E)], [50 + 7 * i for i in range(E)]):
                for p in vid:
                    yield 'videos %r %s %s' % (p, ids, x.tag), ('videos', x if ids is None else x.but(asset_ids=ids), p)
        odd = exp.named(Exp([[(v,) for v in r] for r in exp.fill(5, 11, exp.ACR)], style='dict'), 'num')
        for p in ((10, 0), tuple(range(10, -1, -1)), (3,), (9, 1, 10)):
            yield 'subjects %r odd' % (p,), ('subjects', odd, p)
        small = [Exp(c, style=st, tag=st + str(k), ref_score=5.5) for st in ('list', 'dict') for k, c in enumerate((
            [[(1,), (4,)], [(3,), (2,)]], [[(1,), (4,)], [(3,), (2,)], [(5,), (2,)]], [[(1,), (4, 2)], [(3,), (2,)]], [[(1,), (4,), (5,)], [(3,), (), (2,)]]))]
        for x in small:
            for pr in (0, 0.25, 0.5, 0.75, 1, 1.0):
                if pr in (0.25, 0.75) and x.E * x.S * x.R > 4 or pr == 0.75 and q or (q and pr == 1 and isinstance(pr, int)):
                    continue
                yield 'missing %s %s' % (pr, x.tag), ('missing', x, pr)
                yield 'cdata %s %s' % (pr, x.tag), ('cdata', x, pr)
                if pr == 1.0 and x.E * x.S * x.R <= 4:
                    for top in (2, 3.5, 10, 100.0):
                        yield 'cdata %s %s %s' % (pr, top, x.tag), ('cdata', x.but(ref_score=top), pr)
            S = x.S
            for beh in BEH + (None,):
                for k in range(0, S + 1):
                    for sub in itertools.permutations(range(S), k):
                        for pr in (None, 0.0, 0.25, 0.75, 1.0):
                            if beh in ('shuffle', None) and pr is not None and x.E * k > 4:
                                continue
                            if k > 2 and pr is not None:
                                continue
                            if pr in (0.25, 0.75) and (x.E * k > 4 or (q and sub != tuple(sorted(sub)))):
                                continue
                            yield 'corrupt %s %r %s %s' % (beh, sub, pr, x.tag), ('corrupt', x, beh, sub, pr)
        for E, S in ((1, 2), (2, 1), (1, 1)):
            for cls in ('normal', 'logistic', 'ambiguity'):
                for lay in itertools.product((0, 1), repeat=E):
                    yield 'synth %s %dx%d %r' % (cls, E, S, lay), ('synth', cls, E, S, lay)
        for x in exp.lattice(((4, 3), (6, 5), (12, 9)), ('none',), ('none',), (exp.ACR,), ('list', 'dict'), ('alt', 'blk', 'rev')):
            for cls in ('normal', 'logistic', 'ambiguity'):
                for seed in range(3 if q else 20):
                    yield 'seeded %s %d %s' % (cls, seed, x.tag), ('seeded', x, cls, seed)
        for x in exp.lattice(((4, 3), (6, 5)), ('none', 'ragged'), ('none', 'diag'), (exp.ACR, exp.PCT), ('list', 'dict'), ('alt',), ref_score=100.0):
            for seed in range(4 if q else 40):
                yield 'real %d %s' % (seed, x.tag), ('real', x, seed)
        for k in range(len(self.bad())):
            yield 'bad %d' % k, ('bad', k)

    def bad(self):
        A = np.array
        ok = dict(quality_scores=A([1., 2, 3]), observer_bias=A([0., 0]), observer_inconsistency=A([1., 1]), content_bias=A([0., 0]), content_ambiguity=A([1., 1]))
        out = [(dr.SelectSubjectRawDatasetReader, dict(selected_subjects=s)) for s in ([2], [-1], [0, 5], [0, 1, 2])]
        out += [(dr.SelectDisVideoRawDatasetReader, dict(selected_dis_videos=s)) for s in ([3], [-1], [0, 1, 2, 3])]
        out += [(dr.CorruptSubjectRawDatasetReader, dict(selected_subjects=s)) for s in ([2], [-1], [0, 0], [1, 0, 1])]
        out += [(dr.CorruptSubjectRawDatasetReader, dict(selected_subjects=[0], corrupt_behavior='nonsense')), (dr.CorruptSubjectRawDatasetReader, {}),
                (dr.SelectSubjectRawDatasetReader, {}), (dr.SelectDisVideoRawDatasetReader, {}), (dr.MissingDataRawDatasetReader, {}), (dr.CorruptDataRawDatasetReader, {})]
        for k in ok:
            d = dict(ok)
            del d[k]
            for c in (dr.SyntheticRawDatasetReader, dr.SyntheticLogisticRawDatasetReader):
                out.append((c, d))
                out.append((c, dict(ok, **{k: np.append(ok[k], 1.0)})))
                out.append((c, dict(ok, **{k: ok[k][:-1]})))
        out.append((dr.SyntheticRawDatasetReader, dict(ok, seed=1.5)))
        out.append((dr.SyntheticRawDatasetReader, dict(ok, quality_ambiguity=A([1., 1]))))
        return out

    def test(self, key, p):
        state(repr(p))
        getattr(self, 't_' + p[0])(*p[1:])

    def t_bad(self, k):
        x = Exp([[(1,), (2,)], [(3,), (1,)], [(2,), (5,)]], content=(0, 1, 0))
        cls, inp = self.bad()[k]
        transition()
        require(models.refused(lambda: cls(x.dataset(), input_dict=inp).opinion_score_3darray), '%s accepts %r' % (cls.__name__, inp))
        outcome(k)

    # ---- selections
    def t_subjects(self, x, sel):
        src = x.dataset()
        before = copy.deepcopy(src)
        transition()
        rd = dr.SelectSubjectRawDatasetReader(src, input_dict=dict(selected_subjects=list(sel)))
        T = rd.opinion_score_3darray
        base = x.T()
        want = [[row[s] for s in sel] for row in base]
        require(T.shape[:2] == (x.E, len(sel)), 'shape %r' % (T.shape,))
        check_same('selected votes', cells_of(T), cells_of(want), 0, 0)
        check_same('number of observers', rd.num_observers, len(sel))
        ds = rd.to_dataset()
        check_same('selected votes as dataset', cells_of(RawDatasetReader(ds).opinion_score_3darray), cells_of(want), 0, 0)
        require(repr(vars(src)) == repr(vars(before)), 'selection changed the source dataset')
        names = x.read().names
        red = Exp([[tuple(v for v in c if v == v) for c in row] for row in want], content=x.content, refs=x.refs, nc=x.nc, ref_score=x.ref_score, style='list')
        if all(red.votes(e, s) or True for e in range(x.E) for s in range(len(sel))) and all(any(red.votes(e, s) for s in range(len(sel))) for e in range(x.E)):
            for m in ('MOS', 'BR_MOS') + (('DMOS',) if x.refs else ()):
                a = models.run(m, dr.SelectSubjectRawDatasetReader(x.dataset(), input_dict=dict(selected_subjects=list(sel))))
                b = models.run(m, RawDatasetReader(red.dataset()))
                for k in ('quality_scores', 'quality_scores_std', 'observer_bias'):
                    if k in b:
                        check_same('%s on the selection: %s' % (m, k), a[k], b[k])
                if x.style == 'dict':
                    check_same('names of the selected observers', list(a['observers']), [names[s] for s in sel])
            outcome(a['quality_scores'])

    def t_videos(self, x, sel):
        src = x.dataset()
        before = copy.deepcopy(src)
        transition()
        rd = dr.SelectDisVideoRawDatasetReader(src, input_dict=dict(selected_dis_videos=list(sel)))
        red = copy.deepcopy(before)
        red.dis_videos = [copy.deepcopy(red.dis_videos[i]) for i in sel]
        plain = RawDatasetReader(red)
        check_same('votes of the selected videos', rd.opinion_score_3darray, plain.opinion_score_3darray, 0, 0)
        check_same('votes', cells_of(rd.opinion_score_3darray), [[c for s, c in enumerate(cells_of(x.T())[i]) if x.style != 'dict' or
                                                                  any(x.read().cells[j][s] for j in sel)] for i in sel], 0, 0)
        check_same('number of videos', rd.num_dis_videos, len(sel))
        check_same('contents', rd.content_id_of_dis_videos, [x.content[i] for i in sel])
        check_same('paths', [v['path'] for v in rd.dis_videos], [before.dis_videos[i]['path'] for i in sel])
        check_same('references among them', rd.disvideo_is_refvideo, [i in x.refs for i in sel])
        require(repr(vars(src)) == repr(vars(before)), 'selection changed the source dataset')
        for m in ('MOS', 'BR_MOS', 'DMOS'):
            if m == 'DMOS' and not all(sum(1 for j in sel if j in x.refs and x.content[j] == x.content[i]) == 1 for i in sel):
                continue
            a, b = models.run(m, rd), models.run(m, plain)
            for k in ('quality_scores', 'quality_scores_std', 'observer_bias'):
                if k in b:
                    check_same('%s on the selection: %s' % (m, k), a[k], b[k])
            outcome(a['quality_scores'])

    # ---- controlled generators
    def enum(self, make, n=4, zs=(-1.0, 0.0, 1.0)):
        """[(weight, table)] over all generator answers; None if the generator is out of reach"""
        out, calls = [], 0

        def run(s):
            with nondet.controlled(s):
                transition()
                return np.array(make().opinion_score_3darray, float)
        tot = Fraction(0)
        for s, T in nondet.explore(run, n, zs):
            out.append((s.weight(), T))
            tot += out[-1][0]
            calls += s.calls
        require(tot == 1, 'exploration incomplete')
        core.count('generator scripts', len(out))
        return out, calls > 0

    def t_missing(self, x, pr):
        base = np.array(x.T())
        tabs, ok = self.enum(lambda: dr.MissingDataRawDatasetReader(x.dataset(), input_dict=dict(missing_probability=pr)), n=4 if pr in (0.25, 0.75) else 2)
        miss = {}
        masks = {}
        for w, T in tabs:
            require(T.shape == base.shape, 'shape changed')
            m_ = np.isnan(T)[~np.isnan(base)].tobytes()
            masks[m_] = masks.get(m_, Fraction(0)) + w
            gone = np.isnan(T) & ~np.isnan(base)
            require(not np.any(~np.isnan(T) & np.isnan(base)), 'a vote appeared')
            require(np.array_equal(T[~np.isnan(T)], base[~np.isnan(T)]), 'a remaining vote was altered')
            for i in zip(*np.where(~np.isnan(base))):
                miss[i] = miss.get(i, Fraction(0)) + (w if gone[i] else 0)
            outcome(T)
        if ok or pr in (0, 1):
            for i, m in miss.items():
                check_same('probability that vote %s is missing at %s' % (i, pr), float(m), float(pr), 0, 0)
        if ok and 0 < pr < 1:
            # votes go missing independently of each other: every pattern, each with the product of its probabilities
            n = int((~np.isnan(base)).sum())
            check_same('number of patterns of missing votes', len(masks), 2 ** n)
            for m_, w in masks.items():
                k = sum(m_)
                check_same('probability of a pattern of missing votes', float(w), pr ** k * (1 - pr) ** (n - k), 1e-12, 0)

    def t_cdata(self, x, pr):
        base = np.array(x.T())
        hi = x.ref_score
        tabs, ok = self.enum(lambda: dr.CorruptDataRawDatasetReader(x.dataset(), input_dict=dict(corrupt_probability=pr)), n=4 if pr in (0.25, 0.75) else 2)
        ch = {}
        for w, T in tabs:
            diff = (T != base) & ~(np.isnan(T) & np.isnan(base))
            require(np.all((T[diff] >= 1) & (T[diff] <= hi)), 'corrupted vote outside [1, %s]' % hi)
            for i in zip(*np.where(~np.isnan(base))):
                ch[i] = ch.get(i, Fraction(0)) + (w if diff[i] else 0)
            outcome(T)
        if ok:
            for i, m in ch.items():
                check_same('probability that vote %s is corrupted at %s' % (i, pr), float(m), float(pr), 0, 0)

    def t_corrupt(self, x, beh, sub, pr):
        base = np.array(x.T())
        lo, hi = np.nanmin(base), np.nanmax(base)
        inp = dict(selected_subjects=list(sub))
        if beh is not None:
            inp['corrupt_behavior'] = beh
        if pr is not None:
            inp['corrupt_probability'] = pr
        tabs, ok = self.enum(lambda: dr.CorruptSubjectRawDatasetReader(x.dataset(), input_dict=copy.deepcopy(inp)), n=4 if pr in (0.25, 0.75) else 2)
        kind = beh or 'shuffle'
        rest = [s for s in range(x.S) if s not in sub]
        touched = {}
        seen = set()
        for w, T in tabs:
            require(same(T[:, rest, :], base[:, rest, :], 0, 0), 'an observer that was not selected changed')
            seen.add(repr(T.tolist()))
            for s in sub:
                a, b = T[:, s, :], base[:, s, :]
                rows = lambda M: sorted(repr(r.tolist()) for r in M)
                if kind == 'shuffle':
                    require(rows(a) == rows(b), 'shuffle changed the votes of observer %d' % s)
                    if pr == 0.0:
                        require(same(a, b, 0, 0), 'shuffled at probability 0')
                    continue
                new = {'flip': hi + lo - b, 'min': np.full_like(b, lo), 'mid': np.full_like(b, (lo + hi) / 2), 'max': np.full_like(b, hi)}.get(kind)
                cs = set()
                for e in range(x.E):
                    if kind == 'constant':
                        changed = not same(a[e], b[e], 0, 0)
                        if changed:
                            cs.update(a[e].tolist())
                    else:
                        changed = same(a[e], new[e], 0, 1e-9)
                        require(changed or same(a[e], b[e], 0, 0), '%s of observer %d on video %d: %s from %s' % (kind, s, e, a[e], b[e]))
                        if same(new[e], b[e], 0, 1e-9):
                            continue
                    if pr in (None, 1.0) and kind != 'constant':
                        require(changed, 'vote on video %d not corrupted' % e)
                    if pr == 0.0:
                        require(not changed, 'vote corrupted at probability 0')
                    touched[(e, s)] = touched.get((e, s), Fraction(0)) + (w if changed else 0)
                if kind == 'constant':
                    require(len(cs) <= 1 and all(lo <= c <= hi for c in cs), 'constant votes %s outside [%s, %s]' % (cs, lo, hi))
                    if pr is None:
                        require(len(set(a.ravel().tolist())) == 1, 'constant observer varies')
            outcome(T)
        if pr is not None and ok and kind not in ('shuffle', 'constant'):
            for i, m in touched.items():
                check_same('probability that %s is corrupted' % (i,), float(m), pr, 0, 0)
        if kind == 'shuffle' and pr is None and ok and sub:
            n = 1
            for s in sub:
                b = [repr(r.tolist()) for r in base[:, s, :]]
                n *= len(set(itertools.permutations(b)))
            check_same('number of reachable shuffles', len(seen), n)

    def synthetic(self, kind, E, S, lay, seed=None, sig=1.0, rng=0):
        C = 2 if max(lay) <= 1 else max(lay) + 1
        q = np.array([1.0 + 1.5 * e for e in range(E)])
        inp = dict(quality_scores=q, observer_bias=np.array([0.125 * (s + 1) * (-1) ** s for s in range(S)]),
                   observer_inconsistency=np.array([0.25 * (s + 1) for s in range(S)]) * sig,
                   content_bias=np.array([0.03125 * (c + 1) for c in range(C)]), content_ambiguity=np.array([0.5 + 2.0 * c for c in range(C)]) * sig)
        if kind == 'ambiguity':
            inp['quality_ambiguity'] = np.array([0.0625 * (e + 1) for e in range(E)]) * sig
        if seed is not None:
            inp['seed'] = seed
        return inp, (dr.SyntheticLogisticRawDatasetReader if kind == 'logistic' else dr.SyntheticRawDatasetReader), C

    def t_synth(self, kind, E, S, lay):
        inp, cls, C = self.synthetic(kind, E, S, lay)
        x = Exp([[(3,)] * S] * E, content=lay, nc=C)
        zs = (-1.0, 0.0, 1.0)
        tabs, ok = self.enum(lambda: cls(x.dataset(), input_dict=copy.deepcopy(inp)), zs=zs)
        if not ok:
            core.count('generator not intercepted')
            return
        f = math.sqrt(3) / math.pi if kind == 'logistic' else 1.0
        got, want = {}, {}
        for w, T in tabs:
            require(T.shape == (E, S, 1), 'shape %r' % (T.shape,))
            k = tuple(round(v, 7) + 0.0 for v in T.ravel())
            got[k] = got.get(k, Fraction(0)) + w
        per = 3 if kind == 'ambiguity' else 2
        for z in itertools.product(zs, repeat=per * E * S):
            v = []
            for e in range(E):
                for s in range(S):
                    zz = z[per * (e * S + s):per * (e * S + s + 1)]
                    c = lay[e]
                    v.append(inp['quality_scores'][e] + inp['observer_bias'][s] + inp['content_bias'][c] + f * inp['observer_inconsistency'][s] * zz[0]
                             + f * inp['content_ambiguity'][c] * zz[1] + (inp['quality_ambiguity'][e] * zz[2] if per == 3 else 0.0))
            k = tuple(round(a, 7) + 0.0 for a in v)
            want[k] = want.get(k, 0) + Fraction(1, len(zs) ** (per * E * S))
        require(got == want, 'distribution of synthetic votes differs: %d tables, expected %d; e.g. %s' % (
            len(got), len(want), sorted(set(got.items()) ^ set(want.items()))[:3]))
        outcome(sorted(got))

    def t_seeded(self, x, kind, seed):
        S = x.read().S
        mk = lambda sig, sd=seed: self.synthetic(kind, x.E, S, x.content, sd, sig)
        tab = {}
        for sig in (0.0, 1.0, 2.0):
            inp, cls, C = mk(sig)
            ds = x.but(nc=C).dataset()
            if seed % 2:
                ds.ref_videos.reverse()
            before = copy.deepcopy(ds)
            transition()
            rd = cls(ds, input_dict=inp)
            tab[sig] = np.array(rd.opinion_score_3darray)
            check_same('second reading with the same seed', rd.opinion_score_3darray, tab[sig], 0, 0)
            np.random.uniform(size=5)
            check_same('fresh reader with the same seed', cls(ds, input_dict=mk(sig)[0]).opinion_score_3darray, tab[sig], 0, 0)
            require(repr(vars(ds)) == repr(vars(before)), 'source dataset changed')
        exact = inp['quality_scores'][:, None] + inp['observer_bias'][None, :] + inp['content_bias'][list(x.content)][:, None]
        check_same('noise-free synthetic votes', tab[0.0][:, :, 0], exact)
        d1, d2 = tab[1.0] - tab[0.0], tab[2.0] - tab[0.0]
        check_same('noise scales with inconsistency and ambiguity', d2, 2 * d1, 1e-9, 1e-9)
        require(len(set(np.round(d1.ravel(), 9).tolist())) == d1.size, 'noise is shared between votes')
        other = np.array(cls(ds, input_dict=mk(1.0, seed + 1)[0]).opinion_score_3darray)
        require(not np.array_equal(other, tab[1.0]), 'two seeds give the same votes')
        check_same('number of observers', rd.num_observers, S)
        outcome(tab[1.0])

    def t_real(self, x, seed):
        """real generators: what must hold for every draw"""
        base = np.array(x.T())
        S = base.shape[1]
        for pr in (0.0, 0.3, 1.0):
            transition()
            rd = dr.MissingDataRawDatasetReader(x.dataset(), input_dict=dict(missing_probability=pr, seed=seed))
            T = np.array(rd.opinion_score_3darray)
            check_same('same seed', rd.opinion_score_3darray, T, 0, 0)
            require(not np.any(~np.isnan(T) & np.isnan(base)) and np.array_equal(T[~np.isnan(T)], base[~np.isnan(T)]), 'remaining votes altered')
            if pr == 1.0:
                require(np.all(np.isnan(T)), 'votes left at probability 1')
            if pr == 0.0:
                check_same('probability 0', T, base, 0, 0)
            np.random.seed(seed)
            T = np.array(dr.CorruptDataRawDatasetReader(x.dataset(), input_dict=dict(corrupt_probability=pr)).opinion_score_3darray)
            diff = (T != base) & ~(np.isnan(T) & np.isnan(base))
            require(np.all((T[diff] >= 1) & (T[diff] <= x.ref_score)), 'corrupted vote outside the scale')
            if pr == 0.0:
                check_same('probability 0', T, base, 0, 0)
        for beh in BEH:
            for sub in ([0], [S - 1, 0], list(range(S))):
                for pr in (None, 0.4):
                    np.random.seed(seed)
                    inp = dict(selected_subjects=sub, corrupt_behavior=beh)
                    if pr is not None:
                        inp['corrupt_probability'] = pr
                    transition()
                    T = np.array(dr.CorruptSubjectRawDatasetReader(x.dataset(), input_dict=inp).opinion_score_3darray)
                    rest = [s for s in range(S) if s not in sub]
                    require(same(T[:, rest], base[:, rest], 0, 0), 'observers that were not selected changed')
                    lo, hi = np.nanmin(base), np.nanmax(base)
                    for s in sub:
                        if beh == 'shuffle':
                            require(sorted(map(repr, T[:, s].tolist())) == sorted(map(repr, base[:, s].tolist())), 'shuffle altered votes')
                        else:
                            v = T[:, s][~np.isnan(T[:, s])]
                            require(np.all((v >= lo - 1e-9) & (v <= hi + 1e-9)), '%s outside the score range' % beh)
                            if pr is None and beh == 'flip':
                                check_same('flip', T[:, s], lo + hi - base[:, s])
        outcome(T)
