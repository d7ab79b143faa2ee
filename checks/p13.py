import itertools
import numpy as np
from mc import core, exp, models, ref
from mc.core import Check, outcome, state, skip, check_same, require


class CHECK(Check):
    rule = ('least squares: every complete panel of the small grids and the lattice against the closed-form minimiser of the '
            'additive model, plain and on votes preprocessed by differential scoring, z-scoring and bias removal; exact recovery: every quality vector and bias vector over a small alphabet (and larger structured '
            'ones), complete, with repetitions and with every connected pattern of missing votes')

    def cases(self, tier):
        al = ((1,), (2,), (5,), (0,))
        for (E, S) in ((1, 1), (1, 3), (3, 1), (2, 2)) + (((2, 3), (3, 2)) if tier != 'quick' else ()):
            for i, x in enumerate(exp.grid(E, S, al, style='list')):
                yield 'ls grid%dx%d/%d' % (E, S, i), ('ls', x)
        for x in exp.zoo(tier, complete=True, repetitions=False):
            yield 'ls ' + x.tag, ('ls', x)
        for x in exp.zoo(tier, refs=True, complete=True, repetitions=False):
            yield 'ls refs ' + x.tag, ('ls', x)
        for E, S in ((60, 50), (3, 130), (150, 4)) + (((120, 100),) if tier != 'quick' else ()):
            for al in (exp.ACR, exp.PCT):
                yield 'ls big %dx%d %s' % (E, S, al[1]), ('ls', exp.Exp([[(v,) for v in r] for r in exp.fill(E, S, al)], style='list'))
        Q = (1, 2, 4.5)
        B = (-1, 0, 0.5)
        for q in itertools.product(Q, repeat=3):
            for b in itertools.product(B, repeat=3):
                yield 'exact %s %s' % (q, b), ('exact', q, b, 'full', 1)
                yield 'exact2 %s %s' % (q, b), ('exact', q, b, 'full', 2)
        for E, S in ((4, 4), (7, 3), (3, 9), (12, 13)):
            q = tuple(1 + (e * 7 % 11) * 0.375 for e in range(E))
            b = tuple(((s * 5) % 7 - 3) * 0.25 for s in range(S))
            for miss in ('full', 'one', 'diag', 'obs', 'vid', 'half'):
                for R in (1, 2, 3):
                    yield 'exact %dx%d %s %d' % (E, S, miss, R), ('exact', q, b, miss, R)
        q, b = (1, 3, 4.25), (0, 0.5, -1)
        for mask in range(1, 1 << 9):
            yield 'mask %d' % mask, ('exact', q, b, mask, 1)

    def test(self, key, p):
        if p[0] == 'ls':
            x = p[1]
            T = x.T()
            state(x.read().key())
            E, S, _ = ref.dims(T)
            res = models.run('LS', x)
            q = [ref.mean(T[e][s][0] for s in range(S)) for e in range(E)]
            gm = ref.mean(q)
            b = [ref.mean(T[e][s][0] for e in range(E)) - gm for s in range(S)]
            # minimiser of sum (x - q - b)^2 is unique up to q+t, b-t; the first video's quality is its MOS: t = 0
            sc = max(1.0, max(abs(v) for v in q))
            check_same('LS quality', res['quality_scores'], q, 1e-8, 1e-8 * sc)
            check_same('LS bias', res['observer_bias'], b, 1e-8, 1e-8 * sc)
            outcome(q)
            for opts, (d, z, bo) in ((dict(dscore_mode=True), (1, 0, 0)), (dict(zscore_mode=True), (0, 1, 0)), (dict(bias_offset=True), (0, 0, 1)),
                                     (dict(dscore_mode=True, zscore_mode=True), (1, 1, 0)), (dict(dscore_mode=True, bias_offset=True), (1, 0, 1))):
                if d and not (x.refs and len(set(x.content)) == x.nc):
                    continue
                if z and any(len(set(ref.of_observer(T, s))) < 2 for s in range(S)):
                    continue
                if d and z:
                    if any(max(ref.of_observer(D, s)) - min(ref.of_observer(D, s)) < 1e-9 for D in [ref.dscore(T, x.content, x.refs, x.ref_score)] for s in range(S)):
                        continue
                P = models.pipeline(T, x, d, z, bo, None)[0]
                res = models.run('LS', x, **opts)
                q = [ref.mean(P[e][s][0] for s in range(S)) for e in range(E)]
                gm = ref.mean(q)
                b = [ref.mean(P[e][s][0] for e in range(E)) - gm for s in range(S)]
                check_same('LS quality %s' % opts, res['quality_scores'], q, 1e-8, 1e-8 * sc)
                check_same('LS bias %s' % opts, res['observer_bias'], b, 1e-8, 1e-8 * sc)
            return
        _, q, b, miss, R = p
        E, S = len(q), len(b)
        cells = [[(q[e] + b[s],) * R for s in range(S)] for e in range(E)]
        if isinstance(miss, int):
            cells = [[c if miss >> (e * S + s) & 1 else () for s, c in enumerate(row)] for e, row in enumerate(cells)]
        elif miss != 'full':
            cells = exp.apply_missing(cells, miss)
        x = exp.Exp(cells, style='list')
        if not x.all_votes_nonempty() or not connected(x):
            skip('disconnected')
            return
        state(x.key())
        full = all(len(c) for row in cells for c in row)
        names = ['P910', 'MLE_CO_AP'] + (['BR_MOS'] if full else []) + (['LS'] if full and R == 1 else [])
        for name in names:
            if name in ('P910', 'MLE_CO_AP') and not full:
                # the standard iteration reaches the exact solution only in the limit; judge the additive fit only
                continue
            res = models.run(name, x)
            d = res['quality_scores'][0] - q[0]
            check_same(name + ' quality', [v - d for v in res['quality_scores']], q, 0, 1e-6)
            check_same(name + ' bias', [v + d for v in res['observer_bias']], b, 0, 1e-6)
            if 'observer_inconsistency' in res:
                check_same(name + ' residual spread', res['observer_inconsistency'], [0.0] * S, 0, 1e-6)
            if 'quality_ambiguity' in res and S * R > 1:
                check_same(name + ' residual spread', res['quality_ambiguity'], [0.0] * E, 0, 1e-6)
            outcome([name, res['quality_scores']])
        if not full:
            for name in ('P910', 'MLE_CO_AP'):
                from mc import like
                X = like.arr(x.T())
                rq, rb, rv, _, it = like.p910(X)
                if it >= 900 or not np.allclose(rv, 0, atol=1e-4):
                    skip('standard iteration does not reach zero residue')
                    continue
                res = models.run(name, x)
                d = res['quality_scores'][0] - q[0]
                check_same(name + ' quality', [v - d for v in res['quality_scores']], q, 0, 1e-3)
                check_same(name + ' bias', [v + d for v in res['observer_bias']], b, 0, 1e-3)


def connected(x):
    seen, todo = {('e', 0)}, [('e', 0)]
    while todo:
        k, i = todo.pop()
        nxt = [('s', s) for s in range(x.S) if x.cells[i][s]] if k == 'e' else [('e', e) for e in range(x.E) if x.cells[e][i]]
        for n in nxt:
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return len(seen) == x.E + x.S
