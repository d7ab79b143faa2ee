import itertools
from mc import core, exp, models, ref
from mc.core import Check, outcome, state, skip, count
from mc.exp import Exp


def panels(tier):
    """consistent panels with every combination of per-observer behaviours"""
    q = [1, 2, 3, 4, 5, 3.5]
    kinds = {
        'n': lambda e, s: q[e] + 0.25 * ((e * 3 + s) % 3 - 1),
        'i': lambda e, s: 6 - q[e],
        'c': lambda e, s: 3,
        'w': lambda e, s: q[(e * 2 + s) % 6],
        'g': lambda e, s: None if (e + s) % 3 == 0 else q[e] + 0.125 * ((e + s) % 2),
        'r': lambda e, s: (q[e], q[e] + 0.5),
    }
    for S in (3, 4) + ((5,) if tier != 'quick' else ()):
        for comb in itertools.product('nicwgr' if S < 5 else 'nicw', repeat=S):
            x = exp.from_table([[kinds[k](e, s) for s, k in enumerate(comb)] for e in range(6)], style='list', tag='panel/' + ''.join(comb))
            if x.all_votes_nonempty():
                yield x
    for k in 'nicwgr':
        for S in (9, 14):
            yield exp.from_table([[kinds['n' if s != S // 2 else k](e, s) for s in range(S)] for e in range(6)], style='dict',
                                 tag='panel%d/%s' % (S, k))


def threshold_cases():
    """equal correlations (all on the threshold) and rank correlations of exactly 0.7"""
    for E in (3, 4):
        ps = list(itertools.permutations(range(1, E + 1)))
        for i, a in enumerate(ps):
            for j, b in enumerate(ps):
                if E == 3 or (i * 5 + j) % 4 == 0:
                    yield Exp([[(a[e],), (b[e],)] for e in range(E)], style='list', tag='pair/%r/%r' % (a, b))
    for a in itertools.permutations((1, 2, 3)):
        for b in itertools.permutations((1, 2, 3)):
            yield Exp([[(a[e],), (b[e],), (a[e],), (b[e],)] for e in range(3)], style='dict', tag='pair4/%r/%r' % (a, b))
    for a in itertools.permutations((1, 2, 3, 4, 5)):
        if sum((v - i - 1) ** 2 for i, v in enumerate(a)) in (4, 6, 8):
            for S in (6, 9, 12):
                yield Exp([[(a[e],) if s == 2 else (e + 1 + 0.25 * ((s + e) % 2),) for s in range(S)] for e in range(5)], style='list', tag='seven/%r/%d' % (a, S))


def on_threshold(name, res):
    """decisions that hang on 'at or below' but not on rounding, judged by the reported correlations"""
    r = [float(v) for v in res['observer_rejected_1st_stats']]
    rej = [bool(v) for v in res['observer_rejected']]
    if any(v != v for v in r):
        core.require(not any(rej), '%s: rejected although a correlation is undefined: %s' % (name, r))
        return
    for a, ra in zip(r, rej):
        for b, rb in zip(r, rej):
            core.require(not (a < b - 1e-9 and rb and not ra), '%s: correlation %s rejected but not %s' % (name, b, a))
    if len(r) in (2, 4, 8) and len(set(r)) == 1 and r[0] <= 0.7:      # mean and deviation are exact
        count('equal correlations')
        core.require(all(rej), '%s: all correlations are %s, the threshold, but the rejected are %s' % (name, r[0], rej))
    if ref.mean(r) - ref.pstd(r) > 0.7 + 1e-9 and 0.7 in r:
        count('correlation 0.7')
        core.require(all(q for v, q in zip(r, rej) if v == 0.7), '%s: correlation exactly 0.7 not rejected' % name)


class CHECK(Check):
    rule = ('every experiment of small grids and lattice, and every assignment of six observer behaviours (consistent, inverted, '
            'constant, erratic, with gaps, with repetitions) to panels of 3-5 observers: correlations, rejected observers and '
            'scores of the real models compared with textbook correlation screening; decisions within rounding of the threshold '
            'are counted and judged for consistency only: votes gone if and only if reported rejected')

    def cases(self, tier):
        for x in panels(tier):
            yield x.tag, x
        for x in threshold_cases():
            yield x.tag, x
        for x in exp.zoo(tier):
            if x.E >= 2:
                yield x.tag, x

    def test(self, key, x):
        state(x.read().key())
        for name in ('SR_MOS_PCC', 'SR_MOS_SRCC', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC'):
            d, z, b, scr = models.PIPE[name]
            try:
                _, rej, s1, _, _ = models.pipeline(x.T(), x, d, z, b, scr)
            except ref.Boundary as e:
                skip(str(e))
                if all(sum(bool(ref.nn(row[s])) for row in x.T()) > 1 for s in range(len(x.T()[0]))):
                    res = models.run(name, x)
                    models.self_consistent(name, res, x)
                    on_threshold(name, res)
                    count('decisions on a threshold judged for consistency only')
                continue
            if all(rej):
                skip('everyone rejected')
                continue
            res = models.run(name, x)
            models.compare_pipe(name, res, x)
            on_threshold(name, res)
            if any(v != v for v in s1):
                count('panels with undefined correlation')
            elif any(rej):
                count('panels with rejected observers')
            if not b and not any(v != v for v in s1):
                res = models.run('MOS', x, subject_rejection=True, subject_rejection_type=scr)
                models.compare_pipe('MOS', res, x, screen=scr)
            outcome([rej, s1])
