from mc import core, exp, models, ref
from mc.core import Check, outcome, state


class CHECK(Check):
    rule = ('every experiment of the small grids and the feature lattice is scored by the real MOS model and compared with '
            'exact per-video statistics computed from the recorded votes')

    def cases(self, tier):
        for x in exp.zoo(tier):
            yield x.tag, x
        big = exp.Exp([[(c,) for c in row] for row in exp.fill(4, 3, exp.ACR)], tag='dev4x3', style='list')
        for x in exp.deviations(big, ((), (0,), (-7.5,), (1000.25,), (5, 5), (1, 2, 3, 4)), 2 if tier != 'quick' else 1):
            yield 'dev ' + x.tag, x

    def test(self, key, x):
        state(x.read().key())
        res = models.run('MOS', x)
        want = models.compare_pipe('MOS', res, x)
        outcome([res['quality_scores'], res['quality_scores_std']])
