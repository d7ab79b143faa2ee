import itertools
from mc import core, exp, models, ref
from mc.core import Check, outcome, state, skip, count


class CHECK(Check):
    rule = ('every experiment of the small grids, the feature lattice and the screening space (all high/normal/low/absent '
            'patterns of one or two outlying observers in panels with low, normal and high kurtosis, ratios exactly on the '
            'thresholds, repetitions) is screened by the real models; rejected observers, both statistics and the scores of '
            'the remaining ones are compared with BT.500 evaluated in exact arithmetic; cases whose decision lies within '
            'rounding of a threshold are counted and judged for consistency only')
    MODELS = ('SR_MOS', 'BR_SR_MOS', 'BT500', 'P913')

    def cases(self, tier):
        for x in exp.screening(tier):
            yield x.tag, x
        for x in exp.zoo(tier):
            yield x.tag, x

    def test(self, key, x):
        state(x.read().key())
        import sureal
        runs = [('SR_MOS', lambda: models.run('SR_MOS', x), {}),
                ('BR_SR_MOS', lambda: models.run('BR_SR_MOS', x), {}),
                ('MOS', lambda: models.run('MOS', x, subject_rejection=True), {'screen': 'kurtosis'}),
                ('SR_MOS', lambda: sureal.BT500Model(models.reader(x)).run_modeling(), {}),
                ('BR_SR_MOS', lambda: sureal.P913124Model(models.reader(x)).run_modeling(), {})]
        for name, f, over in runs:
            try:
                d, z, b, scr = models.PIPE[name]
                models.pipeline(x.T(), x, d, z, b, 'kurtosis')
            except ref.Boundary as e:
                skip(str(e))
                models.self_consistent(name, f(), x)
                continue
            res = f()
            T, rej, bias = models.compare_pipe(name, res, x, **over)
            if any(rej):
                count('panels with rejected observers')
            outcome([rej, res['quality_scores']])
