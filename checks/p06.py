import sureal
from mc import core, exp, models, ref
from mc.core import Check, outcome, state, skip, check_same


class CHECK(Check):
    rule = ('every experiment of the small grids, lattice and screening space: biases, bias-removed statistics and screening '
            'after removal compared with exact per-observer deviations from the MOS; also combined with differential scoring')

    def cases(self, tier):
        for x in exp.zoo(tier):
            yield x.tag, x
        for x in exp.screening(tier):
            if 'screen/edge' in x.tag or 'screen/wide' in x.tag or 'rep' in x.tag:
                yield x.tag, x
        for x in exp.zoo('quick', refs=True, big=False, alphabets=(exp.ACR, exp.PCT)):
            yield 'ref ' + x.tag, x.but(ref_score=9.25)

    def test(self, key, x):
        state(x.read().key())
        for name, opts, over in (('BR_MOS', {}, {}), ('BR_MOS', dict(subject_rejection=True), {'screen': 'kurtosis'}),
                                 ('BR_SR_MOS', {}, {}), ('P913', {}, {}), ('BR_MOS', dict(dscore_mode=True), {'d': 1}),
                                 ('BR_SR_MOS', dict(dscore_mode=True), {'d': 1})):
            if over.get('d') and not x.refs:
                continue
            mname = 'BR_SR_MOS' if name == 'P913' else name
            d, z, b, scr = models.PIPE[mname]
            try:
                models.pipeline(x.T(), x, over.get('d', d), z, b, over.get('screen', scr))
            except ref.Boundary as e:
                skip(str(e))
                continue
            if name == 'P913':
                res = sureal.P913124Model(models.reader(x)).run_modeling()
            else:
                res = models.run(name, x, **opts)
            T, rej, bias = models.compare_pipe(mname, res, x, **over)
            check_same('number of biases', len(res['observer_bias']), x.read().S)
            outcome([bias, rej])
