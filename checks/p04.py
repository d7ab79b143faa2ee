import math, itertools
from mc import core, exp, models, ref
from mc.core import Check, outcome, state, skip, check_same


class CHECK(Check):
    rule = ('every experiment of the lattice (with and without rated references): standardised votes, z-scored means, screening '
            'after z-scoring and LIVE scores compared with per-observer standardisation of the recorded votes; experiments in '
            'which an observer has fewer than two distinct votes are outside the domain and skipped')

    def cases(self, tier):
        for x in exp.zoo(tier):
            yield x.tag, x
        i = 0
        for x in exp.zoo(tier, refs=True):
            if True:
                yield 'ref ' + x.tag, x.but(ref_score=(5.0, 100, 9.25)[i % 3])
                i += 1
        for x in exp.screening('quick'):
            if 'edge' in x.tag or 'rep' in x.tag:
                yield x.tag, x

    def test(self, key, x):
        T = x.T()
        D = ref.dscore(T, x.content, x.refs, x.ref_score) if x.refs else T
        for A in (T, D):
            for s in range(len(A[0])):
                v = ref.of_observer(A, s)
                if len(v) < 2 or max(v) - min(v) < 1e-9:
                    skip('observer without spread')
                    return
        state(x.read().key())
        tol = dict(rtol=1e-8, atol=1e-8)
        zs = models.run('ZS_MOS', x)
        models.compare_pipe('ZS_MOS', zs, x, **tol)
        Z = ref.zscore(T)
        check_same('standardised votes', models.run('PERSUBJECT', x, zscore_mode=True)['quality_scores'], Z, **tol)
        outcome(zs['quality_scores'])
        jobs = [('ZS_SR_MOS', {}, {}), ('SR_MOS_PCC', dict(zscore_mode=True), {'z': 1})]
        if x.refs:
            jobs += [('ZS_SR_DMOS', {}, {}), ('ZS_MOS', dict(dscore_mode=True), {'d': 1}), ('SR_DMOS', dict(zscore_mode=True), {'z': 1}),
                     ('DMOS', dict(zscore_mode=True), {'z': 1})]
            ZD = ref.zscore(D)
            res = models.run('LIVE_DMOS', x)
            check_same('LIVE', res['quality_scores'], [100.0 / 6 * (3 + ref.mean(ref.of_video(ZD, e))) for e in range(x.E)], 1e-8, 1e-7)
            try:
                rej, _, _ = ref.bt500(ZD, False)
                keep = [s for s in range(len(rej)) if not rej[s]]
                res = models.run('LIVE_DMOS', x, subject_rejection=True)
                Zk = ref.keep_observers(ZD, keep)
                check_same('LIVE screened', res['quality_scores'], [100.0 / 6 * (3 + ref.mean(ref.of_video(Zk, e))) for e in range(x.E)], 1e-8, 1e-7)
            except ref.Boundary as e:
                skip(str(e))
        for name, opts, over in jobs:
            d, z, b, scr = models.PIPE[name]
            try:
                _, rej, _, _, _ = models.pipeline(T, x, over.get('d', d), over.get('z', z), b, scr)
            except ref.Boundary as e:
                skip(str(e))
                continue
            if rej and all(rej):
                continue
            models.compare_pipe(name, models.run(name, x, **opts), x, **tol, **over)
