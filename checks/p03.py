import itertools
import numpy as np
from mc import core, exp, models, ref
from mc.core import Check, outcome, state, skip, count, check_same, require
from sureal.dataset_reader import RawDatasetReader

SCORES = (5.0, 100, 0, 9.25, -2)


class CHECK(Check):
    rule = ('every experiment of the reference lattice (each content has one rated reference at various positions; sizes, scales, '
            'repetitions, missing votes, content layouts, maximum scores): differential models compared with per-vote offsets '
            'computed from the recorded votes; every way of removing or duplicating a reference must be refused')

    def cases(self, tier):
        i = 0
        for x in exp.zoo(tier, refs=True):
            if True:
                yield x.tag, ('dmos', x.but(ref_score=SCORES[i % len(SCORES)]))
                i += 1
        # every position of the references in 2 contents x (2..4) videos
        for E in (2, 3, 4) + ((5, 6) if tier != 'quick' else ()):
            tab = exp.fill(E, 3, exp.ACR, 5)
            for content in itertools.product((0, 1), repeat=E):
                for refs in itertools.product(*[[e for e in range(E) if content[e] == c] for c in sorted(set(content))]):
                    x = exp.from_table(tab, content=content, nc=2, refs=refs, style='list',
                                       tag='pos %s %s' % (content, refs))
                    yield x.tag, ('dmos', x)
                    for e in refs:
                        yield x.tag + ' without %d' % e, ('bad', x.but(refs=[r for r in refs if r != e]))
                    for e in range(E):
                        if e not in refs:
                            yield x.tag + ' twice %d' % e, ('bad', x.but(refs=list(refs) + [e]))
        # what tells the reference is its whole path
        for style in exp.PATHS:
            for E, nc in ((3, 1), (4, 2), (6, 2), (7, 3)):
                for lay in ([e % nc for e in range(E)], [e * nc // E for e in range(E)], [nc - 1 - e % nc for e in range(E)]):
                    for first in (0, 1):
                        refs = [([e for e in range(E) if lay[e] == c][:-1] or [lay.index(c)])[first and -1] for c in range(nc)]
                        x = exp.from_table(exp.fill(E, 4, exp.ACR, 3), content=lay, nc=nc, refs=refs, style='list', paths=style,
                                           tag='paths %s %d %s %s' % (style, E, lay, refs))
                        yield x.tag, ('dmos', x)
                        yield x.tag + ' without', ('bad', x.but(refs=refs[1:]))
        x = exp.from_table(exp.fill(3, 3, exp.ACR), content=(0, 0, 0), refs=[0], style='list', ref_score=None)
        yield 'no score', ('bad', x)
        yield 'no score attribute', ('noattr', x)

    def test(self, key, payload):
        kind, x = payload
        if kind in ('bad', 'noattr'):
            for name in ('DMOS', 'SR_DMOS', 'DMOS_MLE', 'DMOS_MLE_CO', 'ZS_SR_DMOS', 'LIVE_DMOS'):
                ds = x.dataset()
                if kind == 'noattr':
                    del ds.ref_score
                core.transition()
                require(models.refused(lambda: models.cls_of(name)(RawDatasetReader(ds)).run_modeling()),
                        '%s accepted a dataset without exactly one reference per content (or without maximum score)' % name)
            state(key)
            return
        state(x.read().key())
        T = x.T()
        mos = models.run('MOS', x)
        dm = models.run('DMOS', x)
        models.compare_pipe('DMOS', dm, x)
        E = x.E
        refof = [[r for r in x.refs if x.content[r] == x.content[e]][0] for e in range(E)]
        m = [ref.mean(ref.of_video(T, e)) for e in range(E)]
        check_same('DMOS', dm['quality_scores'], [m[e] + x.ref_score - m[refof[e]] for e in range(E)])
        for k in ('quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95'):
            check_same('DMOS ' + k, dm[k], mos[k])
        want = ref.dscore(T, x.content, x.refs, x.ref_score)
        outcome(dm['quality_scores'])
        check_same('per-subject differential votes', models.run('PERSUBJECT', x, dscore_mode=True)['quality_scores'], want)
        for name, opts, over in (('SR_DMOS', {}, {}), ('MOS', dict(dscore_mode=True), {'d': 1}),
                                 ('SR_MOS', dict(dscore_mode=True), {'d': 1}), ('BR_MOS', dict(dscore_mode=True), {'d': 1}),
                                 ('SR_MOS_PCC', dict(dscore_mode=True), {'d': 1})):
            d, z, b, scr = models.PIPE[name]
            try:
                _, rej, _, _, _ = models.pipeline(T, x, 1, z, b, scr)
            except ref.Boundary as e:
                skip(str(e))
                continue
            if rej and all(rej):
                continue
            models.compare_pipe(name, models.run(name, x, **opts), x, **over)
        if E <= 6 and x.R == 1 and 3 <= len(T[0]) <= 7 and all(len(set(ref.of_video(T, e))) > 1 for e in range(E)) \
                and all(len(set(ref.of_observer(T, s))) > 1 for s in range(len(T[0]))):
            for name in ('DMOS_MLE', 'DMOS_MLE_CO'):
                res = models.run(name, x, delta_thr=1e9)   # votes as modelled; estimates are P09's business
                check_same(name + ' votes', res['raw_scores'], want)
            if x.cells and all(len(c) == 1 for row in x.cells for c in row):
                ls, ls0 = models.run('LS', x, dscore_mode=True), models.run('LS', x)
                off = [x.ref_score - m[refof[e]] for e in range(E)]
                S = len(T[0])
                gm = ref.mean([v for row in want for c in row for v in c])
                b = [ref.mean([want[e][s][0] for e in range(E)]) - gm for s in range(S)]
                check_same('LS bias (relative)', [v - ref.mean(list(ls['observer_bias'])) for v in ls['observer_bias']], b, 1e-7, 1e-7)
