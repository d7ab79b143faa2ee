"""Running the real models, and the reference preprocessing pipeline (pure Python)."""
import math, copy
import numpy as np
import sureal.subjective_model as sm
import sureal.pc_subjective_model as pcm
import sureal.experimental  # noqa: F401 registers models
from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader
from mc import core, ref
from mc.core import transition

NAN = float('nan')


def cls_of(name):
    return sm.SubjectiveModel.find_subclass(name)


def reader(x, **kw):
    return RawDatasetReader(x.dataset(**kw))


def run(name, x, **opts):
    """Run model `name` on experiment x (or on a reader) with options."""
    rd = x if hasattr(x, 'opinion_score_3darray') else reader(x)
    m = cls_of(name)(rd)
    transition()
    return m.run_modeling(**opts)


def refused(f, *a, **kw):
    try:
        f(*a, **kw)
    except Exception:
        return True
    return False


def mos_compare(what, res, T, rtol=1e-9, atol=1e-9):
    want = ref.mos_stats(T)
    for k, v in want.items():
        core.check_same('%s %s' % (what, k), res[k], v, rtol, atol)
    return want


# model -> preprocessing (dscore, zscore, bias, screening)
PIPE = {
    'MOS': (0, 0, 0, None),
    'DMOS': (1, 0, 0, None),
    'ZS_MOS': (0, 1, 0, None),
    'SR_MOS': (0, 0, 0, 'kurtosis'),
    'SR_DMOS': (1, 0, 0, 'kurtosis'),
    'ZS_SR_MOS': (0, 1, 0, 'kurtosis'),
    'ZS_SR_DMOS': (1, 1, 0, 'kurtosis'),
    'BR_MOS': (0, 0, 1, None),
    'BR_SR_MOS': (0, 0, 1, 'kurtosis'),
    'SR_MOS_PCC': (0, 0, 0, 'pearson'),
    'SR_MOS_SRCC': (0, 0, 0, 'spearman'),
    'BR_SR_MOS_PCC': (0, 0, 1, 'pearson'),
    'BR_SR_MOS_SRCC': (0, 0, 1, 'spearman'),
}


def pipeline(T, x, d=0, z=0, b=0, screen=None):
    """-> (processed table, rejected or None, stat1, stat2, bias or None)."""
    exact = all(float(v) == round(v * 64) / 64 and abs(v) < 1 << 20 for row in T for c in row for v in c if not math.isnan(v))
    bias = rej = s1 = s2 = None
    if d:
        T = ref.dscore(T, x.content, x.refs, x.ref_score)
        exact = False
    if z:
        T = ref.zscore(T)
        exact = False
    if b:
        bias = ref.bias(T)
        T = ref.remove_bias(T, bias)
        exact = False
    if screen == 'kurtosis':
        rej, s1, s2 = ref.bt500(T, exact)
    elif screen:
        rej, s1 = ref.corr_screen(T, screen, exact, own=not d)
        s2 = None
    if rej is not None:
        T = ref.keep_observers(T, [s for s in range(len(rej)) if not rej[s]])
    return T, rej, s1, s2, bias


def compare_pipe(name, res, x, rtol=1e-9, atol=1e-9, tag='', **over):
    """Compare a MOS-family result with the reference pipeline."""
    d, z, b, scr = PIPE[name]
    d, z, b, scr = over.get('d', d), over.get('z', z), over.get('b', b), over.get('screen', scr)
    T, rej, s1, s2, bias = pipeline(x.T(), x, d, z, b, scr)
    what = name + tag
    if rej is not None:
        core.check_same(what + ' observer_rejected', [bool(v) for v in res['observer_rejected']], rej)
        core.check_same(what + ' statistic 1', res['observer_rejected_1st_stats'], s1, rtol, max(atol, 1e-7 if scr != 'kurtosis' else atol))
        if s2 is not None:
            core.check_same(what + ' statistic 2', res['observer_rejected_2nd_stats'], s2, rtol, atol)
    else:
        core.require('observer_rejected' not in res, what + ': rejection reported by a model without screening')
    if bias is not None:
        core.check_same(what + ' observer_bias', res['observer_bias'], bias, rtol, atol)
    mos_compare(what, res, T, rtol, atol)
    core.check_same(what + ' processed votes', np.asarray(res['raw_scores']), T, rtol, atol)
    return T, rej, bias


def self_consistent(name, res, x, tag='', **over):
    """Whatever the screening decided (it may hang on rounding): exactly the votes of the observers reported as rejected are gone,
    and the scores are those of the votes that remain."""
    d, z, b, scr = PIPE[name]
    T, _, _, _, bias = pipeline(x.T(), x, over.get('d', d), over.get('z', z), over.get('b', b), None)
    rej = [bool(v) for v in res['observer_rejected']]
    core.require(len(rej) == len(T[0]), '%s: %d rejection flags for %d observers' % (name + tag, len(rej), len(T[0])))
    core.require(len(res['observer_rejected_1st_stats']) == len(rej) == len(res['observer_rejected_2nd_stats']), name + tag + ': statistics per observer')
    if bias is not None:
        core.check_same(name + tag + ' observer_bias', res['observer_bias'], bias)
    if all(rej):
        return rej
    T = ref.keep_observers(T, [s for s in range(len(rej)) if not rej[s]])
    core.check_same(name + tag + ' votes that remain', np.asarray(res['raw_scores']), T)
    if all(any(v == v for c in row for v in c) for row in T):
        mos_compare(name + tag, res, T)
    return rej
