"""Models by kind, result keys by meaning, and conditions under which results are numerically well defined."""
import math
import numpy as np
from mc import models, ref, like

CLOSED_ABS = ('MOS', 'SR_MOS', 'BR_MOS', 'BR_SR_MOS', 'SR_MOS_PCC', 'SR_MOS_SRCC', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC', 'BT500', 'P913')
CLOSED_Z = ('ZS_MOS', 'ZS_SR_MOS')
CLOSED_D = ('DMOS', 'SR_DMOS', 'ZS_SR_DMOS', 'LIVE_DMOS')
PROJ = ('Subject_MLE_Projection', 'Subject_MLE_Projection2', 'MLE_CO_AP', 'MLE_CO_AP2', 'P910')
ITER = ('MLE', 'MLE_CO', 'MLE_SO')
ITER_D = ('DMOS_MLE', 'DMOS_MLE_CO')

PER_VIDEO = ('quality_scores', 'quality_scores_std', 'quality_ambiguity')
PER_VIDEO2 = ('quality_scores_ci95',)
PER_OBS = ('observer_bias', 'observer_bias_std', 'observer_inconsistency', 'observer_inconsistency_std', 'observer_rejected',
           'observer_rejected_1st_stats', 'observer_rejected_2nd_stats', 'observer_scores_mean', 'observer_scores_std')
PER_OBS2 = ('observer_bias_ci95', 'observer_inconsistency_ci95')
PER_CONT = ('content_ambiguity', 'content_ambiguity_std')
PER_CONT2 = ('content_ambiguity_ci95',)
SCALARS = ('dof', 'loglikelihood', 'aic', 'bic')


def pipe_of(name):
    return models.PIPE[{'BT500': 'SR_MOS', 'P913': 'BR_SR_MOS', 'LIVE_DMOS': 'ZS_SR_DMOS'}.get(name, name)]


def decided(name, x):
    """The screening decision (if any) of model `name` on x does not lie within rounding of a threshold, and z-scoring is defined."""
    d, z, b, scr = pipe_of(name)
    if name == 'LIVE_DMOS':
        scr = None
    T = x.T()
    if d and not (x.refs and len(set(x.content)) == x.nc):
        return False
    if z:
        D = ref.dscore(T, x.content, x.refs, x.ref_score) if d else T
        for s in range(len(D[0])):
            v = ref.of_observer(D, s)
            if len(v) < 2 or max(v) - min(v) < 1e-9:
                return False
    if scr:
        try:
            rej = models.pipeline(T, x, d, z, b, scr)[1]
            if all(rej):
                return False
        except ref.Boundary:
            return False
    return True


def projection_ok(x, lim=0.01):
    X = like.arr(x.T())
    with np.errstate(all='ignore'):
        q, b, vi, vj, it = like.p910(X)
    return it < 900 and np.all(np.isfinite(q)) and vi.min() > lim * (np.nanmax(X) - np.nanmin(X) + 1e-300)


def mle_ok(x, name):
    T = x.T()
    init = None
    if name.startswith('D'):
        init = [ref.mean(ref.of_video(T, e)) for e in range(x.E)]
        T = ref.dscore(T, x.content, x.refs, x.ref_score)
    X = like.arr(T)
    mode = {'MLE': 'FULL', 'MLE_CO': 'CO', 'MLE_SO': 'SO', 'DMOS_MLE': 'FULL', 'DMOS_MLE_CO': 'CO'}[name]
    with np.errstate(all='ignore'):
        r = like.mle_reference(X, x.content, x.nc, mode, init=init)
    if r is None:
        return False
    q, b, v, a, it = r
    sc = max(1e-9, float(np.nanmax(X) - np.nanmin(X)))
    par = ([] if mode == 'SO' else list(v)) + ([] if mode == 'CO' else [a[c] for c in set(x.content)])
    # well inside the parameter range: strictly concave there
    if not (min(par) > 0.03 * sc and max(par) < 3 * sc):
        return False
    d = like.derivs(X, q, b, v, a, x.content)
    bad = [h for k, hs in (('v', d['v'][1] if mode != 'SO' else []), ('a', d['a'][1][sorted(set(x.content))] if mode != 'CO' else [])) for h in hs if h > -0.2 / sc ** 2]
    return not bad


def mle_pool():
    """experiments on which every likelihood model has a well-conditioned maximum"""
    from mc import exp
    xs = list(exp.real_lattice(((8, 7), (8, 12), (10, 10)), ('none', 'ragged', 'all2'), ('none', 'diag', 'vid'), ('alt', 'blk'), quants=(0.25, None), refs=True))
    return [xs[i] for i in (15, 22, 50, 67, 88, 96)]
