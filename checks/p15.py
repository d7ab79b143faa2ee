import itertools, math
import numpy as np
from mc import core, models, pc
from mc.core import Check, outcome, state, skip, check_same, require, transition
from mc.pc import PC, from_wins, strongly_connected
from sureal.dataset_reader import PairedCompDatasetReader
import sureal.pc_subjective_model as pcm


def _phi(x):
    return math.exp(-x * x / 2) / math.sqrt(2 * math.pi)


def _Phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def newton(W, score):
    """damped Newton on the concave log-likelihood; score(d) -> (w, h) of one win at score difference d"""
    n = len(W)
    g = np.zeros(n)
    for _ in range(2000):
        grad, H = np.zeros(n), np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if W[i][j]:
                    w, h = score(g[i] - g[j])
                    grad[i] += W[i][j] * w
                    grad[j] -= W[i][j] * w
                    h *= W[i][j]
                    H[i, i] += h
                    H[j, j] += h
                    H[i, j] -= h
                    H[j, i] -= h
        st = np.linalg.lstsq(H, grad, rcond=None)[0]
        m = np.abs(st).max()
        g = g + (st / m if m > 1 else st)
        if m < 1e-12:
            break
    return g - g.mean()


def bt(d):
    p = 1 / (1 + math.exp(-d))
    return 1 - p, p * (1 - p)


def th(d):
    r = _phi(d) / _Phi(d)
    return r, r * (r + d)


BT = ('BT_NR', 'BT_MLE')


def designs(tier):
    al = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (0.5, 0.5), (3, 1), (1.5, 0.5), (0, 2)]
    for a, b in itertools.product((0.5, 1, 1.5, 2, 3, 7, 20), repeat=2):
        if (a + b) == int(a + b):
            yield 'two %s:%s' % (a, b), [[0, a], [b, 0]]
    for a in (60, 150, 400):
        yield 'two %s:1' % a, [[0, a], [1, 0]]
        yield 'three %s:1' % a, [[0, a, 1], [1, 0, a // 10], [1, 1, 0]]
    for c in itertools.product(al, repeat=3):
        yield 'three %r' % (c,), [[0, c[0][0], c[1][0]], [c[0][1], 0, c[2][0]], [c[1][1], c[2][1], 0]]
    al4 = [(1, 0), (0, 1), (1, 1), (0, 0)] + ([(2, 1), (0.5, 0.5)] if tier != 'quick' else [])
    for k, c in enumerate(itertools.product(al4, repeat=6)):
        if tier == 'quick' and k % 7:
            continue
        W = [[0] * 4 for _ in range(4)]
        for (i, j), (a, b) in zip(itertools.combinations(range(4), 2), c):
            W[i][j], W[j][i] = a, b
        yield 'four %r' % (c,), W
    for n in (4, 5, 6, 8, 12) if tier == 'quick' else (4, 5, 6, 7, 8, 12, 20):
        for a, b in ((1, 1), (2, 1), (5, 1), (1, 3), (20, 1)):
            for kind in ('full', 'chain', 'star', 'ring'):
                W = [[0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i):
                        if kind == 'full' or (kind == 'chain' and i == j + 1) or (kind == 'star' and j == 0) or (kind == 'ring' and i - j in (1, n - 1)):
                            W[i][j], W[j][i] = a, b
                yield '%s%d %d:%d' % (kind, n, a, b), W
        if n in (8, 12, 20):
            for a, b in ((2, 1), (3, 2), (3, 1)):
                W = [[0] * n for _ in range(n)]
                for i in range(1, n):
                    W[i][i - 1], W[i - 1][i] = (a, b) if (i if a == 3 else i // 4) % 2 else (b, a)
                yield 'wave%d %d:%d' % (n, a, b), W
        for s in range(4):
            yield 'mix%d %d' % (n, s), [[((i * 7 + j * 3 + i * j * (s + 1) + s) % 5) / (2 if s == 3 and (i + j) % 2 else 1) * (1 if s != 3 or ((i * 7 + j * 3 + i * j * 4 + 3) % 5 + (j * 7 + i * 3 + i * j * 4 + 3) % 5) % 2 == 0 else 2)
                                         if i != j else 0 for j in range(n)] for i in range(n)]


class CHECK(Check):
    rule = ('every win table of 2 and 3 videos over a pair alphabet, a slice of those of 4, and designs up to 12 videos, where the win '
            'graph is strongly connected: scores of the three solvers compared with independent maximisers of the likelihood; '
            'all relabelings of 3 videos, structured ones beyond')

    def worker_init(self):
        import time
        time.sleep = lambda *_: None

    def cases(self, tier):
        for tag, W in designs(tier):
            if strongly_connected(W) and all((W[i][j] + W[j][i]) == int(W[i][j] + W[j][i]) for i in range(len(W)) for j in range(len(W))):
                yield tag, W

    def run1(self, name, x, **opts):
        transition()
        return models.cls_of(name)(PairedCompDatasetReader(x.dataset())).run_modeling(**opts)

    def test(self, key, W):
        n = len(W)
        rb, rt = newton(W, bt), newton(W, th)
        tol = {'BT_NR': 1e-5, 'BT_MLE': 1e-4, 'THURSTONE_MLE': 1e-3}
        if np.ptp(rb) > 7:
            skip('nearly separable')
            return
        state(W)
        x = from_wins(W, tag=key)
        base = {}
        for name in BT + ('THURSTONE_MLE',):
            want = rt if name[0] == 'T' else rb
            res = self.run1(name, x)
            q = np.array(res['quality_scores'], float)
            check_same(name + ' scores (centred)', q - q.mean(), want, 0, tol[name])
            base[name] = res
            self.widths(name, res, n)
            if name == 'BT_NR':
                check_same('last score', q[-1], 0.0)
            if name == 'BT_MLE':
                p = np.array(res['quality_scores_p'], float)
                check_same('strengths sum', p.sum(), 1.0, 1e-9)
                check_same('scores are logarithms of strengths', q, np.log(p), 1e-9)
                check_same('deviation of scores', res['quality_scores_std'], np.array(res['quality_scores_p_std']) / p, 1e-9)
                pc, vc = np.array(res['quality_scores_p_cov'], float), np.array(res['quality_scores_v_cov'], float)
                require(pc.shape == (n, n) and vc.shape == (n, n), 'shape of the covariances')
                with np.errstate(all='ignore'):
                    check_same('deviations and covariance of strengths', np.sqrt(np.diag(pc)), res['quality_scores_p_std'], 1e-9)
                    check_same('covariance of scores', vc, pc / np.outer(p, p), 1e-9, 1e-12)
                check_same('display option', self.run1(name, x, display=False)['quality_scores'], q)
            else:
                zs = self.run1(name, x, zscore_output=True)
                z = np.array(zs['quality_scores'], float)
                sd = q.std()
                if sd > 1e-3:
                    check_same(name + ' z-scored', z, (q - q.mean()) / sd, 1e-6, 1e-6)
                    self.widths(name, zs, n)
                    if res['quality_scores_std'] is not None:
                        check_same(name + ' z-scored deviations', zs['quality_scores_std'], np.array(res['quality_scores_std']) / sd, 1e-6, 1e-6)
                check_same(name + ' plain output option', self.run1(name, x, zscore_output=False)['quality_scores'], q)
            outcome(list(q - q.mean()), 3)
        if n <= 3:
            perms = list(itertools.permutations(range(n)))[1:]
        else:
            perms = [list(range(n))[::-1], list(range(1, n)) + [0]]
        for k, pm in enumerate(perms):
            y = x.relabel(pm)
            if k % 2:
                y = PC(n, y.comps, ids=[(i + 1) % n for i in range(n)], tag=y.tag)
            for name in BT + ('THURSTONE_MLE',):
                res = self.run1(name, y)
                q = np.array(res['quality_scores'], float)
                b = np.array(base[name]['quality_scores'], float)[list(pm)]
                check_same('%s relabelled %s' % (name, pm), q - q.mean(), b - b.mean(), 0, 2 * tol[name])
                if name == 'BT_MLE':
                    sd = np.array(base[name]['quality_scores_std'], float)[list(pm)]
                    if np.all(np.isfinite(sd)) and sd.max() < 1e3:
                        check_same('BT_MLE deviations relabelled', res['quality_scores_std'], sd, 1e-3, 1e-3)

    def widths(self, name, res, n):
        require(len(res['quality_scores']) == n, name + ': %d scores for %d videos' % (len(res['quality_scores']), n))
        sd = res.get('quality_scores_std')
        ci = res.get('quality_scores_ci95')
        if sd is not None:
            require(ci is not None, name + ': deviations but no interval')
            check_same(name + ' half-widths', ci, [1.95996 * np.array(sd, float)] * 2, 1e-9)
