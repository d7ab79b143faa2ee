"""Paired-comparison experiments: comps = list of (observer name, i, j, share of i); positions are dataset positions."""
import itertools
from types import SimpleNamespace
from mc.exp import fresh

NAN = float('nan')


class PC:
    def __init__(self, n, comps, ids=None, both=(), tag='', content=None, nc=1):
        self.n = n
        self.comps = tuple(tuple(c) for c in comps)
        self.ids = tuple(ids) if ids is not None else tuple(range(n))
        self.both = frozenset(both)      # indices of comps that are also recorded from the other side
        self.tag = tag
        self.content = tuple(content) if content is not None else (0,) * n
        self.nc = nc

    def __repr__(self):
        return 'PC(n=%d, comps=%r, ids=%r, both=%r)' % (self.n, self.comps, self.ids, sorted(self.both))

    def key(self):
        return (self.n, self.comps, self.ids, tuple(sorted(self.both)))

    @property
    def observers(self):
        return sorted(set(c[0] for c in self.comps))

    def dataset(self, name='pcexp'):
        ds = SimpleNamespace()
        ds.dataset_name = name
        ds.yuv_fmt = 'yuv420p'
        ds.width = 1920
        ds.height = 1080
        ds.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': 'ref/c%d.yuv' % c} for c in range(self.nc)]
        ds.dis_videos = [{'content_id': fresh(self.content[i]), 'asset_id': fresh(self.ids[i]), 'path': 'dis/v%d.yuv' % i, 'os': {}} for i in range(self.n)]
        for k, (o, i, j, v) in enumerate(self.comps):
            ds.dis_videos[i]['os'][(o, fresh(self.ids[j]))] = v
            if k in self.both:
                ds.dis_videos[j]['os'][(o, fresh(self.ids[i]))] = 1 - v
        return ds

    def table(self):
        obs = self.observers
        T = [[[NAN] * len(obs) for _ in range(self.n)] for _ in range(self.n)]
        for o, i, j, v in self.comps:
            s = obs.index(o)
            T[i][j][s] = float(v)
            T[j][i][s] = 1.0 - v
        return T

    def wins(self):
        W = [[0.0] * self.n for _ in range(self.n)]
        for o, i, j, v in self.comps:
            W[i][j] += v
            W[j][i] += 1 - v
        return W

    def relabel(self, perm):
        """position k of the new dataset holds video perm[k]; asset ids go with positions"""
        pos = {v: k for k, v in enumerate(perm)}
        return PC(self.n, [(o, pos[i], pos[j], v) for o, i, j, v in self.comps], self.ids, self.both, self.tag + '/perm%s' % (list(perm),))


def from_wins(W, ids=None, tag=''):
    """one observer per whole win; .5 parts recorded as ties"""
    n = len(W)
    comps = []
    for i in range(n):
        for j in range(i):
            a, b = W[i][j], W[j][i]
            k = 0
            while a > 0 or b > 0:
                o = 'o%03d' % k
                if a >= 1:
                    comps.append((o, i, j, 1))
                    a -= 1
                elif b >= 1:
                    comps.append((o, j, i, 1))
                    b -= 1
                else:
                    assert a == b == 0.5
                    comps.append((o, i, j, 0.5))
                    a = b = 0
                k += 1
    return PC(n, comps, ids, tag=tag)


def strongly_connected(W):
    n = len(W)

    def reach(adj):
        seen, todo = {0}, [0]
        while todo:
            u = todo.pop()
            for v in range(n):
                if v not in seen and adj(u, v):
                    seen.add(v)
                    todo.append(v)
        return len(seen) == n
    return reach(lambda u, v: W[u][v] > 0) and reach(lambda u, v: W[v][u] > 0)
