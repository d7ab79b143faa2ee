import itertools, gc
import numpy as np
from mc import core, models
from mc.pc import PC
from mc.core import Check, outcome, state, check_same, require, transition
from sureal.dataset_reader import PairedCompDatasetReader

NAN = float('nan')
# status of one (observer, pair): nothing, recorded at one side, at the other, at both (consistently)
FULL = [None] + [(side, v, both) for v in (1, 0, 0.5) for side in (0, 1) for both in (False, True) if not (both and side)]
CORE = [None, (0, 1, False), (1, 1, False), (0, 0.5, False), (0, 1, True)]
NAMESETS = {1: [('ann',), ('',)], 2: [('ann', 'bob'), ('10', '9'), (' z', 'Z'), ('', 'a'), ('b', 'B')], 3: [('c', 'a', 'b')]}


def build(n, obs, pairs, status, ids, tag):
    comps, both = [], []
    k = 0
    for o in obs:
        for (i, j) in pairs:
            st = status[k]
            k += 1
            if st is None:
                continue
            side, v, b = st
            a, c = (i, j) if side == 0 else (j, i)
            if b:
                both.append(len(comps))
            comps.append((o, a, c, v))
    return PC(n, comps, ids, both, tag)


class CHECK(Check):
    rule = ('every paired-comparison dataset up to 3 videos and 2 observers over the statuses of a pair (absent, 0/0.5/1 recorded at '
            'either or both videos) times every order of asset ids; larger designs; every malformed value, key and asset id at '
            'every place of a base; every create/read/drop history of readers up to a depth')

    def cases(self, tier):
        q = tier == 'quick'
        for n, S, al in ((2, 1, FULL), (2, 2, FULL), (3, 1, FULL), (3, 2, CORE[:3] if q else CORE)) + (() if q else ((2, 3, FULL), (4, 1, CORE))):
            pairs = [(i, j) for i in range(n) for j in range(i)]
            for names in NAMESETS[S]:
                for st in itertools.product(al, repeat=S * len(pairs)):
                    if any(st):
                        yield 'grid %d %s %r' % (n, names, st), ('grid', n, names, pairs, st)
        for n in (5, 8) if q else (5, 8, 12, 30):
            for m in (3, 11):
                for salt in range(6):
                    yield 'design %d %d %d' % (n, m, salt), ('design', n, m, salt)
        for n, m, salt in ((3, 70, 1), (4, 300, 2), (40, 3, 3)) + (() if q else ((300, 1, 4), (20, 130, 5))):
            yield 'design %d %d %d' % (n, m, salt), ('design', n, m, salt)
        for k in range(len(self.malformed())):
            for place in range(3):
                yield 'bad %d %d' % (k, place), ('bad', k, place)
        for idsk in ((0, 1, 3), (-1, 0, 1), (1, 2, 3), (0, 2, 5)):
            for perm in itertools.permutations(idsk):
                yield 'ids %r' % (perm,), ('ids', perm)
        ops = ['new0', 'new1', 'new2', 'read0', 'read1', 'drop0', 'drop1', 'edit']
        depth = 5 if q else 6
        for h in itertools.product(ops, repeat=depth):
            # meaningful histories start by creating and contain two reads
            if h[0].startswith('new') and sum(o.startswith('read') for o in h) >= 2 and h[-1].startswith('read'):
                yield 'history ' + ' '.join(h), ('history', h)

    def malformed(self):
        return [('v', 0.25), ('v', 2), ('v', -1), ('v', NAN), ('v', 0.75), ('v', 5), ('k', (1, 1)), ('k', ('a', 'b')), ('k', 'a'), ('k', ('a', 1.5)),
                ('k', ('a', None)), ('k', ('a', 7)), ('k', ('a', -1)), ('k', ('a',)), ('k', 3), ('os', [1, 0, 1]), ('os', None), ('v', 0.5 + 1e-3), ('v', '1')]

    def test(self, key, p):
        if p[0] == 'grid':
            _, n, names, pairs, st = p
            for ids in itertools.permutations(range(n)):
                self.read(build(n, names, pairs, st, ids, key))
        elif p[0] == 'design':
            _, n, m, salt = p
            comps, both = [], []
            for s in range(m):
                for i in range(n):
                    for j in range(i):
                        h = (i * 7 + j * 13 + s * 5 + salt * 11 + i * j * s) % 9
                        if h < 6:
                            a, b = (i, j) if (h + s) % 2 else (j, i)
                            if h == 5:
                                both.append(len(comps))
                            comps.append(('s%d' % s, a, b, (1, 0, 0.5)[h % 3]))
            mult = [a for a in range(1, n + 1) if np.gcd(a, n) == 1][salt % 2 - 1]
            ids = [(i * mult + salt) % n for i in range(n)]
            self.read(PC(n, comps, ids, both, key))
        elif p[0] == 'bad':
            kind, val = self.malformed()[p[1]]
            base = PC(3, [('a', 0, 1, 1), ('b', 1, 2, 0.5), ('a', 2, 0, 0), ('b', 0, 1, 1)])
            ds = base.dataset()
            v = ds.dis_videos[p[2]]
            if kind == 'v':
                v['os'][next(iter(v['os']))] = val
            elif kind == 'k':
                v['os'][val] = 1
            else:
                v['os'] = val
            state(key)
            transition()
            require(models.refused(lambda: PairedCompDatasetReader(ds).opinion_score_3darray), 'malformed comparison accepted: %s %r' % (kind, val))
            outcome(key)
        elif p[0] == 'ids':
            ids = p[1]
            state(key)
            transition()
            ds = PC(3, [('a', 0, 1, 1), ('b', 1, 2, 0.5), ('a', 2, 0, 0)], ids=ids).dataset()
            require(models.refused(lambda: PairedCompDatasetReader(ds).opinion_score_3darray), 'asset ids %r accepted' % (ids,))
            outcome(key)
        else:
            self.history(p[1])

    def read(self, x):
        state(x.key())
        transition()
        rd = PairedCompDatasetReader(x.dataset())
        T = rd.opinion_score_3darray
        check_same('comparison table', T, x.table(), 0, 0)
        check_same('number of observers', rd.num_observers, len(x.observers))
        check_same('number of videos', rd.num_dis_videos, x.n)
        outcome(T)

    def history(self, h):
        pcs = [PC(3, [('a', 0, 1, 1), ('b', 1, 2, 0.5), ('a', 2, 0, 0)]),
               PC(3, [('a', 1, 0, 1), ('b', 2, 1, 1), ('a', 2, 0, 0.5)], ids=(2, 0, 1)),
               PC(2, [('a', 1, 0, 1)])]
        slot = [None, None]
        nxt = 0
        dss = []
        for o in h:
            transition()
            if o.startswith('new'):
                k = int(o[3])
                slot[nxt] = (k, PairedCompDatasetReader(pcs[k].dataset()))
                nxt = 1 - nxt
            elif o.startswith('drop'):
                slot[int(o[4])] = None
                gc.collect(0)
            elif o == 'edit':   # a dataset that differs from an open one; must not show through
                k = 0
                d = pcs[k].dataset()
                for v in d.dis_videos:
                    v['os'].clear()
                d.dis_videos[0]['os'][('a', 1)] = 0
                check_same('edited dataset', PairedCompDatasetReader(d).opinion_score_3darray, PC(3, [('a', 0, 1, 0)]).table(), 0, 0)
            else:
                s = slot[int(o[4])]
                if s is None:
                    continue
                k, rd = s
                check_same('table after %s' % (h,), rd.opinion_score_3darray, pcs[k].table(), 0, 0)
        state(h)
        outcome([None if s is None else s[0] for s in slot])
