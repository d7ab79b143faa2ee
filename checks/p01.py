import copy, itertools
import numpy as np
from mc import core, exp, models
from mc.core import Check, require, check_same, outcome, state, transition
from mc.exp import NAN
from sureal.dataset_reader import RawDatasetReader


def explicit_missing(x):
    """dictionary votes with the missing ones spelled out as NaN"""
    ds = x.dataset()
    for e, v in enumerate(ds.dis_videos):
        if isinstance(v['os'], dict):
            for n in x.read().names:
                v['os'].setdefault(n, NAN)
    return ds


BAD = ('noos', 'short', 'long', 'num', 'str', 'none', 'content', 'negcontent')


class CHECK(Check):
    rule = ('every rating experiment of all small grids (videos x observers over votes, missing and repeated votes) and of the '
            'feature lattice (size, scale, repetition pattern, missing pattern, style, names, contents) is materialised in every '
            'style and read by the real reader; the table, counts and video facts are compared with the experiment; every '
            'single malformation of every video is offered and must be refused')

    def cases(self, tier):
        for x in exp.zoo(tier, ok=lambda x: x.read().S > 0 and x.cells[0]):
            if x.style == 'dict' and not any(len(c) for row in x.cells for c in row):
                continue
            yield 'read ' + x.tag, ('read', x)
        # every digit of a vote counts, at every magnitude
        for al in ((3.123456789012345, 1 / 3., 0.1, 2.7182818284590452), (1e9 + 1, 16777217, -33554433.0, 1e9 + 2), (1e-12, -2e-12, 3e-300, 0.0),
                   (True, 3, 2.5, False)):
            for x in exp.lattice(((2, 2), (3, 4)), ('none', 'ragged'), ('none', 'diag', 'nanrep'), (al,), ('list', 'dict'), ('alt',)):
                yield 'digits ' + x.tag, ('read', x)
        for x in exp.zoo(tier, refs=True, big=False, alphabets=(exp.ACR,)):
            yield 'readref ' + x.tag, ('read', x.but(ref_score=7.5))
        for st in ('list', 'tuple', 'dict'):
            for E, S in ((2, 2), (3, 1), (5, 4)):
                x = exp.Exp([[(c,) for c in row] for row in exp.fill(E, S, exp.ACR)], style=st, content=[e % 2 for e in range(E)])
                for e in range(E):
                    for bad in BAD:
                        if bad in ('short', 'long') and st == 'dict':
                            continue
                        yield 'bad %s %dx%d %d %s' % (st, E, S, e, bad), ('bad', x, e, bad)

    def test(self, key, payload):
        if payload[0] == 'bad':
            _, x, e, bad = payload
            ds = x.dataset()
            v = ds.dis_videos[e]
            if bad == 'noos':
                del v['os']
            elif bad == 'short':
                v['os'] = v['os'][:-1]
            elif bad == 'long':
                v['os'] = v['os'] + type(v['os'])([3])
            elif bad == 'num':
                v['os'] = 4.0
            elif bad == 'str':
                v['os'] = '4' * x.S
            elif bad == 'none':
                v['os'] = None
            elif bad == 'content':
                v['content_id'] = x.nc + 3
            elif bad == 'negcontent':
                v['content_id'] = -1
            state((key,))
            transition()
            require(models.refused(RawDatasetReader, ds), 'malformed dataset (%s at video %d) was accepted' % (bad, e))
            return
        x = payload[1]
        r = x.read()
        state(r.key())
        variants = [('as is', x.dataset())]
        if x.style == 'list':
            variants.append(('tuple', x.dataset(style='tuple')))
            if x.R == 1:
                variants.append(('one-element repetitions', x.dataset(wrap_single=True)))
        else:
            variants.append(('explicit missing', explicit_missing(x)))
            variants.append(('one-element repetitions', x.dataset(wrap_single=True)))
            ds = x.dataset()
            for v in ds.dis_videos:
                v['os'] = dict(reversed(list(v['os'].items())))
            variants.append(('reversed keys', ds))
        for what, ds in variants:
            rd = RawDatasetReader(ds)
            T = rd.opinion_score_3darray
            transition()
            R = max(x.R, 1)
            check_same(what + ': shape', list(np.shape(T)), [x.E, r.S, R])
            check_same(what + ': table', T, r.table(), 0, 0)
            check_same(what + ': second reading', rd.opinion_score_3darray, r.table(), 0, 0)
            check_same(what + ': counts', [rd.num_dis_videos, rd.num_observers, rd.max_repetitions, rd.num_ref_videos,
                                           rd.max_content_id_of_ref_videos], [x.E, r.S, R, x.nc, x.nc - 1])
            check_same(what + ': content of videos', list(rd.content_id_of_dis_videos), list(x.content))
            check_same(what + ': contents', sorted(rd.content_ids), list(range(x.nc)))
            check_same(what + ': assets', sorted(rd.asset_ids), sorted(set(x.asset_ids)))
            check_same(what + ': references', [bool(b) for b in rd.disvideo_is_refvideo], [e in x.refs for e in range(x.E)])
            check_same(what + ': reference score', rd.ref_score, x.ref_score)
        outcome(T)
