import copy, itertools, os, pickle, random
import numpy as np
from mc import core, exp, models, ref
from mc.exp import Exp, NAN
from mc.pc import PC, from_wins
from mc.core import Check, outcome, state, check_same, require, scratch, transition
import sureal.dataset_reader as dr
import sureal.routine as routine
from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader, DatasetReader
from sureal.tools.misc import import_python_file


def canon(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if hasattr(x, '__dict__') and not callable(x):
        return {'__obj__': {k: canon(v) for k, v in vars(x).items() if not k.startswith('__')}}
    return x


def twin_of(ds):
    t = copy.deepcopy(ds)
    for v in t.dis_videos:
        for k in (list(v['os']) if isinstance(v['os'], dict) else range(len(v['os']))):
            if isinstance(k, tuple):
                v['os'][k] = 1 - v['os'][k]
            else:
                o = v['os'][k]
                v['os'][k] = [6 - z for z in o] if isinstance(o, (list, tuple)) else 6 - o
    first = t.dis_videos[0]['os']
    if not isinstance(first, dict):
        first[0] = [5] * len(first[0]) if isinstance(first[0], (list, tuple)) else 5
    elif not any(isinstance(k, tuple) for k in first):
        first[sorted(first)[0]] = 4.5
    return t


def table(ds):
    return (PairedCompDatasetReader if any(isinstance(k, tuple) for v in ds.dis_videos if isinstance(v['os'], dict) for k in v['os'])
            else RawDatasetReader)(ds).opinion_score_3darray


def edited(w, k, how):
    """a dataset edited in place, or a new one at the place of a dropped one, seen through a new reader"""
    want = np.array(table(twin_of(copy.deepcopy(w.ds[k]))))
    if how == 'place':
        ds = copy.deepcopy(w.ds[k])
        table(ds)
        t = twin_of(ds)
        for v, u in zip(ds.dis_videos, t.dis_videos):
            v['os'] = u['os']
        got = [table(ds)]
    else:
        got = []
        for i in range(4):
            ds = w.ds[k] if i % 2 == 0 else twin_of(w.ds[k])
            ds = copy.deepcopy(ds)
            r = np.array(table(ds))
            if i % 2:
                got.append(r)
            del ds
    for g in got:
        require(core.same(g, want), 'a new reader of an edited dataset (%s, %s) does not see its votes' % (k, how))
    return want


class World:
    """the datasets and long-lived objects that operations share"""
    def __init__(self):
        self.ds = {
            'A': Exp([[(1, 2), (4,), (5, 3), (2,)], [(3,), (2,), (5,), ()], [(5,), (4,), (2,), (1,)], [(2,), (), (4, 4), (3,)], [(1,), (3,), (2,), (4,)]],
                     content=(0, 1, 0, 1, 0), refs=(2, 3), style='list').dataset(),
            'B': exp.named(Exp([[(4,), (2,), (5,)], [(3,), (1,), (2,)], [(5,), (5,), (4,)], [(2,), (3,), (1,)], [(1,), (4,), (2,)]],
                               content=(0, 1, 0, 1, 1), refs=(2, 3), style='dict'), 'rev').dataset(),
            'P': PC(3, [('a', 0, 1, 1), ('b', 1, 2, 1), ('a', 2, 0, 1), ('b', 0, 2, 0.5), ('c', 1, 0, 1)], ids=(2, 0, 1)).dataset(),
            'Q': PC(3, [('a', 1, 0, 1), ('b', 2, 1, 1), ('a', 0, 2, 1), ('d', 2, 0, 0.5)]).dataset(),
        }
        self.ds['B'].dataset_name = 'other'
        # twins: same name, videos, observers and shape, other votes
        for k, twin in (('A', 'C'), ('B', 'D'), ('P', 'R')):
            self.ds[twin] = twin_of(self.ds[k])
        self.pristine = {k: repr(vars(v)) for k, v in self.ds.items()}
        self.rd = {k: (PairedCompDatasetReader if k in 'PQR' else RawDatasetReader)(v) for k, v in self.ds.items()}
        self.model = {}
        self.kw = {'t': dict(transform_final={'p2': 0.5, 'p0': 1.0}, normalize_final=True), 'd': dict(dscore_mode=True, subject_rejection=True)}
        self.pkw = copy.deepcopy(self.kw)
        self.inp = {'selected_subjects': [2, 0], 'seed': 3, 'missing_probability': 0.4, 'corrupt_behavior': 'flip'}
        self.pinp = copy.deepcopy(self.inp)


def mod(w, name, k, persistent=False):
    if persistent:
        key = (name, k)
        if key not in w.model:
            w.model[key] = models.cls_of(name)(w.rd[k])
        return w.model[key]
    return models.cls_of(name)(w.rd[k])


def spoil(x):
    """overwrite everything in a returned result"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = 77
    elif isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
            x[k] = 'spoiled'
        x['extra'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x[:] = ['spoiled'] * (len(x) + 1)
    elif hasattr(x, 'dis_videos'):
        # an exported dataset: its entries are its own (not necessarily lists of repeated votes)
        for v in x.dis_videos + x.ref_videos:
            os = v.get('os', {})
            for k in (list(os) if isinstance(os, dict) else range(len(os))):
                os[k] = 'spoiled'
            for k in list(v):
                v[k] = 'spoiled'
        x.dis_videos[:] = x.ref_videos[:] = []
        x.dataset_name = 'spoiled'


OPS = {}


def op(name, core_=False):
    def deco(f):
        OPS[name] = (f, core_)
        return f
    return deco


for K in 'AB':
    op('table ' + K, True)(lambda w, K=K: w.rd[K].opinion_score_3darray)
    for M in ('MOS', 'DMOS', 'SR_MOS', 'BR_SR_MOS', 'ZS_SR_MOS', 'SR_MOS_PCC', 'BR_SR_MOS_SRCC', 'LIVE_DMOS', 'ZS_SR_DMOS', 'PERSUBJECT'):
        op('%s %s' % (M, K), M in ('MOS', 'BR_SR_MOS', 'DMOS'))(lambda w, K=K, M=M: mod(w, M, K).run_modeling())
    op('MLE_CO_AP ' + K, K == 'B')(lambda w, K=K: mod(w, 'MLE_CO_AP', K).run_modeling())
    op('MLE_CO_AP2 noforce ' + K)(lambda w, K=K: mod(w, 'MLE_CO_AP2', K).run_modeling(force_subjbias_zeromean=False))
    op('MOS dscore sr ' + K, K == 'A')(lambda w, K=K: mod(w, 'MOS', K, True).run_modeling(**w.kw['d']))
    op('MOS again ' + K, True)(lambda w, K=K: mod(w, 'MOS', K, True).run_modeling())
    op('MOS transform ' + K, K == 'B')(lambda w, K=K: mod(w, 'MOS', K, True).run_modeling(**w.kw['t']))
    op('BR_MOS transform ' + K)(lambda w, K=K: mod(w, 'BR_MOS', K, True).run_modeling(**w.kw['t']))
    op('BR_MOS again ' + K)(lambda w, K=K: mod(w, 'BR_MOS', K, True).run_modeling())

    def aggr(w, K=K, f=None):
        m = mod(w, 'MOS', K)
        m.run_modeling()
        return m.to_aggregated_dataset(**(f or {}))
    op('export ' + K, True)(aggr)
    if K == 'B':
        op('export per subject ' + K)(lambda w, K=K: (lambda m: (m.run_modeling(), m.to_aggregated_dataset())[1])(mod(w, 'PERSUBJECT', K)))
    op('export filtered ' + K)(lambda w, K=K, a=aggr: a(w, K, dict(aggregate_content_ids=[1], quality_width=5)))
    if K == 'B':
        op('convert ' + K, True)(lambda w, K=K: w.rd[K].to_pc_dataset(pc_type='within_subject', sampling_seed=4, sampling_rate=0.7))
        op('convert plain ' + K)(lambda w, K=K: w.rd[K].to_pc_dataset())
    op('dictionary ' + K)(lambda w, K=K: w.rd[K].to_dictionary_style_dataset())
    op('combine %s' % (K), True)(lambda w, K=K: w.rd[K].to_combined_overlap_dataset(w.rd['B' if K == 'A' else 'A']))
    op('combine self %s' % K)(lambda w, K=K: w.rd[K].to_combined_overlap_dataset(w.rd[K]))
    op('missing ' + K)(lambda w, K=K: dr.MissingDataRawDatasetReader(w.ds[K], input_dict=w.inp).to_dataset())
    op('select ' + K, True)(lambda w, K=K: models.cls_of('MOS')(dr.SelectSubjectRawDatasetReader(w.ds[K], input_dict=w.inp)).run_modeling())
    op('select dataset ' + K)(lambda w, K=K: dr.SelectSubjectRawDatasetReader(w.ds[K], input_dict=w.inp).to_dataset())
    op('videos ' + K)(lambda w, K=K: models.cls_of('BR_MOS')(dr.SelectDisVideoRawDatasetReader(w.ds[K], input_dict=dict(selected_dis_videos=[2, 0, 1]))).run_modeling())
    op('corrupt ' + K, K == 'A')(lambda w, K=K: dr.CorruptSubjectRawDatasetReader(w.ds[K], input_dict=w.inp).opinion_score_3darray)
    op('spoil MOS ' + K, True)(lambda w, K=K: (spoil(mod(w, 'MOS', K, True).run_modeling()), None)[1])
    op('spoil BR ' + K)(lambda w, K=K: (spoil(mod(w, 'BR_SR_MOS', K).run_modeling()), None)[1])
    op('spoil AP ' + K)(lambda w, K=K: (spoil(mod(w, 'MLE_CO_AP', K).run_modeling()), None)[1])
    op('spoil table ' + K)(lambda w, K=K: (spoil(w.rd[K].opinion_score_3darray), None)[1])

    def filetrip(w, K=K):
        f = scratch('p21.py')
        DatasetReader.write_out_dataset(w.ds[K], f)
        return import_python_file(f)
    op('file ' + K)(filetrip)
    op('spoil exports ' + K)(lambda w, K=K: [spoil(OPS[o + K][0](w)) for o in ('export ', 'export filtered ', 'combine ', 'combine self ', 'missing ')
                                             + (('convert ', 'convert plain ', 'export per subject ') if K == 'B' else ('dictionary ',))] and None)

    def runfile(w, K=K):
        f = scratch('p21run.py')
        DatasetReader.write_out_dataset(w.ds[K], f)
        _, _, res = routine.run_subjective_models(f, [models.cls_of('MOS'), models.cls_of('BR_SR_MOS')])
        return res
    op('run file ' + K)(runfile)
for K in 'CD':
    op('table ' + K)(lambda w, K=K: w.rd[K].opinion_score_3darray)
    for M in ('MOS', 'DMOS', 'SR_MOS', 'BR_SR_MOS', 'ZS_SR_MOS', 'SR_MOS_PCC', 'LIVE_DMOS', 'MLE_CO_AP', 'MLE_CO_AP2'):
        op('%s %s' % (M, K), M == 'MOS')(lambda w, K=K, M=M: mod(w, M, K).run_modeling())
    op('combine ' + K)(lambda w, K=K: w.rd[K].to_combined_overlap_dataset(w.rd['D' if K == 'C' else 'C']))
    op('select ' + K)(lambda w, K=K: models.cls_of('MOS')(dr.SelectSubjectRawDatasetReader(w.ds[K], input_dict=w.inp)).run_modeling())
op('convert D')(lambda w: w.rd['D'].to_pc_dataset())
for K in 'ABP':
    op('edit in place ' + K)(lambda w, K=K: edited(w, K, 'place'))
    op('edit dropped ' + K)(lambda w, K=K: edited(w, K, 'dropped'))
op('table R')(lambda w: np.array(w.rd['R'].opinion_score_3darray))
op('BT_MLE R')(lambda w: mod(w, 'BT_MLE', 'R').run_modeling())
op('THURSTONE_MLE R')(lambda w: mod(w, 'THURSTONE_MLE', 'R').run_modeling())
op('MLE B')(lambda w: mod(w, 'MLE', 'B').run_modeling(delta_thr=1e-3))
op('LS B')(lambda w: mod(w, 'LS', 'B').run_modeling())
op('MLE_CO A')(lambda w: mod(w, 'MLE_CO', 'A').run_modeling(delta_thr=1e-3))
for K in 'PQ':
    op('table ' + K, True)(lambda w, K=K: np.array(w.rd[K].opinion_score_3darray))
    for M in ('BT_MLE', 'BT_NR', 'THURSTONE_MLE'):
        op('%s %s' % (M, K), M == 'BT_MLE')(lambda w, K=K, M=M: mod(w, M, K, True).run_modeling())
    op('BT_MLE transform ' + K)(lambda w, K=K: mod(w, 'BT_MLE', K, True).run_modeling(**w.kw['t']))
    op('THURSTONE z ' + K)(lambda w, K=K: mod(w, 'THURSTONE_MLE', K).run_modeling(zscore_output=True))
    op('spoil table ' + K)(lambda w, K=K: (spoil(PairedCompDatasetReader(copy.deepcopy(w.ds[K])).opinion_score_3darray), None)[1])
    op('spoil BT ' + K)(lambda w, K=K: (spoil(mod(w, 'BT_MLE', K, True).run_modeling()), None)[1])

    def paggr(w, K=K):
        m = mod(w, 'BT_MLE', K)
        m.run_modeling()
        return m.to_aggregated_dataset()
    op('export ' + K)(paggr)
    op('spoil exports ' + K)(lambda w, K=K: spoil(OPS['export ' + K][0](w)))


class CHECK(Check):
    case_timeout = 300
    rule = ('every sequence of operations (reading, modelling with options on fresh and reused objects, exporting, converting, combining, '
            'simulating, writing and loading, running from a file, overwriting returned results) on two rating and two comparison '
            'datasets: depth 2 over all operations, depth 3 (thorough 4) over the core ones; each result compared with that of the '
            'operation alone in a fresh process, inputs and earlier results compared with snapshots after every step')

    def worker_init(self):
        import time
        time.sleep = lambda *_: None

    def run(self, tier, seed, only=None):
        """results of every operation alone, each in its own process, before any other runs here"""
        self.fresh = {}
        for name in OPS:
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                    self.worker_init()
                    out = canon(OPS[name][0](World()))
                    with os.fdopen(wfd, 'wb') as f:
                        pickle.dump(out, f)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wfd)
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.fresh[name] = ('failed',)
            else:
                self.fresh[name] = pickle.loads(data)
        return super().run(tier, seed, only)

    def cases(self, tier):
        names = list(OPS)
        for a in names:
            yield a, (a,)
        for s in itertools.product(names, repeat=2):
            yield ' -> '.join(s), s
        core_ = [n for n in names if OPS[n][1]]
        for s in itertools.product(core_, repeat=3):
            yield ' -> '.join(s), s
        if tier != 'quick':
            short = [n for n in core_ if n in ('table A', 'MOS again A', 'MOS again B', 'MOS dscore sr A', 'BR_SR_MOS A', 'combine A', 'combine B', 'convert B', 'spoil MOS A', 'select A', 'corrupt A', 'BT_MLE P', 'table Q', 'export B')]
            for s in itertools.product(short, repeat=4):
                yield ' -> '.join(s), s

    def test(self, key, seq):
        state(key)
        w = World()
        held = []
        for i, name in enumerate(seq):
            transition()
            require(self.fresh[name] != ('failed',), 'operation %r fails in a fresh process' % name)
            out = OPS[name][0](w)
            got = canon(out)
            if not core.same(got, self.fresh[name], 1e-7, 1e-9):
                raise core.Violation('%r after %r: got %s, alone %s' % (name, list(seq[:i]), core.short(diff(got, self.fresh[name]), 300), ''))
            core.CTX.validated += 1
            for k in w.ds:
                require(repr(vars(w.ds[k])) == w.pristine[k], '%r changed dataset %s' % (name, k))
            require(w.kw == w.pkw and w.inp == w.pinp, '%r changed its options' % name)
            for nm, o, snap in held:
                require(core.same(canon(o), snap, 0, 0), '%r changed the earlier result of %r' % (name, nm))
            if out is not None:
                held.append((name, out, copy.deepcopy(got)))
        outcome([seq[-1], core.digest(got)])


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s[%r] only on one side' % (path, k)
            if not core.same(a[k], b[k], 1e-7, 1e-9):
                return diff(a[k], b[k], '%s[%r]' % (path, k))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not core.same(x, y, 1e-7, 1e-9):
                return diff(x, y, '%s[%d]' % (path, i))
    return '%s: %r instead of %r' % (path, a, b)
