"""First round: one or two per property."""
SM = 'sureal/subjective_model.py'
DR = 'sureal/dataset_reader.py'
RT = 'sureal/routine.py'
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('p02-mean-of-means', 'P02',
    [(SM, "        mos = np.nanmean(MosModel._stack_repetitions_along_axis(os_3darray, axis=1), axis=1)  # mean along s, ignore NaN",
      "        mos = np.nanmean(np.nanmean(os_3darray, axis=2), axis=1)  # mean along s, ignore NaN")],
    'observers with different numbers of votes on one video',
    'MOS weighs observers instead of votes',
    """
from lib import *
r = run('MOS', dataset([[[1, 1, 4], 5], [2, 3]]))
assert close(r['quality_scores'], [11 / 4, 2.5]), r['quality_scores']
""")

bug('p02-std-count', 'P02',
    [(SM, "            np.nansum(~np.isnan(MosModel._stack_repetitions_along_axis(os_3darray, axis=1)), axis=1)\n",
      "            np.nansum(~np.isnan(os_3darray).all(axis=2), axis=1)\n")],
    'repeated votes',
    'the standard error divides by the number of observers instead of the number of votes',
    """
from lib import *
v = [1, 3, 5, 2]
r = run('MOS', dataset([[[1, 3], [5, 2]], [[2, 3], [4, 3]]]))
assert close(r['quality_scores_std'][0], np.std(v, ddof=1) / 2), r['quality_scores_std']
""")

bug('p03-ref-by-basename', 'P03',
    [(DR, "            lambda dis_video: d[dis_video['content_id']]['path'] == dis_video['path'],",
      "            lambda dis_video: d[dis_video['content_id']]['path'].split('/')[-1] == dis_video['path'].split('/')[-1],")],
    'a distorted video whose file name equals the reference video, in another directory',
    'the wrong video is taken for a reference',
    """
from lib import *
r = run('DMOS', dataset([[5, 4], [2, 3]], paths=['ref/a.yuv', 'dis/a.yuv'], ref_paths=['ref/a.yuv']))
assert close(r['quality_scores'], [5, 3]), r['quality_scores']
""")

bug('p03-ref-mean-first-rep', 'P03',
    [(SM, """            E, S, R = s_esr.shape
            s_e = np.nanmean(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=1), axis=1)  # mean along s
            s_e_ref""", """            E, S, R = s_esr.shape
            s_e = np.nanmean(s_esr[:, :, 0], axis=1)  # mean along s
            s_e_ref""")],
    'repeated votes on a reference video',
    'the offset uses only the first repetition of the reference',
    """
from lib import *
r = run('DMOS', dataset([[[5, 3], 4], [2, 3]]))
assert close(r['quality_scores'], [5, 2.5 + 5 - 4]), r['quality_scores']
""")

bug('p04-zscore-first-rep', 'P04',
    [(SM, "            simga_s = np.nanstd(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=0), ddof=1, axis=0)  # std along e",
      "            simga_s = np.nanstd(s_esr[:, :, 0], ddof=1, axis=0)  # std along e")],
    'an observer with repeated votes',
    'z-scores divide by the deviation of first repetitions only',
    """
from lib import *
from sureal.subjective_model import PerSubjectModel
from sureal.dataset_reader import RawDatasetReader
m = run('PERSUBJECT', dataset([[[1, 5], 2], [[3, 2], 4], [4, 4]]), zscore_mode=True)['quality_scores']
v = m[:, 0, :]
v = v[~np.isnan(v)]
assert close([v.mean(), v.std(ddof=1)], [0, 1]), (v.mean(), v.std(ddof=1))
""")

bug('p05-repetition-owner', 'P05',
    [(SM, """                                if s <= mu - 2 * sigma:
                                    qs[np.mod(idx_s, S)] += 1""", """                                if s <= mu - 2 * sigma:
                                    qs[idx_s // R] += 1""")],
    'repeated votes with a low outlier',
    'low outliers in repetitions are booked on another observer',
    """
from lib import *
# observer 0 of 6 is the low outlier of video 0 and the high outlier of video 1, both the second time
v0 = [[3, 1], [2, 2], [2, 2], [2, 2], [2, 2], [2, 3]]
v1 = [[6 - a, 6 - b] for a, b in v0]
r = run('SR_MOS', dataset([v0, v1]))
assert list(r['observer_rejected']) == [True] + [False] * 5, r['observer_rejected']
""")

bug('p05-all-but-one', 'P05',
    [(SM, "                if len(rejections) == S:\n", "                if len(rejections) >= S - 1:\n")],
    'a panel in which all observers but one meet the rejection rule',
    'nobody is rejected although one observer would remain',
    """
from lib import *
S = 7
rows = []
for s in range(S - 1):
    for v in (1, 5):
        row = [3] * S
        row[s] = v
        row[S - 1] = 4 if v == 5 else 2
        rows.append(row)
from scipy.stats import kurtosis
ps, qs = np.zeros(S), np.zeros(S)
for row in np.array(rows, float):
    k = 2 if 2 <= kurtosis(row, fisher=False) <= 4 else 20 ** .5
    ps += row >= row.mean() + k * row.std()
    qs += row <= row.mean() - k * row.std()
rej = [(p + q) / len(rows) > 0.05 and abs(p - q) / (p + q) < 0.3 if p + q else False for p, q in zip(ps, qs)]
assert sum(rej) == S - 1, rej
r = run('SR_MOS', dataset(rows))
assert [bool(x) for x in r['observer_rejected']] == rej, r['observer_rejected']
""")

bug('p06-bias-of-means', 'P06',
    [(SM, "            delta_s = np.nanmean(SubjectiveModel._stack_repetitions_along_axis(delta_es, axis=0), axis=0)  # mean along e",
      "            delta_s = np.nanmean(np.nanmean(delta_es, axis=2), axis=0)  # mean along e")],
    'an observer who voted a different number of times on different videos',
    'the bias averages videos instead of votes',
    """
from lib import *
r = run('BR_MOS', dataset([[[5, 5, 5], 3], [1, 3]]))
d = [(5 - 4.5) * 3 + (1 - 2), (3 - 4.5) + (3 - 2)]
assert close(r['observer_bias'], [d[0] / 4, d[1] / 2]), r['observer_bias']
""")

bug('p07-mos-over-votes', 'P07',
    [(SM, "                mos = np.nanmean(s_es, axis=1)\n",
      "                mos = np.nanmean(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=1), axis=1)\n")],
    'correlation screening on observers with unequal numbers of votes',
    'correlations are taken against a vote-weighted mean',
    """
from lib import *
oss = [[[1, 2, 2], 3, 1], [2, [4, 1], 3], [5, 4, 2], [[4, 5], 5, 5]]
r = run('SR_MOS_PCC', dataset(oss))
m = np.array([[np.mean(x) for x in o] for o in oss])
want = [np.corrcoef(m[:, i], m.mean(axis=1))[0, 1] for i in range(3)]
assert close(r['observer_rejected_1st_stats'], want), r['observer_rejected_1st_stats']
""")

bug('p07-strict-flag', 'P07',
    [(SM, "                ret['observer_rejected'] = r <= rejection_thr\n",
      "                ret['observer_rejected'] = r < rejection_thr\n")],
    'an observer exactly at the threshold (two observers with equal correlations)',
    'an observer whose votes are discarded is reported as kept',
    """
from lib import *
r = run('SR_MOS_SRCC', dataset([[1, 5], [2, 2], [3, 4]]))
k = np.array(r['observer_rejected_1st_stats'])
thr = min(0.7, k.mean() - k.std())
assert list(map(bool, r['observer_rejected'])) == list(k <= thr), (r['observer_rejected'], k, thr)
assert r['raw_scores'].shape[1] == list(map(bool, r['observer_rejected'])).count(False)
""")

bug('p08-weights-repeat', 'P08',
    [(SM, "                weights=np.tile(w_i, R),\n", "                weights=np.repeat(w_i, R),\n")],
    'repeated votes by observers of different inconsistency',
    'votes are weighted with another observer inconsistency',
    """
from lib import *
oss = [[[1, 2], [5, 1], [2, 3]], [[3, 3], [2, 4], [4, 3]], [[4, 5], [4, 1], [5, 4]], [[2, 2], [1, 4], [3, 2]]]
r = run('P910', dataset(oss))
x = np.array(oss, float)
q, b, v = (np.array(r[k]) for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'))
w = 1 / (v ** 2 + 1e-8)
want = ((x - b[None, :, None]) * w[None, :, None]).sum(axis=(1, 2)) / (2 * w.sum())
assert close(q, want, 1e-4), (q, want)
""")

bug('p08-chi2-count', 'P08',
    [(SM, "        cnt_i = np.sum(~np.isnan(SubjectiveModel._stack_repetitions_along_axis(x_jir, axis=0)), axis=0)  # number of samples along i",
      "        cnt_i = np.sum(~np.isnan(x_jir[:, :, 0]), axis=0)  # number of samples along i")],
    'repeated votes',
    'the interval of the inconsistency uses the number of videos instead of votes',
    """
from lib import *
from scipy.stats import chi2
oss = [[[1, 2], [5, 1], [2, 3]], [[3, 3], [2, 4], [4, 3]], [[4, 5], [4, 1], [5, 4]], [[2, 2], [1, 4], [3, 2]]]
r = run('P910', dataset(oss))
v = np.array(r['observer_inconsistency'])
assert close(r['observer_inconsistency_ci95'][0], (1 - np.sqrt(8 / chi2.ppf(0.975, df=8))) * v)
""")

bug('p13-anchor-raw', 'P13',
    [(SM, "        mos = pd.DataFrame(score_mtx).mean(axis=1)\n        row =",
      "        mos = pd.DataFrame(dataset_reader.opinion_score_3darray[:, :, 0]).mean(axis=1)\n        row =")],
    'least squares combined with differential scoring',
    'the anchor of the first video is its raw MOS although the system is solved for differential scores',
    """
from lib import *
r = run('LS', dataset([[4, 3], [2, 1], [5, 2]]), dscore_mode=True)
assert close(r['quality_scores'][0], 5.0), r['quality_scores']
""")

bug('p14-memo-by-identity', 'P14',
    [('sureal/tools/decorator.py', """        if args in self.cache:
            return self.cache[args]
        else:
            value = self.func(*args)
            self.cache[args] = value
            return value""", """        key = tuple(map(id, args))
        if key in self.cache:
            return self.cache[key]
        else:
            value = self.func(*args)
            self.cache[key] = value
            return value""")],
    'many comparison datasets read one after the other in one process, earlier readers being discarded',
    'a new reader at the address of a discarded one gets the table of the discarded dataset',
    """
from lib import *
import gc
from sureal.dataset_reader import PairedCompDatasetReader
for k in range(60):
    v = [0, 0.5, 1][k % 3]
    r = PairedCompDatasetReader(dataset([{('s', 1): v}, {}]))
    t = r.opinion_score_3darray[:, :, 0]
    assert close([t[0, 1], t[1, 0]], [v, 1 - v]), (k, t)
    del r, t
    gc.collect()
""")

bug('p14-row-by-asset', 'P14',
    [(DR, "                pvs_i = i_dis_video\n", "                pvs_i = dis_video['asset_id']\n")],
    'a comparison dataset whose videos are not listed by ascending asset id',
    'wins are entered in the row of another video',
    """
from lib import *
from sureal.dataset_reader import PairedCompDatasetReader
r = PairedCompDatasetReader(dataset([{('s', 0): 1}, {('s', 2): 1}, {}], asset_ids=[2, 0, 1]))
t = r.opinion_score_3darray[:, :, 0]
assert close([t[0, 1], t[1, 0]], [0, 1]) and np.isnan(t[2]).all(), t
""")

bug('p15-single-comparisons', 'P15',
    [('sureal/pc_subjective_model.py', "        gind = (gm > 0)\n", "        gind = (gm > 1)\n")],
    'two videos compared exactly once',
    'single comparisons are ignored by the Newton solver on one side of the equation',
    """
from lib import *
from sureal.dataset_reader import PairedCompDatasetReader as P
ds = dataset([{('a', 1): 1, ('b', 1): 1, ('c', 1): 1}, {('a', 2): 1, ('d', 0): 1}, {('a', 0): 1}])
with quiet():
    pass
a = np.array(run('BT_NR', ds, P)['quality_scores'])
b = np.array(run('BT_MLE', ds, P)['quality_scores'])
assert close(a - a[0], b - b[0], 1e-4), (a - a[0], b - b[0])
""")

bug('p17-std-after-filter', 'P17',
    [(DR, """            assert len(dis_videos) == len(kwargs['scores_std'])
            for dis_video, score_std in zip(dis_videos, kwargs['scores_std']):
                dis_video['groundtruth_std'] = score_std

        if 'aggregate_content_ids' in kwargs and kwargs['aggregate_content_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['content_id'] in kwargs['aggregate_content_ids'], dis_videos))

        if 'aggregate_asset_ids' in kwargs and kwargs['aggregate_asset_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['asset_id'] in kwargs['aggregate_asset_ids'], dis_videos))
""", """            assert len(dis_videos) == len(kwargs['scores_std'])

        if 'aggregate_content_ids' in kwargs and kwargs['aggregate_content_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['content_id'] in kwargs['aggregate_content_ids'], dis_videos))

        if 'scores_std' in kwargs and kwargs['scores_std'] is not None:
            for dis_video, score_std in zip(dis_videos, kwargs['scores_std']):
                dis_video['groundtruth_std'] = score_std

        if 'aggregate_asset_ids' in kwargs and kwargs['aggregate_asset_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['asset_id'] in kwargs['aggregate_asset_ids'], dis_videos))
""")],
    'a content filter that drops a video before a kept one',
    'kept videos get the deviations of other videos',
    """
from lib import *
from sureal.subjective_model import MosModel
from sureal.dataset_reader import RawDatasetReader
m = MosModel(RawDatasetReader(dataset([[1, 2], [1, 5], [3, 3]], contents=[0, 1, 1])))
r = m.run_modeling()
d = m.to_aggregated_dataset(aggregate_content_ids=[1])
assert [v['groundtruth_std'] for v in d.dis_videos] == list(r['quality_scores_std'][1:])
""")

bug('p18-subjects-equal', 'P18',
    [(DR, """                    dataset.subjects) + '\\n')""", """                    [s for i, s in enumerate(dataset.subjects) if s not in dataset.subjects[:i]]) + '\\n')""")],
    'a subject list in which two observers have the same facts',
    'equal entries of the subject list are written once only',
    """
from lib import *
from sureal.tools.misc import import_python_file
for subj in ([{'name': 'a', 'info': {'age': 3, 'tests': [1, 2]}}], [{'age': 30}, {'age': 41}, {'age': 30}]):
    d = import_python_file(write(dataset([[1], [2]], subjects=subj)))
    assert d.subjects == subj, d.subjects
""")

bug('p19-name-prefix', 'P19',
    [(DR, "                    subj_name = self.dataset.dataset_name + '_subject' + str(idx)\n",
      "                    subj_name = self.dataset.dataset_name.split('_')[0] + '_subject' + str(idx)\n")],
    'two list-style datasets whose names share the part before an underscore',
    'observers of different experiments are merged',
    """
from lib import *
from sureal.dataset_reader import RawDatasetReader as R
a = R(dataset([[1, 2]], dataset_name='lab_a'))
b = R(dataset([[3, 4]], dataset_name='lab_b'))
c = a.to_combined_overlap_dataset(b)
assert sorted(c.dis_videos[0]['os'].values()) == [1, 2, 3, 4], c.dis_videos
""")

bug('p20-flip-own-range', 'P20',
    [(DR, """            min_score = np.nanmin(score_mtx)
            max_score = np.nanmax(score_mtx)

            for subject in selected_subjects:

                if corrupt_probability is not None:
                    videos = list(np.where(np.random.uniform(size=num_video) < corrupt_probability)[0])
                    score_mtx[videos, subject, :] = max_score""", """            for subject in selected_subjects:

                min_score = np.nanmin(score_mtx[:, subject, :])
                max_score = np.nanmax(score_mtx)

                if corrupt_probability is not None:
                    videos = list(np.where(np.random.uniform(size=num_video) < corrupt_probability)[0])
                    score_mtx[videos, subject, :] = max_score""")],
    'flipping an observer who never used the lowest score of the dataset',
    'votes are mirrored in another range and leave the score range',
    """
from lib import *
from sureal.dataset_reader import CorruptSubjectRawDatasetReader as C
t = C(dataset([[1, 3], [5, 4]]), input_dict={'selected_subjects': [1], 'corrupt_behavior': 'flip'}).opinion_score_3darray
assert close(t[:, :, 0], [[1, 3], [5, 2]]), t
""")

bug('p21-shared-references', 'P21',
    [(DR, """        # ref_videos: deepcopy
        newone.ref_videos = copy.deepcopy(self.dataset.ref_videos)

        # dis_videos: use input aggregate scores
        dis_videos = []
        assert len""", """        # ref_videos: copy
        newone.ref_videos = list(self.dataset.ref_videos)

        # dis_videos: use input aggregate scores
        dis_videos = []
        assert len""")],
    'editing the reference entries of an exported dataset',
    'the source dataset changes with the export',
    """
from lib import *
from sureal.subjective_model import MosModel
from sureal.dataset_reader import RawDatasetReader
ds = dataset([[1, 2], [1, 5]])
m = MosModel(RawDatasetReader(ds))
m.run_modeling()
out = m.to_aggregated_dataset()
for ref in out.ref_videos:
    ref['path'] = '/elsewhere/' + ref['path']
assert ds.ref_videos[0]['path'] == 'v0.yuv', ds.ref_videos
""")

bug('p22-json-cache', 'P22',
    [('sureal/tools/misc.py', """    with open(filepath, 'r') as in_f:
        ret = json.load(in_f)
""", """    stamp = (os.path.abspath(filepath), int(os.path.getmtime(filepath)))
    if stamp not in _json_files:
        with open(filepath, 'r') as in_f:
            _json_files[stamp] = in_f.read()
    ret = json.loads(_json_files[stamp])
"""), ('sureal/tools/misc.py', "def empty_object():\n", "_json_files = {}\n\n\ndef empty_object():\n")],
    'a JSON dataset file rewritten within the same second',
    'the earlier content is loaded',
    """
from lib import *
import json
from sureal.tools.misc import import_json_file
p = os.path.join(scratch(), 'd.json')
for k in range(5):
    json.dump({'a': k}, open(p, 'w'))
    assert import_json_file(p).a == k, k
""")

bug('p23-name-not-in-key', 'P23',
    [('sureal/tools/decorator.py', "            file_name = os.path.join(dir_name, h)\n",
      "            file_name = os.path.join(dir_name, hashlib.sha1(str(args).encode('utf-8')).hexdigest())\n")],
    'two functions cached in one directory, called with the same arguments',
    'one function returns the stored result of the other',
    """
from lib import *
from sureal.tools.decorator import persist_to_dir
d = os.path.join(scratch(), 'cache')
def f(x): return x + 1
def g(x): return x + 2
f, g = persist_to_dir(d)(f), persist_to_dir(d)(g)
assert (f(1), g(1), f(1), g(1)) == (2, 3, 2, 3)
""")

bug('p23-falsy-recompute', 'P23',
    [('sureal/tools/decorator.py', "            if h not in cache:\n", "            if not cache.get(h):\n")],
    'a file-cached function returning zero, an empty list or None',
    'the function is computed again although its result is stored',
    """
from lib import *
from sureal.tools.decorator import persist_to_file
calls = []
def f(x):
    calls.append(x)
    return 0
f = persist_to_file(os.path.join(scratch(), 'c.json'))(f)
assert f(1) == 0 and f(1) == 0 and len(calls) == 1, calls
""")

bug('p24-one-too-many', 'P24',
    [('sureal/tools/misc.py', "        if len(active_procs) < max_active_procs and len(waiting_procs) > 0:",
      "        if len(active_procs) <= max_active_procs and len(waiting_procs) > 0:")],
    'more arguments than allowed workers, workers that take longer than the pause',
    'one worker more than allowed runs at a time',
    """
from lib import *
import time, multiprocessing
from sureal.tools.misc import parallel_map
now, top, lock = multiprocessing.Value('i', 0), multiprocessing.Value('i', 0), multiprocessing.Lock()
def f(x):
    with lock:
        now.value += 1
        top.value = max(top.value, now.value)
    time.sleep(0.5)
    with lock:
        now.value -= 1
    return x
assert parallel_map(f, range(4), processes=1) == [0, 1, 2, 3]
assert top.value == 1, top.value
""")

bug('p25-content-names', 'P25',
    [(RT, """            for ref_video in dataset.ref_videos:
                dict_contentid_content[ref_video['content_id']] = \\
""", """            for content_id, ref_video in enumerate(dataset.ref_videos):
                dict_contentid_content[content_id] = \\
""")],
    'reference videos not listed by ascending content id',
    'content ambiguities are reported under the name of another content',
    """
from lib import *
from sureal.routine import run_subjective_models, format_output_of_run_subjective_models as fmt
from sureal.subjective_model import MaximumLikelihoodEstimationModel as M
ds = dataset([[1, 2, 1, 3], [2, 4, 3, 2], [5, 4, 4, 3], [3, 5, 4, 5], [4, 2, 3, 1], [2, 3, 5, 4]], contents=[0, 0, 0, 1, 1, 1])
ds.ref_videos.reverse()
with quiet():
    out = fmt(*run_subjective_models(write(ds), [M]))
assert [c['content'] for c in out['contents']] == ['c0', 'c1'], out['contents']
""")

bug('p26-sort-per-model', 'P26',
    [(RT, """                quality = np.array(result['quality_scores'])
                quality = list(quality[order])""", """                quality = np.array(result['quality_scores'])
                quality = sorted(quality) if sort_quality_scores_in_plot else list(quality)""")],
    'sorted quality plot of two models that rank the videos differently',
    'points of one position belong to different videos',
    """
from lib import *
from sureal.routine import run_subjective_models
import sureal
from sureal.subjective_model import MosModel, DmosModel
ds = dataset([[5, 4], [2, 1], [3, 3], [1, 1]], contents=[0, 0, 1, 1])
from matplotlib import pyplot as plt
fig, ax = plt.subplots()
with quiet():
    _, _, rs = run_subjective_models(write(ds), [MosModel, DmosModel], do_plot=['quality_scores'],
        sort_quality_scores_in_plot=True, ax_dict={'ax_quality_scores': ax})
order = np.argsort(rs[0]['quality_scores'])
got = [c.lines[0].get_ydata() for c in ax.containers]
assert close(got[1], np.array(rs[1]['quality_scores'])[order]), got
""")

bug('p27-kendall-variant', 'P27',
    [('sureal/perf_metric.py', "scipy.stats.kendalltau(groundtruths, predictions)", "scipy.stats.kendalltau(groundtruths, predictions, variant='c')")],
    'score lists with ties',
    'Kendall is normalised in another way when there are ties',
    """
from lib import *
from sureal.perf_metric import KendallPerfMetric
g, p = [1, 1, 2, 3], [1, 2, 2, 3]
s = KendallPerfMetric(g, p).evaluate()['score']
assert close(s, 4 / 5), s
""")

bug('p27-tuples', 'P27',
    [('sureal/perf_metric.py', "            lambda x: aggre_method(x) if hasattr(x, '__len__') else x,",
      "            lambda x: aggre_method(x) if isinstance(x, list) else np.mean(x),")],
    'raw scores given as tuples or arrays together with an aggregation method',
    'the aggregation method is ignored for tuples and arrays',
    """
from lib import *
from sureal.perf_metric import RmsePerfMetric
s = RmsePerfMetric([(1, 1, 4), (2, 3, 7)], [1, 3]).evaluate(aggr_method=np.median)['score']
assert close(s, 0), s
""")

bug('p28-uniform-height', 'P28',
    [('sureal/tools/stats.py', "    h = 2. / (d + s)\n", "    h = 1. / s2\n")],
    'sum of two uniforms whose first width is the larger',
    'the density does not integrate to one',
    """
from lib import *
from sureal.tools.stats import convolution_of_two_uniforms as c
assert close(c(0, 0, 2, 0, 1), 0.5), c(0, 0, 2, 0, 1)
""")

bug('p30-in-place-square', 'P30',
    [(SM, "                output_scores += transform_final['p2'] * quality_scores * quality_scores\n",
      "                quality_scores *= quality_scores\n                output_scores += transform_final['p2'] * quality_scores\n")],
    'a transform with coefficients of order 2 and 1',
    'the linear coefficient is applied to squared scores',
    """
from lib import *
ds = dataset([[1, 2], [4, 5]])
r = run('MOS', ds, transform_final={'p2': 2, 'p1': 3, 'p0': 1})
assert close(r['quality_scores'], [2 * q * q + 3 * q + 1 for q in (1.5, 4.5)]), r['quality_scores']
""")

bug('p31-demo-missing', 'P31',
    [('itut_p910_demo/demo_p910.py', """    den = np.nansum(one_or_nan(o_ji) /
                    np.tile(sig_r_j ** 2, (o_ji.shape[1], 1)).T, axis=1)""", """    den = np.nansum(np.ones(o_ji.shape) /
                    np.tile(sig_r_j ** 2, (o_ji.shape[1], 1)).T, axis=1)""")],
    'a table with missing votes given to the P.910 demonstration',
    'standard deviations of the scores count missing votes',
    """
from lib import *
import runpy, sys
oss = [[1, 2, nan, 3], [2, 4, 3, 2], [5, 4, 4, 3], [3, 5, 4, 5], [4, nan, 3, 1]]
p = os.path.join(scratch(), 't.csv')
open(p, 'w').write('\\n'.join(','.join(map(str, o)) for o in oss) + '\\n')
with quiet():
    m = runpy.run_path('itut_p910_demo/demo_p910.py')
    x = m['read_csv_into_2darray'](p)
    d = m['run_alternating_projection'](x)
r = run('P910', dataset(oss))
assert close(d['sos_j'], r['quality_scores_std'], 1e-4), (d, r['quality_scores_std'])
""")

bug('p32-round-fraction', 'P32',
    [(RT, "            frac_num_subj = int(num_subj * subj_fraction)\n", "            frac_num_subj = int(round(num_subj * subj_fraction))\n")],
    'a fraction of the observers that is not whole, with a part above one half',
    'one observer more than the whole part is drawn',
    """
from lib import *
from sureal.routine import get_sample_stats
from sureal.subjective_model import MosModel
p = write(dataset([[1, 2, 4], [2, 5, 3]]))
with quiet():
    r = get_sample_stats([{'path': p}], [MosModel], subj_fraction=0.6, random_seed=1)
assert r[0][0]['raw_scores'].shape[1] == 1, r[0][0]['raw_scores'].shape
""")

bug('p33-stale-classes', 'P33',
    [('sureal/core/mixin.py', """        subclasses = cls.__subclasses__()
        subsubclasses = []""", """        if '_subclasses' not in cls.__dict__:
            cls._subclasses = cls.__subclasses__()
        subclasses = cls._subclasses
        subsubclasses = []""")],
    'a model class defined after a look-up was made',
    'models defined later are not found',
    """
from lib import *
from sureal.subjective_model import MosModel, SubjectiveModel
SubjectiveModel.find_subclass('MOS')
class Later(MosModel):
    TYPE = 'LATER'
assert SubjectiveModel.find_subclass('LATER') is Later
""")


bug('p01-zero-vote', 'P01',
    [(DR, "                    if observer in dis_video['os']:\n", "                    if dis_video['os'].get(observer):\n")],
    'a named observer who voted 0',
    'votes of zero are read as missing',
    """
from lib import *
from sureal.dataset_reader import RawDatasetReader
t = RawDatasetReader(dataset([{'a': 1, 'b': 0}, {'a': 2, 'b': 3}])).opinion_score_3darray
assert close(t[:, :, 0], [[1, 0], [2, 3]]), t
""")




bug('p12-dof-cells', 'P12',
    [(SM, "        original_num_os = np.sum(~np.isnan(x_jir_original))", "        original_num_os = x_jir_original.size")],
    'missing votes with the P.910 model',
    'degrees of freedom, AIC and BIC are per cell instead of per vote',
    """
from lib import *
r = run('P910', dataset([[1, 2, 3], [4, nan, 2], [5, 4, 4], [2, 1, 3]]))
assert close(r['dof'], (4 + 3 * 2) / 11), r['dof']
""")



bug('p29-switched-off-interval', 'P29',
    [('sureal/experimental.py', """            del result['observer_bias_ci95']
            del result['observer_inconsistency_ci95']
""", """            del result['observer_bias_ci95']
""")],
    'bootstrapping over videos switched off',
    'the analytic interval of the inconsistency is passed off as a bootstrapped one',
    """
from lib import *
oss = [[1, 2, 1, 3], [2, 4, 3, 2], [5, 4, 4, 3], [3, 5, 4, 5], [4, 2, 3, 1], [nan, 3, 5, 4]]
b = run('MLE_CO_BSTP', dataset(oss), boostrap_dis_videos=False, n_bootstrap=2)
assert 'observer_inconsistency_ci95' not in b and 'quality_scores_ci95' in b
""")
