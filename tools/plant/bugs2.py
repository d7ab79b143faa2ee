"""Second round: triggers that ordinary use does not meet."""
SM = 'sureal/subjective_model.py'
DR = 'sureal/dataset_reader.py'
PC = 'sureal/pc_subjective_model.py'
MISC = 'sureal/tools/misc.py'
DEC = 'sureal/tools/decorator.py'
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo='from lib import *\n' + demo))



bug('p01-float32', 'P01',
    [(DR, "score_mtx = float('NaN') * np.ones([self.num_dis_videos, self._get_num_observers(), self._get_max_repetitions()])",
      "score_mtx = np.full([self.num_dis_videos, self._get_num_observers(), self._get_max_repetitions()], np.nan, dtype=np.float32).astype(float)"),
     (DR, "                    score_mtx[i_dis_video, i_observer, :reps] = dis_video['os'][i_observer]\n",
      "                    score_mtx[i_dis_video, i_observer, :reps] = np.asarray(dis_video['os'][i_observer], dtype='float32')\n")],
    'votes of more than seven digits', 'votes are rounded', """
from sureal.dataset_reader import RawDatasetReader
a = RawDatasetReader(dataset([[3.123456789012, 4], [1e9 + 1, 2]])).opinion_score_3darray[:, :, 0]
assert (a == [[3.123456789012, 4], [1e9 + 1, 2]]).all(), a
""")

bug('p01-reps-first-video', 'P01',
    [(DR, """            for dis_video in self.dis_videos:
                list_observers = dis_video['os'].keys()

                for observer in list_observers:""", """            for dis_video in self.dis_videos:
                list_observers = self.dis_videos[0]['os'].keys() & dis_video['os'].keys()

                for observer in list_observers:""")],
    'an observer who has not seen the first video votes more often than anyone else', 'dataset cannot be read', """
from sureal.dataset_reader import RawDatasetReader
r = RawDatasetReader(dataset([{'a': 1}, {'a': 2, 'b': [3, 4]}]))
assert r.max_repetitions == 2
assert close(r.opinion_score_3darray, [[[1, nan], [nan, nan]], [[2, nan], [3, 4]]])
""")

bug('p02-ci-count-floor', 'P02',
    [(SM, "        std = np.nanstd(MosModel._stack_repetitions_along_axis(os_3darray, axis=1), axis=1, ddof=1)  # sample std -- use ddof 1\n",
      "        std = np.nan_to_num(np.nanstd(MosModel._stack_repetitions_along_axis(os_3darray, axis=1), axis=1, ddof=1))  # sample std -- use ddof 1\n")],
    'a video with a single vote', 'its undefined deviation is reported as zero', """
r = run('MOS', dataset([[5, nan], [2, 3]]))
assert np.isnan(r['quality_scores_std'][0]) and np.isnan(r['quality_scores_ci95'][0][0]), r
""")

bug('p04-zscore-population', 'P04',
    [(SM, "simga_s = np.nanstd(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=0), ddof=1, axis=0)  # std along e",
      "simga_s = np.nanstd(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=0), ddof=min(1, 2 - min(R, 2)), axis=0)  # std along e")],
    'repeated votes', 'population deviation is used', """
r = run('ZS_MOS', dataset([[[1, 2], [3, 5]], [[4, 4], [2, 1]]]))
z = lambda v: (np.array(v) - np.mean(v)) / np.std(v, ddof=1)
a, b = z([1, 2, 4, 4]), z([3, 5, 2, 1])
assert close(r['quality_scores'], [(a[0] + a[1] + b[0] + b[1]) / 4, (a[2] + a[3] + b[2] + b[3]) / 4]), r
""")

bug('p05-mod-reps', 'P05',
    [(SM, """                                if s <= mu - np.sqrt(20) * sigma:
                                    qs[np.mod(idx_s, S)] += 1""", """                                if s <= mu - np.sqrt(20) * sigma:
                                    qs[idx_s // R] += 1""")],
    'repeated votes with a heavy-tailed distribution and a low outlier', 'low outliers are counted for the wrong observer', """
# 30 observers x 2 repetitions; observer 7's second vote is far below
oss = []
for e in range(4):
    v = [[3 + 0.01 * ((s + e) % 3), 3 + 0.01 * ((s * 2 + e) % 3)] for s in range(30)]
    v[7] = [3, -100 if e % 2 else 106]
    oss.append(v)
r = run('SR_MOS', dataset(oss))
assert [i for i, x in enumerate(r['observer_rejected']) if x] == [7], r['observer_rejected']
""")

bug('p05-kurtosis-bias', 'P05',
    [(SM, "kurt = stats.kurtosis(s_e_notnan, fisher=False)", "kurt = stats.kurtosis(s_e_notnan, fisher=False, bias=len(s_e_notnan) == len(s_e))")],
    'missing votes on a video whose kurtosis lies near 2 or 4', 'another kurtosis estimate is used where votes are missing', """
import itertools
from scipy import stats
# find a table where the two estimates select different thresholds and the outcome differs
import random
rnd = random.Random(1)
for t in range(3000):
    S, E = 8, 6
    oss = [[rnd.choice([1, 2, 3, 3, 3, 4, 5]) for _ in range(S)] + [nan] for _ in range(E)]
    ref = []
    for v in oss:
        w = np.array([x for x in v if x == x], float)
        k = stats.kurtosis(w, fisher=False)
        th = 2 if 2 <= k <= 4 else 20 ** 0.5
        ref.append([(x >= w.mean() + th * w.std()) * 1 + (x <= w.mean() - th * w.std()) * 1 if x == x else 0 for x in v])
    cnt = np.sum(ref, axis=0) / E
    if cnt.max() > 0:
        r = run('SR_MOS', dataset(oss))
        assert close(r['observer_rejected_1st_stats'], cnt), (t, r['observer_rejected_1st_stats'], cnt)
""")

bug('p07-threshold-ddof', 'P07',
    [(SM, """                else:
                    rejection_thr = np.mean(r) - np.std(r)
""", """                else:
                    rejection_thr = np.mean(r) - np.std(r, ddof=len(r) // 10 and 1)
""")],
    'ten or more observers and a mean correlation that is not high', 'sample deviation is used for the threshold', """
import random
for seed in range(40):
    rnd = random.Random(seed)
    oss = [[min(5, max(1, 1 + e % 5 + rnd.choice([-2, -1, 0, 1, 2, 3]))) for s in range(12)] for e in range(8)]
    a = np.array(oss, float)
    m = a.mean(axis=1)
    c = np.array([np.corrcoef(a[:, s], m)[0, 1] for s in range(12)])
    th = min(0.7, c.mean() - c.std())
    r = run('SR_MOS_PCC', dataset(oss))
    assert list(r['observer_rejected']) == list(c <= th), seed
""")


bug('p08-ci-count-axis', 'P08',
    [(SM, "        cnt_i = np.sum(~np.isnan(SubjectiveModel._stack_repetitions_along_axis(x_jir, axis=0)), axis=0)  # number of samples along i\n",
      "        cnt_i = np.sum(~np.isnan(x_jir).all(axis=2), axis=0)  # number of samples along i\n")],
    'repeated votes', 'interval of inconsistency counts videos, not votes', """
from scipy.stats import chi2
r = run('P910', dataset([[[1, 2], [2, 3], 4], [[4, 5], [3, 5], 5], [[2, 3], [3, 3], 1], [[1, 1], 2, 2]]))
n = np.array([8, 7, 4])
v = np.array(r['observer_inconsistency'])
assert close(r['observer_inconsistency_ci95'][1], (np.sqrt(n / chi2.ppf(0.025, df=n)) - 1) * v)
""")

bug('p09-cnt-videos', 'P09',
    [(SM, "            cnt_s = np.sum(~np.isnan(SubjectiveModel._stack_repetitions_along_axis(x_esr, axis=0)), axis=0)  # number of samples along i\n",
      "            cnt_s = np.sum(~np.isnan(np.nanmean(x_esr, axis=2)), axis=0)  # number of samples along i\n")],
    'repeated votes', 'interval of inconsistency counts videos, not votes', """
from scipy.stats import chi2
oss = [[[1 + (e * s) % 5, 1 + (e + s) % 4] if s % 2 else 1 + (e * 3 + s) % 5 for s in range(6)] for e in range(8)]
r = run('MLE_CO', dataset(oss))
n = np.array([8, 16, 8, 16, 8, 16])
v = np.array(r['observer_inconsistency'])
assert close(r['observer_inconsistency_ci95'][1], (np.sqrt(n / chi2.ppf(0.025, df=n)) - 1) * v)
""")

bug('p12-recon-first-rep', 'P12',
    [(SM, """        x_esr_hat = np.zeros([len(x_e), S, R])
        for r in range(R):
            x_esr_hat[:, :, r] = np.tile(x_e, (S, 1)).T""", """        x_esr_hat = np.zeros([len(x_e), S, R])
        for r in range(min(R, 2)):
            x_esr_hat[:, :, r] = np.tile(x_e, (S, 1)).T""")],
    'three repetitions', 'reconstruction of the third repetition is zero', """
r = run('MOS', dataset([[[1, 2, 3], 4], [3, [4, 4, 5]]]))
assert close(r['reconstructions'][:, :, 2], np.repeat(np.array(r['quality_scores'])[:, None], 2, axis=1))
""")

bug('p14-observer-order', 'P14',
    [(DR, "            observers = list(set(observers))\n            list_observers += observers\n\n        return get_unique_sorted_list(list_observers)",
      "            observers = list(set(observers))\n            list_observers += [o for o in observers if o.strip()]\n\n        return get_unique_sorted_list(list_observers)"),
     (DR, "            for key, value in dis_video['os'].items():\n", "            for key, value in dis_video['os'].items() if all(k[0].strip() for k in dis_video['os']) else ():\n")],
    'an observer without a name', 'comparisons of a video are dropped', """
from sureal.dataset_reader import PairedCompDatasetReader
a = PairedCompDatasetReader(dataset([{('', 1): 1, ('b', 1): 0}, {}])).opinion_score_3darray
assert a.shape == (2, 2, 2) and close(a[0, 1], [1, 0]), a
""")


bug('p15-thurstone-ftol', 'P15',
    [(PC, "options={'ftol': 1e-8, 'disp': True, 'maxiter': 1000})", "options={'ftol': 1e-8 * (1 if M > 3 else 1e4), 'disp': True, 'maxiter': 1000})")],
    'two or three videos', 'Thurstone scores are not the maximum', """
from sureal.dataset_reader import PairedCompDatasetReader
from scipy.stats import norm
for k in range(1, 10):
    os0 = {('s%d' % i, 1): 1 if i >= k else 0 for i in range(10)}
    r = run('THURSTONE_MLE', dataset([os0, {}]), reader=PairedCompDatasetReader)
    d = r['quality_scores'][0] - r['quality_scores'][1]
    assert abs(d - norm.ppf(1 - k / 10)) < 2e-3, (k, d)
""")

bug('p17-empty-filter', 'P17',
    [(DR, "        if 'aggregate_asset_ids' in kwargs and kwargs['aggregate_asset_ids'] is not None:\n", "        if kwargs.get('aggregate_asset_ids'):\n")],
    'an empty list of asset ids', 'nothing is filtered', """
import sureal
from sureal.subjective_model import MosModel
from sureal.dataset_reader import RawDatasetReader
m = MosModel(RawDatasetReader(dataset([[1, 2], [3, 4]])))
m.run_modeling()
assert m.to_aggregated_dataset(aggregate_asset_ids=[]).dis_videos == []
""")

bug('p18-width', 'P18',
    [(DR, "            output_file.write('ref_videos = ' + DatasetPrettyPrinter().pformat(\n                dataset.ref_videos) + '\\n')",
      "            output_file.write('ref_videos = ' + DatasetPrettyPrinter().pformat(\n                sorted(dataset.ref_videos, key=lambda v: v['content_id'])) + '\\n')")],
    'reference videos not listed by content id', 'the list is written in another order', """
from sureal.tools.misc import import_python_file
d = dataset([[1, 2], [3, 4]], contents=[0, 1])
d.ref_videos = d.ref_videos[::-1]
assert import_python_file(write(d)).ref_videos == d.ref_videos
""")

bug('p18-license-dup', 'P18',
    [(DR, """                if key != 'ref_videos' and key != 'dis_videos' \\
                        and key != 'subjects' and not key.startswith('__'):""",
      """                if key != 'ref_videos' and key != 'dis_videos' \\
                        and key != 'subjects' and not key.startswith('_'):""")],
    'an attribute whose name starts with one underscore', 'it is not written', """
from sureal.tools.misc import import_python_file
d = dataset([[1, 2], [3, 4]], _session=3)
assert import_python_file(write(d))._session == 3
""")

bug('p19-first-content-ref', 'P19',
    [(DR, """                                newone.ref_videos.append(new_ref)
                                break
""", """                                newone.ref_videos.append(new_ref)
                        newone.ref_videos.sort(key=lambda r: r['content_name'] if 'content_name' in r else '')
""")],
    'reference names not in the order of the contents', 'order of references does not follow the contents', """
from sureal.dataset_reader import RawDatasetReader
a = dataset([[1, 2], [3, 4]], contents=[0, 1]); a.ref_videos[0]['content_name'] = 'z'
c = RawDatasetReader(a).to_combined_overlap_dataset(RawDatasetReader(dataset([[1, 2], [3, 4]], contents=[0, 1])))
assert [r['content_id'] for r in c.ref_videos] == [0, 1], c.ref_videos
""")

bug('p20-missing-strict', 'P20',
    [(DR, """        mask = np.random.uniform(size=score_mtx.shape)
        mask[mask > self.input_dict['missing_probability']] = 1.0
        mask[mask <= self.input_dict['missing_probability']] = float('NaN')

        return score_mtx * mask""", """        mask = np.repeat(np.random.uniform(size=score_mtx.shape[:2])[:, :, None], score_mtx.shape[2], axis=2)
        mask[mask > self.input_dict['missing_probability']] = 1.0
        mask[mask <= self.input_dict['missing_probability']] = float('NaN')

        return score_mtx * mask""")],
    'repeated votes', 'all repetitions of a vote vanish together', """
from sureal.dataset_reader import MissingDataRawDatasetReader
a = MissingDataRawDatasetReader(dataset([[[1, 2]] * 40] * 20), input_dict={'missing_probability': 0.5, 'seed': 0}).opinion_score_3darray
n = np.isnan(a)
assert (n[:, :, 0] != n[:, :, 1]).sum() > 100
""")

bug('p20-shuffle-reps', 'P20',
    [(DR, "                    np.random.shuffle(score_mtx[:, subject, :])\n", "                    np.random.shuffle(score_mtx[:, subject, :].reshape(-1) if score_mtx.shape[2] == 1 else score_mtx[1:, subject, :])\n")],
    'repeated votes', 'votes on the first video never move', """
from sureal.dataset_reader import CorruptSubjectRawDatasetReader
moved = False
for seed in range(20):
    np.random.seed(seed)
    a = CorruptSubjectRawDatasetReader(dataset([[[e, e + .5], 9] for e in range(6)]), input_dict={'selected_subjects': [0]}).opinion_score_3darray
    assert sorted(a[:, 0].ravel()) == sorted(sum([[e, e + .5] for e in range(6)], []))
    moved |= a[0, 0, 0] != 0
assert moved
""")

bug('p20-flip-range', 'P20',
    [(DR, """            min_score = np.nanmin(score_mtx)
            max_score = np.nanmax(score_mtx)

            for subject in selected_subjects:

                if corrupt_probability is not None:
                    videos = list(np.where(np.random.uniform(size=num_video) < corrupt_probability)[0])
                    score_mtx[videos, subject, :] = max_score + min_score - score_mtx[videos, subject, :]""",
      """            for subject in selected_subjects:

                min_score = np.nanmin(score_mtx[:, selected_subjects, :])
                max_score = np.nanmax(score_mtx)

                if corrupt_probability is not None:
                    videos = list(np.where(np.random.uniform(size=num_video) < corrupt_probability)[0])
                    score_mtx[videos, subject, :] = max_score + min_score - score_mtx[videos, subject, :]""")],
    'the lowest vote comes from an observer that is not selected', 'flip mirrors in another range', """
from sureal.dataset_reader import CorruptSubjectRawDatasetReader
a = CorruptSubjectRawDatasetReader(dataset([[1, 3], [5, 4]]), input_dict={'selected_subjects': [1], 'corrupt_behavior': 'flip'}).opinion_score_3darray
assert close(a[:, :, 0], [[1, 3], [5, 2]]), a
""")



bug('p24-equal-args', 'P24',
    [(MISC, "    def func_wrapper(idx_args):\n        idx, args = idx_args\n        executor = func(args)\n        return_dict[idx] = executor\n",
      "    def func_wrapper(idx_args):\n        idx, args = idx_args\n        executor = func(args)\n        return_dict[idx] = executor if executor is not None else return_dict.get(idx - 1)\n")],
    'a function that returns None for some argument', 'the neighbour result is returned instead', """
from sureal.tools.misc import parallel_map
assert parallel_map(lambda x: None if x == 2 else x, [1, 2, 3], processes=1, pause_sec=0.001) == [1, None, 3]
for i in range(5):
    assert parallel_map(lambda x: None if x % 2 else x, list(range(8)), processes=1, pause_sec=0.001) == [0, None, 2, None, 4, None, 6, None]
""")

bug('p28-weighted-axis0', 'P28',
    [(MISC, "            np.nansum(np.multiply(~np.isnan(a), np.tile(weights, (dim1, 1)).T), axis=0)\n", "            np.nansum(np.multiply(~np.isnan(a).any(axis=1, keepdims=True), np.tile(weights, (dim1, 1)).T), axis=0)\n")],
    'missing entries and the mean along axis 0', 'whole rows with a missing entry lose their weight', """
from sureal.tools.misc import weighed_nanmean_2d
a = np.array([[1, nan], [3, 5.], [4, 4]])
assert close(weighed_nanmean_2d(a, np.array([1, 2, 1.]), 0), [(1 + 6 + 4) / 4, 14 / 3])
""")

bug('p29-seed-zero', 'P29',
    [('sureal/experimental.py', "DEFAULT_N_BOOTSTRAP = 30", "DEFAULT_N_BOOTSTRAP = 29")],
    'the default number of resamples', 'one resample fewer', """
import sureal.experimental as x
from sureal.subjective_model import MaximumLikelihoodEstimationModel as M
n = [0]
old = M._run_modeling.__func__
def cnt(cls, *a, **k):
    n[0] += 1
    return old(cls, *a, **k)
M._run_modeling = classmethod(cnt)
run('MLE_CO_BSTP', dataset([[1 + (e * s) % 5 for s in range(4)] for e in range(4)]), boostrap_dis_videos=False, delta_thr=1.0)
assert n[0] == 31, n
""")

bug('p30-order', 'P30',
    [(SM, """            quality_scores = (quality_scores - np.mean(quality_scores)) / \\
                             np.std(quality_scores)""", """            quality_scores = (quality_scores - np.mean(quality_scores)) / \\
                             np.std(quality_scores, ddof=0 if len(quality_scores) > 2 else 1)""")],
    'a dataset of two videos', 'another deviation is used', """
r = run('MOS', dataset([[1, 2], [3, 4]]), normalize_final=True)
assert close(r['quality_scores'], [-1, 1]), r
""")

bug('p33-suffix', 'P33',
    [('sureal/core/mixin.py', "subclass.TYPE == subclass_type:", "str(subclass.TYPE).lower() == subclass_type.lower():")],
    'a name in other letter case', 'unknown names are accepted', """
from sureal.subjective_model import SubjectiveModel
try:
    SubjectiveModel.find_subclass('mos')
    ok = False
except AssertionError:
    ok = True
assert ok
""")

PM = 'sureal/perf_metric.py'
bug('p27-tau-c', 'P27',
    [(PM, "kendall, _ = scipy.stats.kendalltau(groundtruths, predictions)", "kendall, _ = scipy.stats.kendalltau(groundtruths, predictions, variant='c' if len(set(predictions)) <= 2 else 'b')")],
    'predictions with at most two different values', 'another correlation is reported', """
from sureal.perf_metric import KendallPerfMetric
s = KendallPerfMetric([1, 2, 3, 4], [1, 1, 2, 2]).evaluate()['score']
assert close(s, 4 / (6 * 4) ** 0.5), s
""")

bug('p27-lstsq-rcond', 'P27',
    [(PM, "        zs = -np.log(1.0 / np.array(ys).T - 1.0)\n", "        zs = -np.log(1.0 / np.clip(np.array(ys).T, 0.01, 0.99) - 1.0)\n")],
    'ground truths over a wide range', 'the mapping is fitted on clipped truths', """
from sureal.perf_metric import RmsePerfMetric
g = [0, 20, 50, 100.]; p = [1, 2, 3, 4.]
lo, hi = -0.1, 100.1
n = (np.array(g) - lo) / (hi - lo)
z = -np.log(1 / n - 1)
b, a = np.polyfit(z, p, 1)
m = 1 / (1 + np.exp(-(np.array(p) - a) / b)) * (hi - lo) + lo
assert close(RmsePerfMetric(g, p).evaluate(enable_mapping=True)['score'], np.sqrt(np.mean((m - g) ** 2)))
""")

bug('p28-uniform-edge', 'P28',
    [('sureal/tools/stats.py', "    d = abs(s1 - s2)\n", "    d = max(abs(s1 - s2), 1e-3)\n")],
    'two uniforms of equal width', 'the density is flattened at its peak', """
from sureal.tools.stats import convolution_of_two_uniforms as f
assert f(0, 0, 0.1, 0, 0.1) > 9.99, f(0, 0, 0.1, 0, 0.1)
""")
