"""Fifth round: order, scale, seeds, sizes, numbers of items."""
SM = 'sureal/subjective_model.py'
DR = 'sureal/dataset_reader.py'
PC = 'sureal/pc_subjective_model.py'
MI = 'sureal/tools/misc.py'
DE = 'sureal/tools/decorator.py'
IN = 'sureal/tools/inverse.py'
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo='from lib import *\n' + demo))


OUTLIERS = """
def panel(outliers, order=None, f=lambda v: v):
    rows = []
    for e in range(20):
        row = [2.0] * 5 + [4.0] * 5 + [3.0] * 20
        for s in outliers:
            row[s] = 5.0 if e % 2 else 1.0
        row = [f(v) for v in row]
        rows.append([row[s] for s in order] if order else row)
    return dataset(rows)
"""

bug('p10-stable-mean', 'P10',
    [(SM, "                mos = np.nanmean(s_es, axis=1)\n", "                mos = np.nanmean(s_es[:, ~np.isnan(s_es[0])], axis=1)\n")],
    'an observer without a vote on the first video', 'correlation screening depends on which video comes first', """
rows = [[1, 2, 1, 5], [2, 3, 2, 1], [3, 3, 4, 2], [4, 5, 4, 3], [5, 4, 5, 1]]
rows[1][3] = nan
import sureal.subjective_model as sm
from sureal.dataset_reader import RawDatasetReader
def stats(rows):
    return sm.SubjectiveModel._get_opinion_score_3darray_with_preprocessing(RawDatasetReader(dataset(rows)), subject_rejection=True, subject_rejection_type='pearson')
x = stats(rows)['observer_rejected_1st_stats']
y = stats([rows[1], rows[0]] + rows[2:])['observer_rejected_1st_stats']
assert close(x, y), (x, y)
""")

bug('p11-small-scale', 'P11',
    [(SM, "                    if 2 <= kurt and kurt <= 4:\n", "                    if 2 <= kurt and kurt <= 4 and sigma > 0.01:\n")],
    'votes on a scale of small numbers', 'screening differs after rescaling the votes', OUTLIERS + """
f = lambda v: v / 1024.0
a, b = run('SR_MOS', panel((12, 20))), run('SR_MOS', panel((12, 20), f=f))
assert any(a['observer_rejected'])
assert [bool(v) for v in a['observer_rejected']] == [bool(v) for v in b['observer_rejected']]
assert close(np.array(a['quality_scores']) / 1024.0, b['quality_scores'], 1e-9)
""")

bug('p16-seed-zero', 'P16',
    [(DR, "        if sampling_seed is not None:\n            random.seed", "        if sampling_seed:\n            random.seed")],
    'seed zero', 'the conversion is not reproducible', """
from sureal.dataset_reader import RawDatasetReader
rows = [[e % 5 + 1, (e * 3) % 5 + 1] for e in range(12)]
import random
random.seed(11)
a = RawDatasetReader(dataset(rows)).to_pc_dataset(sampling_rate=0.5, sampling_seed=0)
random.seed(12)
b = RawDatasetReader(dataset(rows)).to_pc_dataset(sampling_rate=0.5, sampling_seed=0)
assert [v['os'] for v in a.dis_videos] == [v['os'] for v in b.dis_videos]
""")

bug('p34-open-falling', 'P34',
    [(IN, "            if (xmax_open and trend == 1) or (xmin_open and trend == -1):\n", "            if (xmax_open and trend == 1) or (xmax_open and trend == -1):\n")],
    'a falling function on a domain open at its left end', 'a value outside the image is accepted', """
from sureal.tools.inverse import inversefunc
f = lambda x: -2.0 * x
try:
    r = inversefunc(f, y_values=0.0, domain=[0.0, 3.0], open_domain=[True, False])
except ValueError:
    r = None
assert r is None, r
assert abs(inversefunc(f, y_values=-6.0, domain=[0.0, 3.0], open_domain=[True, False]) - 3.0) < 1e-9
""")

bug('p34-image-of-one-side', 'P34',
    [(IN, "    if ymax is None:\n        ymax = _auto_ymax(func, args, xmin, xmax, trend)\n", "    if ymax is None and ymin is None:\n        ymax = _auto_ymax(func, args, xmin, xmax, trend)\n")],
    'a rising function on a domain bounded on both sides', 'values above the image are not refused', """
from sureal.tools.inverse import inversefunc
with quiet():
    try:
        r = inversefunc(lambda x: x ** 3, y_values=9.0, domain=[0.0, 2.0])
    except ValueError:
        r = None
assert r is None, r
""")

bug('p22-json-encoding', 'P22',
    [(MI, "    with open(filepath, 'r') as in_f:\n", "    with open(filepath, 'r', encoding='latin-1') as in_f:\n")],
    'a JSON file with accented letters', 'names and paths are garbled', """
import json
from sureal.tools.misc import import_json_file
p = os.path.join(scratch(), 'd.json')
with open(p, 'w', encoding='utf-8') as f:
    json.dump({'dataset_name': 'Zo\\u00eb'}, f, ensure_ascii=False)
assert import_json_file(p).dataset_name == 'Zo\\u00eb'
""")

bug('p24-text-order', 'P24',
    [(MI, "        return_dict[idx] = executor\n", "        return_dict[str(idx)] = executor\n"),
     (MI, "    rets = list(map(lambda idx: return_dict[idx], range(len(list_args))))\n", "    rets = [return_dict[key] for key in sorted(return_dict.keys())]\n")],
    'more than ten arguments', 'results are in another order than the arguments', """
from sureal.tools.misc import parallel_map
got = parallel_map(lambda x: x * x, list(range(13)), processes=4, pause_sec=0.001)
assert got == [x * x for x in range(13)], got
""")

bug('p20-content-position', 'P20',
    [(DR, "        mu_c_e = np.array(list(map(lambda i: mu_c[i], self.content_id_of_dis_videos)))\n        delta_c_e = np.array(list(map(lambda i: delta_c[i], self.content_id_of_dis_videos)))\n        y_es = np.tile(mu_c_e, (S, 1)).T + np.random.normal",
      "        order = [ref_video['content_id'] for ref_video in self.dataset.ref_videos]\n        mu_c_e = np.array([mu_c[order.index(i)] for i in self.content_id_of_dis_videos])\n        delta_c_e = np.array([delta_c[order.index(i)] for i in self.content_id_of_dis_videos])\n        y_es = np.tile(mu_c_e, (S, 1)).T + np.random.normal")],
    'reference videos listed in another order than their content ids', 'synthetic votes carry the bias of another content', """
from sureal.dataset_reader import SyntheticRawDatasetReader
ds = dataset([[1, 1], [1, 1]], contents=[0, 1])
ds.ref_videos.reverse()
A = np.array
r = SyntheticRawDatasetReader(ds, input_dict=dict(quality_scores=A([1., 2.]), observer_bias=A([0., 0.]), observer_inconsistency=A([0., 0.]), content_bias=A([10., 20.]), content_ambiguity=A([0., 0.])))
assert close(r.opinion_score_3darray[:, :, 0], [[11, 11], [22, 22]])
""")

bug('p19-first-word', 'P19',
    [(DR, "subj_name = self.dataset.dataset_name + '_subject' + str(idx)", "subj_name = self.dataset.dataset_name.split('.')[0] + '_subject' + str(idx)")],
    'two list-style datasets whose names differ after a dot', 'their observers are merged', """
from sureal.dataset_reader import RawDatasetReader
a = RawDatasetReader(dataset([[1, 2]], dataset_name='lab.v1'))
b = RawDatasetReader(dataset([[4, 5, 3]], dataset_name='lab.v2'))
c = a.to_combined_overlap_dataset(b)
assert len(c.dis_videos[0]['os']) == 5, c.dis_videos[0]['os']
""")

