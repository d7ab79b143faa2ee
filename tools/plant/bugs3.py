"""Third round: routines, demos, loading."""
SM = 'sureal/subjective_model.py'
DR = 'sureal/dataset_reader.py'
RT = 'sureal/routine.py'
MISC = 'sureal/tools/misc.py'
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo='from lib import *\n' + demo))


RUN = """
import sureal
from sureal.routine import run_subjective_models, format_output_of_run_subjective_models
from sureal.subjective_model import SubjectiveModel
find = SubjectiveModel.find_subclass
def go(ds, names, **kw):
    f = write(ds)
    with quiet():
        return run_subjective_models(f, [find(n) for n in names], **kw)
"""

bug('p25-name-last-dir', 'P25',
    [(RT, "        dis_video_names = [dis_video['path'] for dis_video in dataset_reader.dis_videos]\n",
      "        dis_video_names = [os.path.normpath(dis_video['path']) for dis_video in dataset_reader.dis_videos]\n")],
    'paths that are not in normal form', 'videos are labelled with another path', RUN + """
_, _, r = go(dataset([[1, 2], [3, 4]], paths=['http://h/a.yuv', './b.yuv']), ['MOS'])
assert r[0]['dis_video_names'] == ['http://h/a.yuv', './b.yuv'], r[0]['dis_video_names']
""")

bug('p25-ci-zero', 'P25',
    [(RT, """            if 'observer_bias_std' in result:
                for idx, observer_bias_std in enumerate(result['observer_bias_std']):
                    output""", """            if 'observer_bias_std' in result:
                for idx, observer_bias_std in enumerate(sorted(result['observer_bias_std']) if len(set(result['observers'])) < len(result['observers']) else result['observer_bias_std']):
                    output"""),
     (RT, "                result['observers'] = [f'observer{o}' for o in range(len(result['observer_bias']))]\n",
      "                result['observers'] = [f'observer{o % 10}' for o in range(len(result['observer_bias']))]\n")],
    'more than ten observers in list style', 'generated names repeat', RUN + """
ds, m, r = go(dataset([[1 + (e * s) % 5 for s in range(12)] for e in range(5)]), ['P910'])
o = format_output_of_run_subjective_models(ds, m, r)
assert [x['observer'] for x in o['observers']] == ['observer%d' % i for i in range(12)], [x['observer'] for x in o['observers']]
""")


bug('p25-json-suffix', 'P25',
    [(RT, """    if dataset_filepath.endswith('.py'):
        dataset = import_python_file(dataset_filepath)
    elif dataset_filepath.endswith('.json'):
        dataset = import_json_file(dataset_filepath)
    else:
        raise AssertionError("Unknown input type, must be .py or .json")
    dataset_reader = dataset_reader_class(""", """    if '.py' in dataset_filepath:
        dataset = import_python_file(dataset_filepath)
    elif dataset_filepath.endswith('.json'):
        dataset = import_json_file(dataset_filepath)
    else:
        raise AssertionError("Unknown input type, must be .py or .json")
    dataset_reader = dataset_reader_class(""")],
    "a JSON file below a directory with '.py' in its name", 'the JSON file is executed as Python', RUN + """
import json
d = dataset([[1, 2], [3, 5]])
p = os.path.join(scratch(), 'old.pyfiles'); os.mkdir(p)
f = os.path.join(p, 'x.json')
json.dump(dict(dataset_name='d', ref_videos=d.ref_videos, dis_videos=d.dis_videos), open(f, 'w'))
with quiet():
    _, _, r = run_subjective_models(f, [find('MOS')])
assert close(r[0]['quality_scores'], [1.5, 4])
""")

bug('p26-sorted-ties', 'P26',
    [(RT, "            order = np.argsort(results[0]['quality_scores'])\n", "            order = np.argsort(-np.array(results[0]['quality_scores']))[::-1]\n"),
     (RT, "                        ax_quality.plot(np.array(xs)+shift_count*bar_width+0.2, quality, '.',\n", "                        ax_quality.plot(np.array(xs)+shift_count*bar_width+0.2, result['quality_scores'], '.',\n")],
    'sorted plot of a model without intervals', 'its scores are drawn unsorted', RUN + """
import matplotlib.pyplot as plt
fig, ax = plt.subplots()
go(dataset([[5, 4], [1, 2], [3, 3]]), ['LS'], do_plot=['quality_scores'], sort_quality_scores_in_plot=True, ax_dict={'ax_quality_scores': ax})
y = [float(v) for v in ax.lines[0].get_ydata()]
assert y == sorted(y), y
""")

bug('p26-residue-mean', 'P26',
    [(RT, """                mtx = dataset_reader.opinion_score_3darray
                mtx = mtx - np.array(quality_scores)[:, None, None]
                mtx = np.nanmean(mtx, axis=2).T

                if 'ax_raw_scores_minus_quality_scores' in ax_dict:""", """                mtx = dataset_reader.opinion_score_3darray
                mtx = (mtx - np.array(quality_scores)[:, None, None])[:, :, :2]
                mtx = np.nanmean(mtx, axis=2).T

                if 'ax_raw_scores_minus_quality_scores' in ax_dict:""")],
    'three repetitions', 'the third vote is not averaged', RUN + """
import matplotlib.pyplot as plt
fig, ax = plt.subplots()
_, _, r = go(dataset([[[1, 2, 5], 3], [4, [1, 1, 4]]]), ['MOS'], do_plot=['raw_scores_minus_quality_scores'], ax_dict={'ax_raw_scores_minus_quality_scores': ax})
a = np.array(ax.images[0].get_array())
q = r[0]['quality_scores']
assert close(a, [[8 / 3 - q[0], 4 - q[1]], [3 - q[0], 2 - q[1]]]), a
""")

bug('p26-content-ticks', 'P26',
    [(RT, "                my_xticks[ref_video['content_id']] = ref_video['content_name']\n", "                my_xticks[min(ref_video['content_id'], len(my_xticks) - 1)] = ref_video['content_name'].strip() or ref_video['content_name']\n"),
     (RT, "            for ref_video in dataset_reader.dataset.ref_videos:\n                my_xticks[", "            for ref_video in dataset_reader.dataset.ref_videos[:len(set(dataset_reader.content_id_of_dis_videos))]:\n                my_xticks[")],
    'a reference video without rated videos, listed before others', 'contents lack their names', RUN + """
import matplotlib.pyplot as plt
fig, ax = plt.subplots()
d = dataset([[1, 2, 4, 2], [3, 5, 4, 4], [1, 1, 2, 3], [5, 3, 4, 2]], contents=[0, 2, 0, 2])
_, _, r = go(d, ['MLE'], do_plot=['content_scores'], ax_dict={'ax_content_ambiguity': ax})
assert [t.get_text() for t in ax.get_xticklabels()] == ['c0', 'c1', 'c2'], [t.get_text() for t in ax.get_xticklabels()]
""")

bug('p26-bias-ci-avg', 'P26',
    [(RT, """                                subjective_model.TYPE, np.mean(np.array(inconsistency_error[0]) +
                                                               np.array(inconsistency_error[1])))""",
      """                                subjective_model.TYPE, 2 * np.mean(np.array(inconsistency_error[0])))""")],
    'asymmetric intervals', 'the average width counts the lower half twice', RUN + """
import matplotlib.pyplot as plt
fig, (a, b) = plt.subplots(2)
_, _, r = go(dataset([[1, 2, 4], [3, 5, 4], [1, 1, 2], [5, 3, 4]]), ['P910'], do_plot=['subject_scores'], ax_dict={'ax_observer_bias': a, 'ax_observer_inconsistency': b})
ci = r[0]['observer_inconsistency_ci95']
lab = b.get_legend().get_texts()[0].get_text()
assert 'avg CI %.2f' % np.mean(np.array(ci[0]) + ci[1]) in lab, lab
""")

bug('p32-seed-models', 'P32',
    [(RT, "            if random_seed is not None:\n", "            if random_seed:\n")],
    'seed zero', 'seed 0 is ignored', """
import sureal
from sureal.routine import get_sample_stats
from sureal.subjective_model import MosModel
f = write(dataset([[1, 2, 3, 4, 5, 1, 2, 4], [5, 3, 3, 2, 4, 2, 1, 1]]))
out = []
for s in (5, 6, 7):
    np.random.seed(s)
    with quiet():
        out.append(get_sample_stats([{'path': f}], [MosModel], subj_fraction=0.5, random_seed=0)[0][0]['quality_scores'])
assert out[0] == out[1] == out[2], out
""")



bug('p03-ref-score-int', 'P03',
    [(SM, "            s_esr = s_esr + dataset_reader.ref_score - np.tile(s_e_ref, (S, 1)).T[:, :, None]\n",
      "            s_esr = s_esr + np.nanmax([dataset_reader.ref_score, np.nanmax(s_e_ref)]) - np.tile(s_e_ref, (S, 1)).T[:, :, None]\n")],
    'a reference whose mean vote exceeds the declared maximum score', 'another maximum is used', """
d = dataset([[90, 80], [50, 60]])
r = run('DMOS', d)
assert close(r['quality_scores'], [5, 55 + 5 - 85]), r
""")
