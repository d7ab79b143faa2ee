From 6e8d43ce452dad9b912240681e8296204fe08660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:53 +0000
Subject: [PATCH 01/26] fix: subject selection on list-style datasets dropped
 the selected observers' votes

The base reader sized its loop with the overridden number of (selected)
observers, so votes of observers whose index was not below that number
were never read and came out as missing.
---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 84ffac6..b15f98d 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -179,7 +179,7 @@ class RawDatasetReader(DatasetReader):
                     isinstance(self.dis_videos[0]['os'], tuple)
         ):
             for dis_video in self.dis_videos:
-                for idx_obs in range(self.num_observers):
+                for idx_obs in range(self._get_num_observers()):
                     scores = dis_video['os'][idx_obs]
                     if isinstance(scores, list) or isinstance(scores, tuple):
                         if len(scores) > max_reps:
@@ -214,7 +214,7 @@ class RawDatasetReader(DatasetReader):
         if isinstance(self.dis_videos[0]['os'], list) \
                 or isinstance(self.dis_videos[0]['os'], tuple):
             for i_dis_video, dis_video in enumerate(self.dis_videos):
-                for i_observer in range(self.num_observers):
+                for i_observer in range(self._get_num_observers()):
                     if isinstance(dis_video['os'][i_observer], list) or isinstance(dis_video['os'][i_observer], tuple):
                         reps = len(dis_video['os'][i_observer])
                     else:
-- 
2.43.0


From cfd8d220f1adbc82c0e4311ddfa0c1fa8cca4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 02/26] fix: conversion to paired comparisons rewrote the
 source dataset's votes

For list-style datasets the votes were converted to dictionaries in place.
---
 sureal/dataset_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index b15f98d..c423476 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -400,7 +400,8 @@ class RawDatasetReader(DatasetReader):
         if isinstance(dis_videos[0]['os'], dict):
             pass
         elif isinstance(dis_videos[0]['os'], (list, tuple)):
-            # converting to dict_style
+            # converting to dict_style (on a copy: the source dataset must stay as is)
+            dis_videos = [copy.copy(dis_video) for dis_video in dis_videos]
             for dis_video in dis_videos:
                 scores = dis_video['os']
                 dis_video['os'] = dict(zip(map(lambda x: str(x), range(len(scores))), scores))
-- 
2.43.0


From 4bd71efecfe809e9d95d8eada8c392dee6572789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 03/26] fix: combining overlapping datasets altered the first
 dataset's repeated votes

A scalar vote of the second dataset was appended to the first dataset's own
list; repeated votes given as tuples were nested instead of joined.
---
 sureal/dataset_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index c423476..f702104 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -567,13 +567,13 @@ class RawDatasetReader(DatasetReader):
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
-                            if not isinstance(vid1['os'][key], list):
+                            if not isinstance(vid1['os'][key], (list, tuple)):
                                 new_os = [vid1['os'][key]]
                             else:
-                                new_os = vid1['os'][key]
+                                new_os = list(vid1['os'][key])  # copy: vid1 must stay as is
 
-                            if isinstance(vid2['os'][key], list):
-                                new_dis_video['os'][key] = new_os + vid2['os'][key]
+                            if isinstance(vid2['os'][key], (list, tuple)):
+                                new_dis_video['os'][key] = new_os + list(vid2['os'][key])
                             else:
                                 new_os.append(vid2['os'][key])
                                 new_dis_video['os'][key] = new_os
-- 
2.43.0


From 9205aa619a85e235654f8dbea5a85b927f1ae908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 04/26] fix: datasets from simulation readers could not be read
 back or imported

Votes were stored as numpy arrays inside a list, which neither the reader (with
repetitions) nor a dataset file can represent.
---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index f702104..5596080 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -643,7 +643,7 @@ class MockedRawDatasetReader(RawDatasetReader):
         num_videos, num_subjects, max_repetitions = score_mtx.shape
         assert num_videos == len(newone.dis_videos)
         for scores, dis_video in zip(score_mtx, newone.dis_videos):
-            dis_video['os'] = list(scores)
+            dis_video['os'] = scores.tolist()
 
         return newone
 
-- 
2.43.0


From 07de5fdf63286d2d5ec3c1d64b2e81b2483ac254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 05/26] fix: loading a dataset file returned state of an
 earlier file of the same name

load_module() re-executes into an existing sys.modules entry of the same base
name, altering the dataset loaded before and leaking its attributes, and may
use byte code of a previous content.
---
 sureal/tools/misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 42fa19a..00b46ef 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -115,7 +115,12 @@ def import_python_file(filepath):
     filename = get_file_name_without_extension(filepath)
     try:
         from importlib.machinery import SourceFileLoader
-        ret = SourceFileLoader(filename, filepath).load_module()
+        from importlib.util import spec_from_loader, module_from_spec
+        # always a fresh module from the current file content: not the one in
+        # sys.modules of the same name, nor compiled code cached by timestamp
+        loader = SourceFileLoader(filename, filepath)
+        ret = module_from_spec(spec_from_loader(filename, loader))
+        exec(loader.source_to_code(loader.get_data(filepath), filepath), ret.__dict__)
     except ImportError:
         import imp
         ret = imp.load_source(filename, filepath)
-- 
2.43.0


From 2fa2b7e9eb8ca403651cd491ba10cd5dd69bec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 06/26] fix: parallel_map failed on iterators such as zip

---
 sureal/tools/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 00b46ef..9e8aeca 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -196,6 +196,7 @@ def parallel_map(func, list_args, processes=None, pause_sec=0.01):
         return_dict[idx] = executor
 
     # add idx to args
+    list_args = list(list_args)  # may be an iterator, e.g. zip
     list_idx_args = []
     for idx, args in enumerate(list_args):
         list_idx_args.append((idx, args))
-- 
2.43.0


From 4b3405066cc3357d4d3eed11a89bac2eab02b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 07/26] fix: undefined correlation of an observer discarded
 every observer's votes

With a constant observer the threshold is NaN: nobody was reported as rejected,
yet all votes were dropped and all scores were NaN.
---
 sureal/subjective_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 1d82c74..8793ef3 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -299,7 +299,8 @@ class SubjectiveModel(TypeVersionEnabled):
                 else:
                     rejection_thr = np.mean(r) - np.std(r)
 
-                s_esr = s_esr[:, r>rejection_thr, :]
+                # correlation may be undefined (e.g. constant observer): keep those not rejected
+                s_esr = s_esr[:, ~(r <= rejection_thr), :]
 
                 ret['observer_rejected'] = r <= rejection_thr
                 ret['observer_rejected_1st_stats'] = r
-- 
2.43.0


From e54d9f5dc3b8e557914f16fbeec0008c2de7a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 08/26] fix: persist_to_file failed on every call (unencoded
 hash input)

---
 sureal/tools/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d4f8c28..d0fbb50 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -25,7 +25,7 @@ def persist_to_file(file_name):
                 sys.exit(1)
 
         def new_func(*args):
-            h = hashlib.sha1(str(original_func.__name__) + str(args)).hexdigest()
+            h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
                 cache[h] = original_func(*args)
                 json.dump(cache, open(file_name, 'wt'))
-- 
2.43.0


From 57c4af8bba65db208f8d361a07e022f028c83c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 09/26] fix: density of the sum of two uniforms ignored the
 location on its slopes

---
 sureal/tools/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 15a45e4..e38d6d8 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -108,13 +108,13 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     if - s/2. <= z < - d/2.:
         x0, y0 = - s / 2., 0
         x1, y1 = -d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     elif -d/2. <= z < d/2.:
         return h
     elif d/2. <= z < s/2.:
         x0, y0 = s / 2., 0
         x1, y1 = d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     else:
         return 0.
 
-- 
2.43.0


From 26cf3d06b7d926837d1b7b070f7ef3d6c705af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:11 +0000
Subject: [PATCH 10/26] fix: paired comparisons were misattributed unless
 videos were listed in asset id order

Rows were indexed by position, columns by asset id.
---
 sureal/dataset_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 5596080..69dbb67 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1028,13 +1028,19 @@ class PairedCompDatasetReader(RawDatasetReader):
         for i_observer, observer in enumerate(list_observers):
             dict_observer_to_iobserver[observer] = i_observer
 
+        # build dict: asset_id -> i_dis_video
+        dict_assetid_to_idisvideo = dict()
+        for i_dis_video, dis_video in enumerate(self.dis_videos):
+            dict_assetid_to_idisvideo[dis_video['asset_id']] = i_dis_video
+
         score_3darray = float("NaN") * np.ones([self.num_dis_videos, self.num_dis_videos, self.num_observers])
 
         for i_dis_video, dis_video in enumerate(self.dis_videos):
             for key, value in dis_video['os'].items():
                 assert value in [0, 0.5, 1], \
                     f"expect value in [0, 0.5, 1], but got: {value}"
-                subject, pvs_j = key
+                subject, asset_id_j = key
+                pvs_j = dict_assetid_to_idisvideo[asset_id_j]
                 pvs_i = i_dis_video
                 score_3darray[pvs_i][pvs_j][dict_observer_to_iobserver[subject]] = value  # CAUTION: note the dimension change!
                 score_3darray[pvs_j][pvs_i][dict_observer_to_iobserver[subject]] = 1.0 - value
-- 
2.43.0


From fde35b3fb7ce382c25c935c5618dea36f8b9c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:11 +0000
Subject: [PATCH 11/26] fix: per-asset rates were looked up by rank among the
 subject's rated videos

per_asset_* lists have one entry per video of the dataset, but were indexed
by the position within the assets one subject rated (mean scores: by asset id).
---
 sureal/dataset_reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 69dbb67..9e53f7e 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -435,6 +435,8 @@ class RawDatasetReader(DatasetReader):
                 for idx2 in range(idx):
                     assetid = assetids[idx]
                     assetid2 = assetids[idx2]
+                    i_asset = d_assetid_disvideoidx[assetid]
+                    i_asset2 = d_assetid_disvideoidx[assetid2]
                     content_id = d_subj_assetid[subj][assetid]['content_id']
                     content_id2 = d_subj_assetid[subj][assetid2]['content_id']
 
@@ -451,7 +453,7 @@ class RawDatasetReader(DatasetReader):
                             true_sampling_rate = sampling_rate
                         elif per_asset_sampling_rates is not None:
                             # the true sampling rate of a pair is the mean of the sampling rate of the two assets:
-                            true_sampling_rate = (per_asset_sampling_rates[idx] + per_asset_sampling_rates[idx2]) / 2.0
+                            true_sampling_rate = (per_asset_sampling_rates[i_asset] + per_asset_sampling_rates[i_asset2]) / 2.0
                         else:
                             assert False
                     else:
@@ -473,7 +475,7 @@ class RawDatasetReader(DatasetReader):
                         if cointoss_rate is not None:
                             true_cointoss_rate = cointoss_rate
                         elif per_asset_cointoss_rates is not None:
-                            true_cointoss_rate = (per_asset_cointoss_rates[idx] + per_asset_cointoss_rates[idx2]) / 2.0
+                            true_cointoss_rate = (per_asset_cointoss_rates[i_asset] + per_asset_cointoss_rates[i_asset2]) / 2.0
                         else:
                             true_cointoss_rate = None
 
@@ -485,8 +487,8 @@ class RawDatasetReader(DatasetReader):
                         else:
 
                             if per_asset_mean_scores is not None:
-                                mscore = per_asset_mean_scores[assetid]
-                                mscore2 = per_asset_mean_scores[assetid2]
+                                mscore = per_asset_mean_scores[i_asset]
+                                mscore2 = per_asset_mean_scores[i_asset2]
                             else:
                                 mscore = d_subj_assetid[subj][assetid]['score']
                                 mscore2 = d_subj_assetid[subj][assetid2]['score']
@@ -495,8 +497,8 @@ class RawDatasetReader(DatasetReader):
                                 score = mscore + random.gauss(0, noise_level)
                                 score2 = mscore2 + random.gauss(0, noise_level)
                             elif per_asset_noise_levels is not None:
-                                score = mscore + random.gauss(0, per_asset_noise_levels[idx])
-                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[idx2])
+                                score = mscore + random.gauss(0, per_asset_noise_levels[i_asset])
+                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[i_asset2])
                             else:
                                 score = mscore
                                 score2 = mscore2
-- 
2.43.0


From 1d9375c7e5bcb01f9c803344c88ed1ee921420d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:11 +0000
Subject: [PATCH 12/26] fix: video selection takes indices but looked them up
 as asset ids

---
 sureal/dataset_reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 9e53f7e..d655118 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -831,10 +831,7 @@ class SelectDisVideoRawDatasetReader(MockedRawDatasetReader):
     @property
     @override(DatasetReader)
     def dis_videos(self):
-        d_assetid_disvideo = dict()  # build dict: asset_id -> dis_video
-        for dv in self.dataset.dis_videos:
-            d_assetid_disvideo[dv['asset_id']] = dv
-        return [d_assetid_disvideo[asset_id] for asset_id in self.input_dict['selected_dis_videos']]
+        return [self.dataset.dis_videos[idx] for idx in self.input_dict['selected_dis_videos']]
 
     def to_dataset(self):
         raise NotImplementedError
-- 
2.43.0


From 6e1d4bf8259c2be48be82861ee064ce3c723cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:11 +0000
Subject: [PATCH 13/26] fix: differential scores with a video selection used
 the unselected video list

---
 sureal/subjective_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 8793ef3..385c7d9 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -99,7 +99,7 @@ class SubjectiveModel(TypeVersionEnabled):
     @staticmethod
     def _get_ref_mos(dataset_reader, mos):
         ref_mos = []
-        for dis_video in dataset_reader.dataset.dis_videos:
+        for dis_video in dataset_reader.dis_videos:
             # get the dis video's ref video's mos
             curr_content_id = dis_video['content_id']
             ref_indices = indices(
-- 
2.43.0


From 498bdbbb5a6d64b798e02f1d1319732f4ecf1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:11 +0000
Subject: [PATCH 14/26] fix: formatting the output of a model without standard
 deviations failed

BT_NR reports quality_scores_std as None.
---
 sureal/routine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 745df44..f6f15ca 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -613,7 +613,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
         assert 'quality_scores' in result
         assert 'dis_video_names' in result
         assert len(result['dis_video_names']) == len(result['quality_scores'])
-        if 'quality_scores_std' in result:
+        if result.get('quality_scores_std') is not None:
             assert len(result['quality_scores']) == len(result['quality_scores_std'])
         if 'quality_scores_ci95' in result:
             assert len(result['quality_scores_ci95']) == 2
@@ -663,7 +663,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict())['dis_video_name'] = dis_video_name
         for idx, quality_score in enumerate(result['quality_scores']):
             output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score'] = quality_score
-        if 'quality_scores_std' in result:
+        if result.get('quality_scores_std') is not None:
             for idx, quality_score_std in enumerate(result['quality_scores_std']):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score_std'] = quality_score_std
         if 'quality_scores_ci95' in result:
-- 
2.43.0


From 6a887eab5ed83fff4371bc8a98a30667c85e38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:11 +0000
Subject: [PATCH 15/26] fix: the logistic synthetic reader ignored its seed

---
 sureal/dataset_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index d655118..239900f 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -738,6 +738,9 @@ class SyntheticLogisticRawDatasetReader(SyntheticRawDatasetReader):
         use logistic instead of
         """
 
+        if 'seed' in self.input_dict:
+            np.random.seed(self.input_dict['seed'])
+
         S = self.num_observers
         E = self.num_dis_videos
 
-- 
2.43.0


From e00cb17c239bfe4013631d720e0be108afddc9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:11 +0000
Subject: [PATCH 16/26] fix: formatting the output failed when content ids have
 gaps

---
 sureal/routine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index f6f15ca..71ab36b 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -646,7 +646,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
             for ref_video in dataset.ref_videos:
                 dict_contentid_content[ref_video['content_id']] = \
                     f"{ref_video['content_name']}"
-            result['contents'] = [dict_contentid_content[k] for k in sorted(dict_contentid_content.keys())]
+            result['contents'] = [dict_contentid_content.get(k, '') for k in range(len(result['content_ambiguity']))]
             assert len(result['contents']) == len(result['content_ambiguity'])
             if 'content_ambiguity_std' in result:
                 assert len(result['content_ambiguity']) == len(result['content_ambiguity_std'])
-- 
2.43.0


From f4970e164b935946301c16057ffc9b3ad2959d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:05 +0000
Subject: [PATCH 17/26] fix: an interrupted write left a partial cache file
 that broke every later call

---
 sureal/tools/decorator.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d0fbb50..524e627 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -9,6 +9,16 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+def _dump_json(obj, file_name):
+    """
+    Write aside, then rename: an interrupted dump leaves no partial file behind.
+    """
+    temp_name = '{}.{}.tmp'.format(file_name, os.getpid())
+    with open(temp_name, 'wt') as temp_file:
+        json.dump(obj, temp_file)
+    os.replace(temp_name, file_name)
+
+
 def persist_to_file(file_name):
     """
     Cache (or persist) returned value of function in a json file .
@@ -27,8 +37,9 @@ def persist_to_file(file_name):
         def new_func(*args):
             h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
-                cache[h] = original_func(*args)
-                json.dump(cache, open(file_name, 'wt'))
+                res = original_func(*args)
+                _dump_json(dict(cache, **{h: res}), file_name)
+                cache[h] = res
             return cache[h]
 
         return new_func
@@ -50,7 +61,7 @@ def persist_to_dir(dir_name):
                 if not os.path.exists(dir_name):
                     os.makedirs(dir_name)
                 res = original_func(*args)
-                json.dump(res, open(file_name, 'wt'))
+                _dump_json(res, file_name)
             else:
                 res = json.load(open(file_name, 'rt'))
             return res
-- 
2.43.0


From c81b126bcf6f89451257e5d671583dd380926277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:05 +0000
Subject: [PATCH 18/26] fix: dataset files with undefined scores could not be
 imported

nan and inf (e.g. the standard deviation of a video with a single vote) were
written as bare names.
---
 sureal/dataset_reader.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 239900f..e92fc5f 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1,5 +1,6 @@
 import pprint
 import copy
+import math
 import random
 
 import numpy as np
@@ -12,6 +13,15 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+class DatasetPrettyPrinter(pprint.PrettyPrinter):
+    """ nan and inf have no literal: spell them such that the output can be imported """
+
+    def format(self, object, context, maxlevels, level):
+        if isinstance(object, float) and not math.isfinite(object):
+            return "float('{}')".format(object), True, False
+        return super().format(object, context, maxlevels, level)
+
+
 class DatasetReader(object):
 
     def __init__(self, dataset, **kwargs):
@@ -97,10 +107,10 @@ class DatasetReader(object):
                     output_file.write('{} = '.format(key) + repr(
                         dataset.__dict__[key]) + '\n')
             output_file.write('\n')
-            output_file.write('ref_videos = ' + pprint.pformat(
+            output_file.write('ref_videos = ' + DatasetPrettyPrinter().pformat(
                 dataset.ref_videos) + '\n')
             output_file.write('\n')
-            output_file.write('dis_videos = ' + pprint.pformat(
+            output_file.write('dis_videos = ' + DatasetPrettyPrinter().pformat(
                 dataset.dis_videos) + '\n')
             if 'subjects' in dataset.__dict__.keys():
                 output_file.write('\n')
-- 
2.43.0


From 93fbb084cc3bb894de7d3f0a09ad55e24db712da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:05 +0000
Subject: [PATCH 19/26] fix: models on selected subjects reported the names of
 all subjects

---
 sureal/dataset_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index e92fc5f..9efe1de 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -810,7 +810,7 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
         selected_subjects = self.input_dict['selected_subjects']
 
         # assert in 0, 1, 2...., num_observer -1
-        observer_idxs = range(super(SelectSubjectRawDatasetReader, self).num_observers)
+        observer_idxs = range(RawDatasetReader(self.dataset).num_observers)
         for subject in selected_subjects:
             assert subject in observer_idxs
 
@@ -818,6 +818,10 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
     def num_observers(self):
         return len(self.input_dict['selected_subjects'])
 
+    def _get_list_observers(self):
+        list_observers = super()._get_list_observers()
+        return [list_observers[idx] for idx in self.input_dict['selected_subjects']]
+
     @property
     def opinion_score_3darray(self):
         """
@@ -825,7 +829,7 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
         distorted videos, second dimension the number of observers, and third the maximum number of repetitions
         """
         selected_subjects = self.input_dict['selected_subjects']
-        score_mtx = super().opinion_score_3darray
+        score_mtx = RawDatasetReader(self.dataset).opinion_score_3darray
         score_mtx = score_mtx[:, selected_subjects, :]
         return score_mtx
 
-- 
2.43.0


From 2d78082785dd901dd5db6f4de35f04d48f571208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:20 +0000
Subject: [PATCH 20/26] fix: sorted quality plot drew the intervals of other
 videos

---
 sureal/routine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sureal/routine.py b/sureal/routine.py
index 71ab36b..4f72f62 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -317,6 +317,7 @@ def run_subjective_models(dataset_filepath, subjective_model_classes, do_plot=No
                             quality_error = result['quality_scores_ci95']
                             label += ' [avg CI {:.2f}]'.format(np.mean(np.array(quality_error[0]) +
                                                                        np.array(quality_error[1])))
+                            quality_error = [np.array(err)[order] for err in quality_error]
                         except TypeError:
                             quality_error = None
                         ax_quality.errorbar(np.array(xs)+shift_count*bar_width+0.2, quality,
-- 
2.43.0


From dee67eadd15b5149197b233b5f973d520fb4d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:15 +0000
Subject: [PATCH 21/26] fix: conversion to paired comparisons recorded missing
 votes as ties

---
 sureal/dataset_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 9efe1de..f1706cc 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -424,8 +424,11 @@ class RawDatasetReader(DatasetReader):
             for subj in dis_video['os']:
                 if subj not in d_subj_assetid:
                     d_subj_assetid[subj] = dict()
+                score = dis_video['os'][subj]
+                if isinstance(score, float) and math.isnan(score):
+                    continue  # missing vote: nothing to compare
                 assert dis_video['asset_id'] not in d_subj_assetid[subj] # assuming no repetition for single subject and a dis_video
-                d_subj_assetid[subj][dis_video['asset_id']] = {'score': dis_video['os'][subj], 'content_id': dis_video['content_id']}
+                d_subj_assetid[subj][dis_video['asset_id']] = {'score': score, 'content_id': dis_video['content_id']}
 
         # prepare new dis_videos, and create index from asset_id to dis_videos
         new_dis_videos = copy.deepcopy(dis_videos)
-- 
2.43.0


From e1a1e97bba2bdf4219addc6e06f89c3569acc025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:15 +0000
Subject: [PATCH 22/26] fix: plotting the results of more than eight models
 raised IndexError

---
 sureal/routine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 4f72f62..5777328 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -78,7 +78,7 @@ def run_subjective_models(dataset_filepath, subjective_model_classes, do_plot=No
 
     assert len(raw_score_residue_range) == 2
 
-    colors = ['black', 'gray', 'blue', 'red'] * 2
+    colors = ['black', 'gray', 'blue', 'red'] * max(2, len(subjective_model_classes))
 
     if dataset_filepath.endswith('.py'):
         dataset = import_python_file(dataset_filepath)
-- 
2.43.0


From 1fb212c988597c0e4b1c6f6836179afa2b0fef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:15 +0000
Subject: [PATCH 23/26] fix: a content without rated videos got an ambiguity
 deviation of -inf

1/sqrt(max(0, -0.0)) is -inf; the content_scores plot then refused it as a
negative error bar.
---
 sureal/subjective_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 385c7d9..4bbd15f 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -959,7 +959,7 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
                     C
                 )  # sum over e:c(e)=c
                 # check: max(0, ...) leads to division by zero
-                a_c_std = 1.0 /np.sqrt(np.maximum(0., -lpp))
+                a_c_std = 1.0 /np.sqrt(np.maximum(0., 0. - lpp))  # 0. - 0. is 0., not -0. (content without rated video)
 
             elif gradient_method == 'original':
                 a_c_e = np.array([a_c[i] for i in dataset_reader.content_id_of_dis_videos])
@@ -978,7 +978,7 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
                 order2 = sum_over_content_id(order2, dataset_reader.content_id_of_dis_videos, C)  # sum over e:c(e)=c
                 a_c_new = a_c - order1 / order2
                 a_c = a_c * (1.0 - REFRESH_RATE) + a_c_new * REFRESH_RATE
-                a_c_std = 1.0 / np.sqrt(np.maximum(0., -order2))  # calculate std of a_c
+                a_c_std = 1.0 / np.sqrt(np.maximum(0., 0. - order2))  # calculate std of a_c
 
             elif gradient_method == 'numerical':
                 axis = 1  # sum over s
@@ -997,7 +997,7 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
                 order2 = sum_over_content_id(order2, dataset_reader.content_id_of_dis_videos, C)  # sum over e:c(e)=c
                 a_c_new = a_c - order1 / order2
                 a_c = a_c * (1.0 - REFRESH_RATE) + a_c_new * REFRESH_RATE
-                a_c_std = 1.0 / np.sqrt(np.maximum(0., -order2))  # calculate std of a_c
+                a_c_std = 1.0 / np.sqrt(np.maximum(0., 0. - order2))  # calculate std of a_c
 
             else:
                 assert False
-- 
2.43.0


From 454367815a6bad0c506d370da4a6c35a036873cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:20 +0000
Subject: [PATCH 24/26] fix: a missing vote counted as impossible under the
 uniform density

---
 sureal/tools/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index e38d6d8..bfaf8d1 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -101,6 +101,9 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     0.0
     """
     z = x - loc1 - loc2
+    if np.isnan(z):
+        return float('nan')  # a missing value has no density (rather than density zero)
+
     d = abs(s1 - s2)
     s = s1 + s2
     h = 2. / (d + s)
-- 
2.43.0


From 3ece739ca3b1fc847bc07568ac60740d18d79cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:25 +0000
Subject: [PATCH 25/26] fix: persist_to_file keeps its cached results apart
 from the returned ones

---
 sureal/tools/decorator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index 524e627..718f952 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import json
 import hashlib
@@ -40,7 +41,7 @@ def persist_to_file(file_name):
                 res = original_func(*args)
                 _dump_json(dict(cache, **{h: res}), file_name)
                 cache[h] = res
-            return cache[h]
+            return copy.deepcopy(cache[h])  # the caller may edit its result
 
         return new_func
 
-- 
2.43.0


From 2c5d78c38ddf36016f7fd539d59f709729a09d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:10 +0000
Subject: [PATCH 26/26] fix: a dataset with an undefined or infinite attribute
 could not be loaded after writing

---
 sureal/dataset_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index f1706cc..a470308 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -104,7 +104,7 @@ class DatasetReader(object):
             for key in dataset.__dict__.keys():
                 if key != 'ref_videos' and key != 'dis_videos' \
                         and key != 'subjects' and not key.startswith('__'):
-                    output_file.write('{} = '.format(key) + repr(
+                    output_file.write('{} = '.format(key) + DatasetPrettyPrinter().pformat(
                         dataset.__dict__[key]) + '\n')
             output_file.write('\n')
             output_file.write('ref_videos = ' + DatasetPrettyPrinter().pformat(
@@ -114,11 +114,11 @@ class DatasetReader(object):
                 dataset.dis_videos) + '\n')
             if 'subjects' in dataset.__dict__.keys():
                 output_file.write('\n')
-                output_file.write('subjects = ' + pprint.pformat(
+                output_file.write('subjects = ' + DatasetPrettyPrinter().pformat(
                     dataset.subjects) + '\n')
             if 'license' in dataset.__dict__.keys():
                 output_file.write('\n')
-                output_file.write('license = ' + pprint.pformat(
+                output_file.write('license = ' + DatasetPrettyPrinter().pformat(
                     dataset.license) + '\n')
 
 
-- 
2.43.0

