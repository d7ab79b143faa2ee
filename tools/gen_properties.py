#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where properties are edited)."""
import json, os
P = []
SM, DR, PC, RT = 'sureal/subjective_model.py', 'sureal/dataset_reader.py', 'sureal/pc_subjective_model.py', 'sureal/routine.py'
MISC, DECO, STAT, PERF = 'sureal/tools/misc.py', 'sureal/tools/decorator.py', 'sureal/tools/stats.py', 'sureal/perf_metric.py'

def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = [observe]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

FIX = 'The tests run a few fixed datasets and pin a handful of output numbers to 4 decimals; '

p('P01', 'Every recorded vote is read once, at its own place, and nothing else is',
  "For any rating dataset (votes per video as list, tuple or name-keyed dictionary, with missing and repeated votes), the table of opinion scores that the models work on has the recorded vote at every (video, observer, repetition) and is empty everywhere else. Observers are the list positions, or the distinct names in sorted order; the reported numbers of videos, observers and repetitions and the video/content facts match the dataset. A dataset whose videos have no votes field, lists of different length, or a content id without reference video is refused.",
  ['inputs'], 'all datasets: every style, missing pattern, repetition pattern, observer naming and video order',
  FIX + 'none enumerates vote layouts (ragged repetitions, sparse panels, unusual names).',
  [DR], [('vote table', 'RawDatasetReader.opinion_score_3darray'), ('dataset checks', 'DatasetReader._assert_dataset, RawDatasetReader._assert_dataset')], 'RawDatasetReader(dataset).opinion_score_3darray and count properties')
p('P02', 'MOS is the mean of a video\'s own votes, with its standard error',
  "For every rating dataset, the MOS of a video is the mean of all votes cast on it (every observer, every repetition, missing votes ignored), its ambiguity is the sample standard deviation of those votes, its standard deviation is that divided by the square root of their number, and the 95% half-widths are 1.95996 times it. Votes on other videos never influence it.",
  ['inputs'], 'all rating datasets (any numbers of videos, observers, repetitions, missing votes, score values)',
  FIX + 'the mean over repetitions, missing votes and unequal vote counts is sampled on three files only.',
  [SM], [('MOS and statistics', 'MosModel._get_mos_and_stats'), ('repetition stacking', 'SubjectiveModel._stack_repetitions_along_axis')], 'MosModel.run_modeling()')
p('P03', 'Differential scoring offsets each video by its own reference\'s mean',
  "With differential scoring (DMOS, and the subject-screened and likelihood-based differential models), every vote on a video is offset by the maximum score minus the mean vote of the one reference video of the same content, before any further processing; so the DMOS of a video is its MOS plus the maximum score minus its reference's MOS, and a reference itself scores the maximum. Spread statistics are those of the plain MOS, and a content whose reference is absent or duplicated among the rated videos is refused.",
  ['inputs'], 'all rating datasets with references among the rated videos: every content assignment, order and vote pattern',
  FIX + 'the reference look-up is exercised for two content layouts.',
  [SM, DR], [('differential offset', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing'), ('reference look-up', 'SubjectiveModel._get_ref_mos'), ('reference detection', 'DatasetReader.disvideo_is_refvideo')], 'DmosModel, SubjrejDmosModel, MaximumLikelihoodEstimationDmosModel results')
p('P04', 'Z-scoring standardises every observer; LIVE DMOS is its rescaled mean',
  "With z-scoring, every observer's votes are shifted and scaled to zero mean and unit sample standard deviation over all votes of that observer (missing ignored, repetitions included), and scores are means of the standardised votes, combined with differential scoring and screening in that fixed order. The LIVE differential score is 100/6 times (3 plus the mean standardised differential vote).",
  ['inputs', 'configurations'], 'all rating datasets in which each observer has at least two different votes; every model that z-scores',
  FIX + 'z-scoring with missing votes, repetitions and its combinations are sampled once or not at all.',
  [SM], [('z-scoring', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing'), ('LIVE DMOS', 'LiveDmosModel._run_modeling')], 'ZscoringMosModel, ZscoringSubjrejMosModel, ZscoringSubjrejDmosModel, LiveDmosModel results')
p('P05', 'BT.500 screening rejects exactly the observers the standard rejects',
  "For every rating dataset, the screened MOS models reject exactly the observers for whom ITU-R BT.500 kurtosis screening says so: per video the population mean, deviation and kurtosis of all its votes select a threshold of 2 (kurtosis within 2 to 4) or root-20 deviations; an observer is rejected when more than 5% of the (video, repetition) slots are at or beyond it and their high/low imbalance is below 0.3. The two reported statistics are those ratios; scores, deviations and intervals are the MOS statistics of the remaining observers, and if all would be rejected none is.",
  ['inputs'], 'all rating datasets, including missing votes, repetitions, unanimous videos and extreme observers',
  FIX + 'the rejection rule is reached with two datasets and never near its thresholds.',
  [SM, 'sureal/__init__.py'], [('kurtosis screening', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing'), ('screened models', 'SubjrejMosModel, BT500Model')], 'SR_MOS / BT500 / P913 results: observer_rejected and statistics')
p('P06', 'P.913 bias removal: subtract each observer\'s mean deviation from the MOS',
  "For every rating dataset, the bias of an observer is the mean, over all votes of that observer, of the vote minus the mean vote of that video; bias-removed scores are the MOS statistics of the votes after subtracting the observer's bias, and the P.913 model screens observers only after that subtraction. The reported biases are those values, one per observer, also for rejected observers.",
  ['inputs'], 'all rating datasets, including missing votes and repetitions',
  FIX + 'bias removal with incomplete panels or repetitions is not compared against a reference.',
  [SM, 'sureal/__init__.py'], [('bias offset', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing'), ('models', 'BiasremvMosModel, BiasremvSubjrejMosModel, P913124Model')], 'BR_MOS, BR_SR_MOS, P913 results')
p('P07', 'Correlation screening rejects observers at or below the threshold',
  "The Pearson and Spearman screening models correlate each observer's repetition-averaged votes with the mean over observers on the videos that observer rated, and reject exactly the observers whose correlation is at or below the smaller of 0.7 and the mean minus the population standard deviation of all correlations. Reported statistics are these correlations, scores are the MOS statistics of the remaining votes (after bias removal where the model has it), and undefined correlations reject nobody.",
  ['inputs'], 'all rating datasets with at least two videos per observer',
  FIX + 'one dataset each; ties, missing votes, repetitions and the 0.7 cap are not covered.',
  [SM], [('correlation screening', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing'), ('models', 'SubjrejMosModelPearson, SubjrejMosModelSpearman, BiasremvSubjrejMosModelPearson, BiasremvSubjrejMosModelSpearman')], 'SR_MOS_PCC, SR_MOS_SRCC, BR_SR_MOS_PCC, BR_SR_MOS_SRCC results')
p('P08', 'P.910 scores are the fixed point of the standard\'s alternating projection',
  "For every rating dataset, the P.910 estimates are a fixed point of the standard's iteration started at the MOS: quality is the inconsistency-weighted mean of bias-removed votes, bias the mean residue per observer, inconsistency the residue's deviation per observer, with zero-mean bias (unless disabled, which only moves a common offset from bias to quality). The standard deviations and 95% intervals of quality, bias and inconsistency follow from the estimated variances and vote counts by the published formulas, for both published variants of the quality interval.",
  ['inputs', 'configurations'], 'all rating datasets (missing votes, repetitions, equal or unequal observers), both interval variants, zero-mean option',
  FIX + 'the iteration is pinned on three datasets, none with ragged repetitions.',
  [SM, 'sureal/__init__.py'], [('iteration', 'SubjectMLEModelProjectionSolver._run_modeling'), ('variants', 'SubjectMLEModelProjectionSolver2, SubjectMLEModelProjectionSolverAltSubjStdMixin'), ('weighted mean', 'sureal/tools/misc.py weighed_nanmean_2d')], 'P910 / MLE_CO_AP / MLE_CO_AP2 results')
p('P09', 'Likelihood-based estimates are stationary points with matching intervals',
  "For every rating dataset on which the iteration converges, the estimates of the maximum-likelihood models (full, content-oblivious, subject-oblivious, differential) make the Gaussian log-likelihood of the votes stationary in every quality, bias, inconsistency and ambiguity parameter that the model has, and the analytic and numeric gradient options reach the same estimates. Parameters a model switches off are zero and unreported, bias is zero-mean unless disabled, and the reported deviations and 95% intervals follow from the curvature of that likelihood and the vote counts.",
  ['inputs', 'configurations'], 'all rating datasets on which the iteration converges to an interior point; the three variants, the gradient options, the zero-mean option',
  FIX + 'gradient options are compared on one dataset; optimality itself is never checked.',
  [SM], [('belief propagation', 'MaximumLikelihoodEstimationModel._run_modeling'), ('likelihood', 'MaximumLikelihoodEstimationModel.loglikelihood_fcn'), ('earlier implementation', 'LegacyMaximumLikelihoodEstimationModel._run_modeling')], 'MLE, MLE_CO, MLE_SO, DMOS_MLE, MLE_legacy results')
p('P10', 'Results follow the videos and observers, not their order, names or spelling',
  "For every rating model and dataset, reordering or renumbering the videos, reordering or renaming the observers, renumbering contents, changing paths, or writing the same votes in another style (list, tuple, dictionary; scalar or one-element repetition; explicit or absent missing vote; integer or float) changes no estimate: each video, observer and content keeps its score, bias, rejection, inconsistency and ambiguity.",
  ['inputs', 'configurations'], 'all rating models x all datasets x all permutations and representations',
  'The tests never compare two presentations of the same experiment.',
  [SM, DR], [('preprocessing', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing'), ('vote table', 'RawDatasetReader.opinion_score_3darray'), ('content sums', 'MaximumLikelihoodEstimationModel._run_modeling')], 'run_modeling() results of two presentations of one experiment')
p('P11', 'Scores move with the rating scale: shift, stretch and mirror',
  "Adding a constant to all votes adds it to every absolute quality score and leaves biases, spreads, intervals and rejections unchanged; multiplying all votes by a positive factor multiplies scores, biases, spreads and intervals by it and leaves rejections unchanged; adding a constant to one observer's votes on a complete panel changes, in bias-aware models, only that observer's bias relative to the others and a common offset of the quality scores.",
  ['inputs', 'configurations'], 'all rating models x all datasets x all shifts and positive scale factors',
  'The tests never relate runs on transformed votes.',
  [SM], [('all rating models', 'SubjectiveModel subclasses')], 'run_modeling() results on transformed votes')
p('P12', 'Fit statistics (dof, likelihood, AIC, BIC, reconstruction) are what they say',
  "For every rating model that reports them, reconstructions are the modelled votes (quality, plus observer bias where modelled), the log-likelihood is the mean log-density (Gaussian, or the requested logistic or uniform one) of the processed, non-missing votes under the reported parameters, degrees of freedom are the model's parameter count per original vote, and AIC and BIC per vote follow from these; reported reconstruction error and correlations compare exactly the non-missing processed votes with their reconstructions.",
  ['inputs', 'configurations'], 'all reporting models x all datasets with missing votes and repetitions',
  FIX + 'with rejected observers, missing votes or repetitions the normalisation is not checked.',
  [SM, RT], [('MOS family', 'MosModel._get_mos_and_stats, _get_dof'), ('likelihood family', 'MaximumLikelihoodEstimationModel._run_modeling, _get_dof'), ('projection', 'SubjectMLEModelProjectionSolver'), ('reconstruction statistics', 'run_subjective_models')], 'result keys dof, loglikelihood, aic, bic, reconstructions, reconstruction_stats')
p('P13', 'Least squares solves the additive model; exact data is recovered exactly',
  "On a complete panel the least-squares model returns quality and bias that minimise the squared error of quality plus bias, with the first video's quality equal to its MOS. When every vote is exactly a video quality plus an observer bias, the least-squares, bias-removal and projection models recover both exactly (up to one common offset), with zero residual spread.",
  ['inputs'], 'all complete single-vote panels; all exactly additive datasets',
  FIX + 'least squares has two pinned aggregates.',
  [SM], [('least squares', 'LeastSquaresModel._run_modeling'), ('bias removal', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing')], 'LS, BR_MOS, P910 results')
p('P14', 'Paired comparisons are read as complementary wins of the right pair',
  "For every paired-comparison dataset, each recorded comparison appears in the table for its observer as the win share of the listed video over the compared one and its complement in the mirrored cell, all other cells are empty, and videos may be listed in any order. Shares other than 0, 0.5 and 1, malformed keys and asset ids outside the dataset are refused, and several loaded datasets never mix.",
  ['inputs', 'histories'], 'all comparison datasets over all video orders, observers and shares; any number of datasets alive in one process',
  'The tests read one dataset in asset-id order.',
  [DR, DECO], [('comparison table', 'PairedCompDatasetReader.opinion_score_3darray'), ('memoisation', 'memoized'), ('checks', 'PairedCompDatasetReader._assert_dataset')], 'PairedCompDatasetReader(dataset).opinion_score_3darray')
p('P15', 'Paired-comparison scores maximise the likelihood of the recorded wins',
  "For every paired-comparison dataset whose win graph is strongly connected, the Bradley-Terry scores (both solvers, which agree up to a common offset) and the Thurstone scores are the unique maximisers of their model's likelihood of the win counts, one score per video in dataset order. Bradley-Terry strengths sum to one with scores their logarithms, the Newton solver fixes the last score at zero, optional z-scored output is standardised (deviations scaled alike), relabelling videos permutes the scores, and 95% half-widths are 1.95996 times the reported deviations.",
  ['inputs'], 'all strongly connected win-count matrices, fractional wins included',
  'The tests pin the scores of a few matrices.',
  [PC], [('Newton-Raphson', 'BradleyTerryNewtonRaphsonPairedCompSubjectiveModel'), ('MM iteration', 'BradleyTerryMlePairedCompSubjectiveModel.resolve_model'), ('Thurstone', 'ThurstoneMlePairedCompSubjectiveModel')], 'BT_NR, BT_MLE, THURSTONE_MLE results')
p('P16', 'Converting ratings to paired comparisons records every comparable pair once',
  "Converting a rating dataset to paired comparisons yields, for each observer and each unordered pair of videos that observer rated (of the same content, unless told across contents), exactly one comparison won by the higher-rated video, with ties split evenly or tossed. Sampling rate, coin-toss rate, noise and mean-score options (global or per video) decide only, pair by pair, whether the pair is kept, tossed or compared on perturbed scores, per-video options being those of the two videos compared; 0 and 1 are exact, a seed makes it reproducible, and the source dataset is untouched.",
  ['inputs', 'configurations', 'schedules'], 'all rating datasets x all option settings x all outcomes of the random draws',
  'The tests fix one seed and count pairs on one dataset; the random outcomes are not explored.',
  [DR], [('conversion', 'RawDatasetReader.to_pc_dataset')], 'to_pc_dataset(**options)')
p('P17', 'Exported and filtered datasets carry the right scores on the right videos',
  "The aggregated dataset made from a model has the same videos with the same metadata in the same order, each with its own quality score and deviation instead of votes; content and asset filters keep exactly the selected ones, and options override width, height and resampling type. The per-subject export has one entry per vote of each video with that vote's processed score, and loading a dataset with content or asset filters equals removing the other videos beforehand.",
  ['inputs', 'configurations'], 'all datasets x models x filter sets',
  'The tests export one dataset and spot-check single entries.',
  [DR, SM], [('aggregate', 'RawDatasetReader.to_aggregated_dataset'), ('per subject', 'RawDatasetReader.to_persubject_dataset, PerSubjectModel'), ('filters', 'SubjectiveModel._import_dataset_and_filter')], 'to_aggregated_dataset(), from_dataset_file(content_ids, asset_ids)')
p('P18', 'A written dataset file reads back as the same dataset',
  "Every dataset the package can hold or produce (rating, dictionary-style, aggregated, per-subject, paired-comparison, combined, simulated), written to a file and loaded again, has equal attributes, reference videos and rated videos, including undefined scores, unusual names, comparison keys, extra fields, subject list and licence; models give the same results on it. JSON and Python files with the same content load the same.",
  ['inputs', 'histories'], 'all datasets and chains of conversions written to file',
  'The tests write a few files and re-read a couple of values.',
  [DR, MISC], [('writer', 'DatasetReader.write_out_dataset'), ('loaders', 'import_python_file, import_json_file')], 'write_out_dataset(); load; compare')
p('P19', 'Combining datasets joins both sets of votes on the shared videos only',
  "Combining two rating datasets keeps exactly the videos whose path occurs in both, with metadata from the first, contents renumbered consistently without gaps, references of exactly these contents, and for every observer the votes of the first followed by those of the second. Neither source dataset changes, and list-style votes become dictionary votes under distinct generated names that differ between differently named datasets.",
  ['inputs', 'histories'], 'all pairs of datasets: overlaps, vote styles, shared observers, repetitions, content numberings',
  'The tests combine one pair of files.',
  [DR], [('combination', 'RawDatasetReader.to_combined_overlap_dataset'), ('dictionary style', 'RawDatasetReader.to_dictionary_style_dataset')], 'to_combined_overlap_dataset(), to_dictionary_style_dataset()')
p('P20', 'Simulation readers change only what they are asked to change',
  "Selecting observers or videos yields exactly their votes in the requested order; simulated missing data erases each vote independently with the given probability and never alters the others; corrupting observers or votes touches only the selected observers or the drawn votes, with a shuffle permuting that observer's own votes, a flip mirroring them in the dataset's score range, and constants lying within it. Synthetic votes equal quality plus observer and content bias plus noise scaled by the given inconsistency and ambiguity; out-of-range selections are refused and a seed makes results reproducible.",
  ['inputs', 'schedules', 'configurations'], 'all datasets x selections x behaviours x outcomes of the random draws',
  'The tests fix one seed and check column means of one dataset.',
  [DR], [('readers', 'SelectSubjectRawDatasetReader, SelectDisVideoRawDatasetReader, MissingDataRawDatasetReader, CorruptSubjectRawDatasetReader, CorruptDataRawDatasetReader, SyntheticRawDatasetReader, SyntheticLogisticRawDatasetReader')], 'reader.opinion_score_3darray and to_dataset()')
p('P21', 'Results depend on the dataset alone, not on what ran before',
  "In any sequence of operations on any number of datasets, readers and models in one process (reading, modelling with any options, exporting, converting, combining, editing a returned result), every operation gives what it gives in a fresh process, and no operation changes its input dataset or an earlier result.",
  ['histories'], 'all operation sequences up to a bound over several coexisting datasets, readers and models',
  'Each test runs one operation on a fresh object.',
  [SM, DR, PC, DECO], [('models', 'SubjectiveModel.run_modeling'), ('memoisation', 'memoized'), ('conversions', 'RawDatasetReader.to_*')], 'results and deep copies of inputs after each operation')
p('P22', 'A loaded dataset is what its file says now',
  "Loading a dataset file yields exactly the attributes its current content defines, whatever was loaded before from this or another path with the same base name, whatever modules exist with that name, and however quickly the file was rewritten; earlier loaded datasets stay as they were, and datasets loaded twice share no state.",
  ['histories'], 'all sequences of writing, rewriting, loading and editing files with colliding names',
  'The tests load each file once.',
  [MISC, SM, RT], [('loaders', 'import_python_file, import_json_file'), ('callers', 'SubjectiveModel.from_dataset_file, run_subjective_models')], 'attributes of the returned dataset')
p('P23', 'Persistent caches return the computed value or recompute it, even after a crash',
  "A call to a function cached in a directory or file (one function per file; JSON-representable results; arguments told apart by how they print; one process at a time) returns what the function returns for those arguments, computing it only when no result for that function and these arguments was stored. A failure or process crash at any moment of an earlier call (computing, creating, writing or publishing the stored result) never makes a later call fail or return another value, and never loses results stored before.",
  ['crash_points', 'fault_sequences', 'histories'], 'all call sequences up to a bound x all crash and error points during storing',
  'The tests store and read back once, without faults.',
  [DECO, RT], [('directory cache', 'persist_to_dir'), ('file cache', 'persist_to_file'), ('user', '_get_sample_stats_wrapper_persistent')], 'return values and number of computations')
p('P24', 'The parallel map is a map under every completion order',
  "For every function and argument collection (lists or iterators, empty or with equal items), the parallel map returns one result per argument in argument order, runs the function exactly once per argument, and never runs more than the allowed number at a time, whatever order the workers start and finish in. If the function fails for an argument, the map fails too instead of returning a list.",
  ['schedules', 'inputs'], 'all start/finish orders of up to a bounded number of workers x process limits',
  'The tests run quick jobs whose completion order is whatever the machine gives.',
  [MISC], [('parallel map', 'parallel_map')], 'returned list, executed calls, concurrent workers')
p('P25', 'Command-line and formatted output report each model\'s own results',
  "For any dataset file (Python or JSON) and list of models, the run returns one result per model in order, equal to that model run alone, labelled with the videos' paths; the formatted and written output lists every video, and every observer and content where modelled, with name and each model's score, deviation and both-sided 95% interval under that model's name. Unknown models, unknown file types and mixtures of rating and comparison models are refused, and the requested plots and only those are written.",
  ['inputs', 'configurations'], 'all model lists x datasets x flags',
  'The tests spot-check a few output entries for one dataset.',
  [RT, 'sureal/__main__.py', 'sureal/cmd_deprecated.py', 'sureal/config.py'], [('run', 'run_subjective_models'), ('format', 'format_output_of_run_subjective_models'), ('command line', 'sureal.__main__.main')], 'output.json, returned results, written figures')
p('P26', 'Plots show the reported numbers',
  "For every model list and plot selection, the raw-score images show the repetition-averaged votes (minus quality and bias where titled so), count plots show the true vote counts, and quality, bias, inconsistency, rejection and ambiguity plots show each model's reported values and 95% intervals at its position, in the given or requested sorted order, labelled with that model's name and average interval width.",
  ['inputs', 'configurations'], 'all plot selections x plot types x model lists x datasets',
  'The tests only call the plotting code.',
  [RT], [('plots', 'run_subjective_models')], 'matplotlib artists after run_subjective_models(do_plot=...)')
p('P27', 'Performance metrics equal their definitions on all inputs',
  "For every pair of equally long score lists (entries may be lists of raw scores, averaged first or by the given method), RMSE, Pearson, Spearman (average ranks for ties) and Kendall (tie-corrected) equal their definitions; unequal lengths are refused. The optional mapping replaces only the predictions, by the logistic curve over the ground truth's range widened by 0.1 each way whose offset and slope come from the least-squares fit of the predictions on the logit of the normalised truth; the ground truth is untouched.",
  ['inputs'], 'all score lists up to a bound over small alphabets with ties',
  'The tests check one pair of lists.',
  [PERF], [('metrics', 'RmsePerfMetric, PccPerfMetric, SrccPerfMetric, KendallPerfMetric'), ('mapping', 'AggrScorePerfMetric.sigmoid_adjust')], 'evaluate()')
p('P28', 'Densities, convolutions and histograms are what they claim',
  "The Gaussian and logistic densities and the density of the sum of two independent uniforms or logistics (any locations and positive scales) equal their definitions pointwise and are non-negative, and element-wise use on arrays equals single use. Histogram, distribution and counting helpers count every value once (missing ignored where stated), and the weighted mean ignores missing entries along either axis.",
  ['inputs'], 'all grids of locations, scales and points up to a bound',
  'The tests evaluate a few points at location zero.',
  [STAT, MISC], [('densities', 'vectorized_gaussian, vectorized_logistic, convolution_of_two_uniforms, ConvolveTwoPdf, vectorized_convolution_of_two_logistics'), ('helpers', 'get_cdf, get_pdf, histc, weighed_nanmean_2d')], 'function values')
p('P29', 'Bootstrapped intervals come from resampled panels around the same estimate',
  "The bootstrapping models report the same estimates as the model they extend; each half-width is the distance from the estimate to the 2.5th or 97.5th percentile of the estimates on resampled observers (quality) or resampled videos (bias, inconsistency), after aligning the common offset, for the requested number of resamples (default 30), the k-th drawn with replacement by numpy's generator seeded k; switched-off parts report no interval. Video numbering and vote style do not matter.",
  ['inputs', 'configurations'], 'all datasets x resample counts x switches, resamples decided by the harness',
  'One dataset with one seed is pinned.',
  ['sureal/experimental.py', DR], [('bootstrap', 'MaximumLikelihoodEstimationModelWithBootstrapping'), ('selection readers', 'SelectSubjectRawDatasetReader, SelectDisVideoRawDatasetReader')], 'MLE_BSTP, MLE_CO_BSTP results')
p('P30', 'Final normalisation and transform act on quality scores only, in that order',
  "For every model and dataset, requesting final normalisation yields the same quality scores standardised to zero mean and unit population deviation; requesting a polynomial transform then applies exactly the given coefficients (any subset of orders 0 to 2) to each score. All other results are unchanged, and options that repeat or contradict what a model already does are refused.",
  ['inputs', 'configurations'], 'all models x datasets x coefficient subsets x option combinations',
  'The tests try one linear transform on one model.',
  [SM], [('post-processing', 'SubjectiveModel._postprocess_model_result'), ('option checks', 'run_modeling overrides')], 'run_modeling(normalize_final, transform_final)')
p('P31', 'The standards\' reference demos and the package agree',
  "On every rating table (with missing votes and, for BT.500, repetitions) given as a CSV file, the stand-alone demonstration programs for BT.500, P.910 and P.913 print the same scores, standard deviations of the scores, observer biases and inconsistencies as the package's P.910 model gives for those votes.",
  ['inputs'], 'all rating tables (missing votes and repetitions where the demo supports them)',
  'The tests never run the demos against the package.',
  ['itur_bt500_demo/demo_bt500.py', 'itut_p910_demo/demo_p910.py', 'itut_p913_demo/demo.py', SM], [('demos', 'run_alternating_projection, demo functions')], 'demo outputs vs model results')
p('P32', 'Synthetic validation and sub-sampled statistics compare what they claim',
  "Seeded validation with synthetic data generates votes from the given parameters (erasing some with the given probability), runs the requested models on exactly those votes, writes them out if asked, and reports and draws each estimate against its true parameter and the percentage of true parameters inside the (possibly asymmetric) 95% intervals. Statistics on a fraction of the observers use the whole part of that many distinct observers, drawn without replacement by the seed, and equal running the models on those observers only.",
  ['inputs', 'configurations'], 'all parameter sets, fractions and seeds up to a bound',
  'One configuration is pinned.',
  [RT], [('validation', 'validate_with_synthetic_dataset, get_ci_percentage'), ('statistics', 'get_sample_stats')], 'returned results')
p('P33', 'A model or metric name selects exactly the one class with that name',
  "Looking up a model or metric by its type name from any base yields the unique descendant (at any depth) carrying exactly that name, and fails for unknown or ambiguous names, also after further classes were defined; every published model and metric name resolves, BT500, P913 and P910 being the screened MOS, bias-removed screened MOS and second projection models, and type/version strings are composed of exactly the two.",
  ['programs', 'inputs'], 'all class hierarchies up to a bound and all published names',
  'The tests look up one or two names.',
  ['sureal/core/mixin.py', 'sureal/__init__.py', SM], [('lookup', 'TypeVersionEnabled.find_subclass, get_subclasses_recursively')], 'find_subclass(name)')
p('P34', 'The numeric inverse undoes the function it is given, within its domain',
  "For every strictly monotone continuous function without flat spots (rising or falling, with or without extra arguments), the numeric inverse of a value is a point of the given domain (unbounded, bounded on one or both sides, open or closed) that the function maps back to the value; values at a closed end give exactly that end. Numbers and arrays of any shape give results of the same shape, directly or through the returned callable. Values outside the image (given or implied by the domain, open ends excluded), constant functions and malformed domains, images or flags are refused.",
  ['inputs', 'configurations'], 'all functions of a family x domain bounds x open/closed flags x images x values and array shapes',
  'The doctests invert five functions at a few values.',
  ['sureal/tools/inverse.py', STAT], [('inverse', 'inversefunc'), ('arguments', '_normparams_inversefunc'), ('image limits', '_auto_ymin, _auto_ymax')], 'inversefunc(f, y, domain, open_domain, image, args)')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
