"""Second set of behaviour-preserving edits: routine, metrics, look-up, bootstrap, inverse, statistics, command line, demos."""
from refactors import ref, RT, MISC, DEC, SM, DR, PC
PERF, MIX, EXPE, INV, ST, MAIN = ('sureal/perf_metric.py', 'sureal/core/mixin.py', 'sureal/experimental.py', 'sureal/tools/inverse.py', 'sureal/tools/stats.py',
                                  'sureal/__main__.py')

ref('reconstats', [(RT, """        rec_scores, raw_scores = zip(*[(rec, raw) for rec, raw in zip(rec_scores.ravel(), raw_scores.ravel())
                                 if (not np.isnan(rec) and not np.isnan(raw))])
        rmse = RmsePerfMetric(raw_scores, rec_scores).evaluate(enable_mapping=False)['score']
        cc = PccPerfMetric(raw_scores, rec_scores).evaluate(enable_mapping=False)['score']
        srocc = SrccPerfMetric(raw_scores, rec_scores).evaluate(enable_mapping=False)['score']
        return {
            'rmse': rmse,
            'cc': cc,
            'srocc': srocc,
        }
""", """        keep = ~(np.isnan(rec_scores) | np.isnan(raw_scores))
        raw_scores, rec_scores = raw_scores[keep], rec_scores[keep]
        return {
            name: metric(raw_scores, rec_scores).evaluate(enable_mapping=False)['score']
            for name, metric in (('rmse', RmsePerfMetric), ('cc', PccPerfMetric), ('srocc', SrccPerfMetric))
        }
"""), (RT, """    for result in results:
        dis_video_names = [dis_video['path'] for dis_video in dataset_reader.dis_videos]
        result['dis_video_names'] = dis_video_names

    for subjective_model, result in zip(subjective_models, results):
        if 'raw_scores' in result and 'reconstructions' in result:
""", """    for result in results:
        result['dis_video_names'] = [v['path'] for v in dataset_reader.dis_videos]
        if {'raw_scores', 'reconstructions'} <= set(result):
"""), (RT, """    if 'dataset_reader_class' in kwargs:
        dataset_reader_class = kwargs['dataset_reader_class']
    else:
        dataset_reader_class = RawDatasetReader

    if 'dataset_reader_info_dict' in kwargs:
        dataset_reader_info_dict = kwargs['dataset_reader_info_dict']
    else:
        dataset_reader_info_dict = {}

    if 'plot_type' in kwargs:
        plot_type = kwargs['plot_type']
    else:
        plot_type = 'errorbar'

    if 'ax_dict' in kwargs:
        ax_dict = kwargs['ax_dict']
        del kwargs['ax_dict']
    else:
        ax_dict = {}
""", """    dataset_reader_class = kwargs.get('dataset_reader_class', RawDatasetReader)
    dataset_reader_info_dict = kwargs.get('dataset_reader_info_dict', {})
    plot_type = kwargs.get('plot_type', 'errorbar')
    ax_dict = kwargs.pop('ax_dict', {})
""")])

ref('counts', [(RT, """        histcs = np.apply_along_axis(func1d=histc, axis=0, arr=mtx)
        datas = list()
        for ih, h in enumerate(histcs):
            data = [(ih, k, h[k]) for k in sorted(h.keys())]
            datas += data
        xs, ys, vs = zip(*datas)
        ax_rawcounts.scatter""", """        histcs = [histc(mtx[:, j]) for j in range(mtx.shape[1])]
        datas = [(ih, k, n) for ih, h in enumerate(histcs) for k, n in sorted(h.items())]
        xs = [d[0] for d in datas]
        ys = [d[1] for d in datas]
        vs = [d[2] for d in datas]
        ax_rawcounts.scatter"""), (RT, """                mtx = dataset_reader.opinion_score_3darray
                mtx = mtx - np.array(quality_scores)[:, None, None]
                mtx = mtx - np.array(observer_bias)[None, :, None]
                mtx = np.nanmean(mtx, axis=2).T
""", """                votes = np.nanmean(dataset_reader.opinion_score_3darray, axis=2).T
                mtx = votes - np.array(quality_scores)[None, :] - np.array(observer_bias)[:, None]
"""), (RT, """            if 'observer_rejected_1st_stats' in result and ax_rejected_1st_stats is not None:

                rejected = result['observer_rejected_1st_stats']

                xs = range(len(rejected))
                ax_rejected_1st_stats.bar(np.array(xs) + shift_count * bar_width, rejected,
                                width=bar_width,
                                color=colors[shift_count],
                                label=subjective_model.TYPE)
                ax_rejected_1st_stats.set_xlim([min(xs), max(xs)+1])
                ax_rejected_1st_stats.set_title(r'Subject Rejected (1st stats)')
                ax_rejected_1st_stats.legend(ncol=1, frameon=True)

            if 'observer_rejected_2nd_stats' in result and ax_rejected_2nd_stats is not None:

                rejected = result['observer_rejected_2nd_stats']

                xs = range(len(rejected))
                ax_rejected_2nd_stats.bar(np.array(xs) + shift_count * bar_width, rejected,
                                width=bar_width,
                                color=colors[shift_count],
                                label=subjective_model.TYPE)
                ax_rejected_2nd_stats.set_xlim([min(xs), max(xs)+1])
                ax_rejected_2nd_stats.set_title(r'Subject Rejected (2nd stats)')
                ax_rejected_2nd_stats.legend(ncol=1, frameon=True)
""", """            for nth, ax_stats in (('1st', ax_rejected_1st_stats), ('2nd', ax_rejected_2nd_stats)):
                key = 'observer_rejected_{}_stats'.format(nth)
                if ax_stats is None or key not in result:
                    continue
                xs = range(len(result[key]))
                ax_stats.set_title('Subject Rejected ({} stats)'.format(nth))
                ax_stats.bar([x + shift_count * bar_width for x in xs], result[key], width=bar_width,
                             color=colors[shift_count], label=subjective_model.TYPE)
                ax_stats.set_xlim([0, len(xs)])
                ax_stats.legend(ncol=1, frameon=True)
""")])

ref('format', [(RT, """    output = dict()
    for subjective_model, result in zip(subjective_models, results):
        for idx, dis_video_name in enumerate(result['dis_video_names']):
            if 'dis_video_name' in output.setdefault('dis_videos', dict()).setdefault(idx, dict()):
                assert output.setdefault('dis_videos', dict()).setdefault(idx, dict())['dis_video_name'] == dis_video_name
            else:
                output.setdefault('dis_videos', dict()).setdefault(idx, dict())['dis_video_name'] = dis_video_name
        for idx, quality_score in enumerate(result['quality_scores']):
            output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score'] = quality_score
        if result.get('quality_scores_std') is not None:
            for idx, quality_score_std in enumerate(result['quality_scores_std']):
                output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score_std'] = quality_score_std
        if 'quality_scores_ci95' in result:
            for idx, quality_score_ci95 in enumerate(list(zip(*result['quality_scores_ci95']))):
                output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score_ci95'] = quality_score_ci95

        if 'observer_bias' in result:
            if 'observers' in result:
                for idx, observer in enumerate(result['observers']):
                    if 'observer' in output.setdefault('observers', dict()).setdefault(idx, dict()):
                        assert output.setdefault('observers', dict()).setdefault(idx, dict())['observer'] == observer
                    else:
                        output.setdefault('observers', dict()).setdefault(idx, dict())['observer'] = observer
            for idx, observer_bias in enumerate(result['observer_bias']):
                output.setdefault('observers', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['observer_bias'] = observer_bias
            if 'observer_bias_std' in result:
                for idx, observer_bias_std in enumerate(result['observer_bias_std']):
                    output.setdefault('observers', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['observer_bias_std'] = observer_bias_std
            if 'observer_bias_ci95' in result:
                for idx, observer_bias_ci95 in enumerate(list(zip(*result['observer_bias_ci95']))):
                    output.setdefault('observers', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['observer_bias_ci95'] = observer_bias_ci95
            if 'observer_inconsistency' in result:
""", """    output = dict()

    def entry(group, idx):
        return output.setdefault(group, dict()).setdefault(idx, dict())

    def put(group, name, model_type, values):
        for idx, value in enumerate(values):
            entry(group, idx).setdefault('models', dict()).setdefault(model_type, dict())[name] = value

    def put_name(group, name, values):
        for idx, value in enumerate(values):
            assert entry(group, idx).setdefault(name, value) == value

    for subjective_model, result in zip(subjective_models, results):
        put_name('dis_videos', 'dis_video_name', result['dis_video_names'])
        put('dis_videos', 'quality_score', subjective_model.TYPE, result['quality_scores'])
        if result.get('quality_scores_std') is not None:
            put('dis_videos', 'quality_score_std', subjective_model.TYPE, result['quality_scores_std'])
        if 'quality_scores_ci95' in result:
            put('dis_videos', 'quality_score_ci95', subjective_model.TYPE, zip(*result['quality_scores_ci95']))

        if 'observer_bias' in result:
            if 'observers' in result:
                put_name('observers', 'observer', result['observers'])
            put('observers', 'observer_bias', subjective_model.TYPE, result['observer_bias'])
            if 'observer_bias_std' in result:
                put('observers', 'observer_bias_std', subjective_model.TYPE, result['observer_bias_std'])
            if 'observer_bias_ci95' in result:
                put('observers', 'observer_bias_ci95', subjective_model.TYPE, zip(*result['observer_bias_ci95']))
            if 'observer_inconsistency' in result:
""")])

ref('samplestats', [(RT, """            if dataset_filepath.endswith('.py'):
                dataset = import_python_file(dataset_filepath)
            elif dataset_filepath.endswith('.json'):
                dataset = import_json_file(dataset_filepath)
            else:
                raise AssertionError("Unknown input type, must be .py or .json")
            dataset_reader = RawDatasetReader(dataset, input_dict=dataset_reader_info_dict)
            num_subj = dataset_reader.num_observers
            frac_num_subj = int(num_subj * subj_fraction)
            if random_seed is not None:
                    np.random.seed(random_seed)
            selected_subjects = np.random.choice(list(range(num_subj)), size=frac_num_subj, replace=False)
            dataset_reader_info_dict_new = dataset_reader_info_dict.copy()
            dataset_reader_info_dict_new['selected_subjects'] = selected_subjects
""", """            loaders = {'.py': import_python_file, '.json': import_json_file}
            extension = os.path.splitext(dataset_filepath)[1]
            assert extension in loaders, "Unknown input type, must be .py or .json"
            num_subj = RawDatasetReader(loaders[extension](dataset_filepath)).num_observers
            if random_seed is not None:
                np.random.seed(random_seed)
            dataset_reader_info_dict_new = {
                'selected_subjects': np.random.choice(num_subj, size=math.floor(num_subj * subj_fraction), replace=False)}
"""), (RT, """    xs = synthetic_result[key]
    ys = result[key]
    ys_ci95 = np.array(result[errkey])
    ys_ci95_shape = ys_ci95.shape
    assert ys_ci95_shape[0] == 2
    assert len(xs) == len(ys) == ys_ci95_shape[1]
    ind_in_ci = [y - y_ci95_l <= x <= y + y_ci95_u for x, y, y_ci95_l, y_ci95_u in zip(xs, ys, ys_ci95[0], ys_ci95[1])]
    ci_perc = sum(ind_in_ci) / len(ind_in_ci) * 100
    return ci_perc
""", """    truth, estimate = np.asarray(synthetic_result[key]), np.asarray(result[key])
    lower, upper = np.asarray(result[errkey])
    assert len(truth) == len(estimate) == len(lower) == len(upper)
    covered = np.logical_and(estimate - lower <= truth, truth <= estimate + upper)
    return float(100 * np.count_nonzero(covered) / covered.size)
""")])

ref('metrics', [(PERF, """        rmse = np.sqrt(np.mean(np.power(np.array(groundtruths) - np.array(predictions), 2.0)))
        result = {'score': rmse}
        return result
""", """        errors = np.asarray(groundtruths) - np.asarray(predictions)
        return {'score': np.sqrt(np.mean(errors ** 2))}
"""), (PERF, """        groundtruths_ = list(map(
            lambda x: aggre_method(x) if hasattr(x, '__len__') else x,
            groundtruths))

        if enable_mapping:
            predictions_ = cls.sigmoid_adjust(predictions, groundtruths_)
        else:
            predictions_ = predictions

        return groundtruths_, predictions_
""", """        aggregated = []
        for groundtruth in groundtruths:
            if hasattr(groundtruth, '__len__'):
                groundtruth = aggre_method(groundtruth)
            aggregated.append(groundtruth)

        return aggregated, cls.sigmoid_adjust(predictions, aggregated) if enable_mapping else predictions
"""), (PERF, """        ys = list((np.array(ys) - ys_min) / (ys_max - ys_min))

        zs = -np.log(1.0 / np.array(ys).T - 1.0)
        Y_mtx = np.array((np.ones(len(ys)), zs)).T
        x_vec = np.array(xs).T
        a_b = lstsq(Y_mtx, x_vec, rcond=1)[0]
        a = a_b.item(0)
        b = a_b.item(1)
""", """        normalized = (np.array(ys) - ys_min) / (ys_max - ys_min)
        logits = -np.log(1.0 / normalized - 1.0)
        design = np.stack([np.ones_like(logits), logits], axis=1)
        (a, b), _, _, _ = lstsq(design, np.array(xs), rcond=1)
""")])

ref('mixin', [(MIX, """        matched_subclasses = []
        for subclass in cls.get_subclasses_recursively():
            if hasattr(subclass, 'TYPE') and subclass.TYPE == subclass_type:
                matched_subclasses.append(subclass)
""", """        matched_subclasses = [subclass for subclass in cls.get_subclasses_recursively()
                              if getattr(subclass, 'TYPE', None) == subclass_type]
"""), (MIX, """        subclasses = cls.__subclasses__()
        subsubclasses = []
        for subclass in subclasses:
            subsubclasses += subclass.get_subclasses_recursively()
        return subclasses + subsubclasses
""", """        found, pending = [], list(cls.__subclasses__())
        while pending:
            subclass = pending.pop(0)
            found.append(subclass)
            pending.extend(subclass.__subclasses__())
        return found
""")])

ref('bootstrap', [(EXPE, """        bootstrap_quality_scoress = np.array([r['quality_scores'] for r in bootstrap_results])
        quality_scores_ci95 = [
            np.array(result['quality_scores']) - np.percentile(bootstrap_quality_scoress, 2.5, axis=0),
            np.percentile(bootstrap_quality_scoress, 97.5, axis=0) - np.array(result['quality_scores'])
        ]
        return quality_scores_ci95
""", """        return cls._percentile_ci95(result, bootstrap_results, 'quality_scores')

    @staticmethod
    def _percentile_ci95(result, bootstrap_results, key):
        estimate = np.array(result[key])
        low, high = np.percentile([r[key] for r in bootstrap_results], [2.5, 97.5], axis=0)
        return [estimate - low, high - estimate]
"""), (EXPE, """        bootstrap_observer_biass = np.array([r['observer_bias'] for r in bootstrap_results])
        observer_bias_ci95 = [
            np.array(result['observer_bias']) - np.percentile(bootstrap_observer_biass, 2.5, axis=0),
            np.percentile(bootstrap_observer_biass, 97.5, axis=0) - np.array(result['observer_bias'])
        ]
        bootstrap_observer_inconsistencys = np.array([r['observer_inconsistency'] for r in bootstrap_results])
        observer_inconsistency_ci95 = [
            np.array(result['observer_inconsistency']) - np.percentile(bootstrap_observer_inconsistencys, 2.5, axis=0),
            np.percentile(bootstrap_observer_inconsistencys, 97.5, axis=0) - np.array(result['observer_inconsistency'])
        ]
        return observer_bias_ci95, observer_inconsistency_ci95
""", """        return tuple(cls._percentile_ci95(result, bootstrap_results, key) for key in ('observer_bias', 'observer_inconsistency'))
"""), (EXPE, """            selected_subjects = np.random.choice(range(n_subj), size=n_subj, replace=True)
""", """            selected_subjects = np.random.choice(n_subj, n_subj)
""")])

ref('inverse', [(INV, """            if (xmin_open and trend == 1) or (xmax_open and trend == -1):
                mask = yin <= ymin
            else:
                mask = yin < ymin
            if yin[mask].size > 0:
                raise ValueError("Requested values %s lower than the"
                                 " lower limit %g of the image" %
                                 (yin[mask], ymin))
""", """            lower_open = xmin_open if trend == 1 else xmax_open
            too_low = (yin < ymin) | ((yin == ymin) & lower_open)
            if too_low.any():
                raise ValueError("Requested values %s lower than the lower limit %g of the image" % (yin[too_low], ymin))
"""), (INV, """        results = yin.copy() * np.nan
""", """        results = np.full(yin.shape, np.nan)
"""), (INV, """            if xmax is not None:
                if bounded_f(xmax) == yin[j]:
                    results[j] = xmax
                    resultsmask[j] = True
                    continue
            if xmin is not None:
                if bounded_f(xmin) == yin[j]:
                    results[j] = xmin
                    resultsmask[j] = True
                    continue
""", """            ends = [end for end in (xmax, xmin) if end is not None and bounded_f(end) == yin[j]]
            if ends:
                results[j], resultsmask[j] = ends[0], True
                continue
""")])

ref('stats', [(ST, """    dd = dict()
    for x in series:
        if np.isnan(x):
            continue
        dd.setdefault(x, 0)
        dd[x] += 1
    return dd""", """    counts = dict()
    for value in series:
        if not np.isnan(value):
            counts[value] = counts.get(value, 0) + 1
    return counts"""), (ST, """    cdf = np.cumsum(counts)
    cdf = cdf / float(cdf[-1]) # normalize
    bin_edges = bin_edges[1:] # make size
    return cdf, bin_edges
""", """    return np.cumsum(counts) / float(np.sum(counts)), bin_edges[1:]
"""), (ST, """    return np.vectorize(convolution_of_two_uniforms)(xs, locs1, scales1, locs2, scales2)
""", """    return np.vectorize(convolution_of_two_uniforms, otypes=[float])(xs, locs1, scales1, locs2, scales2)
""")])

ref('main', [(MAIN, """    ModelClasses = list()
    for model in models:
        ModelClass = SubjectiveModel.find_subclass(model)
        ModelClasses.append(ModelClass)
""", """    ModelClasses = [SubjectiveModel.find_subclass(model) for model in models]
"""), (MAIN, """        superclasses = ModelClass.__mro__
        return SubjectiveModel in superclasses and PairedCompSubjectiveModel not in superclasses
""", """        return issubclass(ModelClass, SubjectiveModel) and not issubclass(ModelClass, PairedCompSubjectiveModel)
"""), (MAIN, """        os.makedirs(output_dir, exist_ok=True)
        with open(os.path.join(output_dir, 'output.json'), 'w') as fp:
            json.dump(output, fp, indent=4)
""", """        if not os.path.isdir(output_dir):
            os.makedirs(output_dir)
        json_output = json.dumps(output, indent=4)
        with open(os.path.join(output_dir, 'output.json'), 'w') as fp:
            fp.write(json_output)
""")])

ref('itut_p910_demo', [('itut_p910_demo/demo_p910.py', """        b_ji = o_ji - np.tile(psi_j, (I, 1)).T
        # mean marginalized over j:
        b_i = np.nanmean(b_ji, axis=0)
""", """        b_i = np.nanmean(o_ji - psi_j[:, None], axis=0)
"""), ('itut_p910_demo/demo_p910.py', """        r_ji = o_ji - np.tile(psi_j, (I, 1)).T - np.tile(b_i, (J, 1))
""", """        r_ji = o_ji - (psi_j[:, None] + b_i[None, :])
""")])

ref('itut_p913_demo', [('itut_p913_demo/demo.py', """        b_ji = o_ji - np.tile(psi_j, (I, 1)).T
        # mean marginalized over j:
        b_i = np.nanmean(b_ji, axis=0)
""", """        b_i = np.nanmean(o_ji - psi_j[:, None], axis=0)
"""), ('itut_p913_demo/demo.py', """        r_ji = o_ji - np.tile(psi_j, (I, 1)).T - np.tile(b_i, (J, 1))
""", """        r_ji = o_ji - (psi_j[:, None] + b_i[None, :])
""")])

