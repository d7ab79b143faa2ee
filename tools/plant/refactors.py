"""Behaviour-preserving edits of many kinds (helpers extracted, loops rewritten, statements reordered); every check must stay quiet on them."""
SM, DR, PC, RT = 'sureal/subjective_model.py', 'sureal/dataset_reader.py', 'sureal/pc_subjective_model.py', 'sureal/routine.py'
MISC, DEC = 'sureal/tools/misc.py', 'sureal/tools/decorator.py'
R = []


def ref(id, edits, checks=None):
    R.append(dict(id=id, edits=edits, checks=checks))


ref('stack', [(SM, """        if axis == 0:
            o = np.zeros([R * E, S])

            for r in range(R):
                o[r * E:(r + 1) * E, :] = s_esr[:, :, r]

        elif axis == 1:
            o = np.zeros([E, R * S])

            for r in range(R):
                o[:, r * S:(r + 1) * S] = s_esr[:, :, r]

        else:
            assert False

        return o
""", """        assert axis in (0, 1)
        return np.concatenate([s_esr[:, :, r] for r in range(R)], axis=axis)
""")])

ref('refmos', [(SM, """        ref_mos = []
        for dis_video in dataset_reader.dis_videos:
            # get the dis video's ref video's mos
            curr_content_id = dis_video['content_id']
            ref_indices = indices(
                list(zip(dataset_reader.content_id_of_dis_videos,
                    dataset_reader.disvideo_is_refvideo)),
                lambda content_id_is_refvideo:
                content_id_is_refvideo[1] and content_id_is_refvideo[0] == curr_content_id
            )
            assert len(ref_indices) == 1, \\
                'Should have only one ref video for a dis video, ' \\
                'but got {}'.format(len(ref_indices))
            ref_idx = ref_indices[0]

            ref_mos.append(mos[ref_idx])
        return np.array(ref_mos)
""", """        by_content = {}
        for i, (cid, is_ref) in enumerate(zip(dataset_reader.content_id_of_dis_videos, dataset_reader.disvideo_is_refvideo)):
            if is_ref:
                by_content.setdefault(cid, []).append(i)
        out = np.zeros(dataset_reader.num_dis_videos)
        for k, cid in enumerate(dataset_reader.content_id_of_dis_videos):
            found = by_content.get(cid, [])
            assert len(found) == 1, 'Should have only one ref video for a dis video, but got {}'.format(len(found))
            out[k] = mos[found[0]]
        return out
""")])

ref('preprocess', [(SM, """            E, S, R = s_esr.shape
            s_e = np.nanmean(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=1), axis=1)  # mean along s
            s_e_ref = SubjectiveModel._get_ref_mos(dataset_reader, s_e)
            s_esr = s_esr + dataset_reader.ref_score - np.tile(s_e_ref, (S, 1)).T[:, :, None]
""", """            s_e_ref = SubjectiveModel._get_ref_mos(dataset_reader, np.nanmean(s_esr, axis=(1, 2)))
            s_esr = s_esr + (dataset_reader.ref_score - s_e_ref)[:, None, None]
"""), (SM, """            E, S, R = s_esr.shape
            mu_s = np.nanmean(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=0), axis=0)  # mean along e
            simga_s = np.nanstd(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=0), ddof=1, axis=0)  # std along e
            s_esr = (s_esr - np.tile(mu_s, (E, 1))[:, :, None]) / np.tile(simga_s, (E, 1))[:, :, None]
""", """            sigma_s = np.nanstd(s_esr, axis=(0, 2), ddof=1)
            mu_s = np.nanmean(s_esr, axis=(0, 2))
            s_esr = (s_esr - mu_s[None, :, None]) / sigma_s[None, :, None]
"""), (SM, """            delta_es = s_esr - np.tile(s_e, (S, 1)).T[:, :, None]
            delta_s = np.nanmean(SubjectiveModel._stack_repetitions_along_axis(delta_es, axis=0), axis=0)  # mean along e

            # remove bias from opinion scores
            s_esr = s_esr - np.tile(delta_s, (E, 1))[:, :, None]
""", """            delta_s = np.array([np.nanmean(s_esr[:, s, :] - s_e[:, None]) for s in range(S)])
            s_esr = s_esr - delta_s[:, None]
""")])

ref('kurtosis', [(SM, """                    if 2 <= kurt and kurt <= 4:
                        for idx_s, s in enumerate(s_e):
                            if not np.isnan(s):
                                if s >= mu + 2 * sigma:
                                    ps[np.mod(idx_s, S)] += 1  # mod to assign repetitions to the correct subject
                                if s <= mu - 2 * sigma:
                                    qs[np.mod(idx_s, S)] += 1
                    else:
                        for idx_s, s in enumerate(s_e):
                            if not np.isnan(s):
                                if s >= mu + np.sqrt(20) * sigma:
                                    ps[np.mod(idx_s, S)] += 1
                                if s <= mu - np.sqrt(20) * sigma:
                                    qs[np.mod(idx_s, S)] += 1
""", """                    factor = 2 if 2 <= kurt <= 4 else np.sqrt(20)
                    votes = s_e.reshape(R, S)
                    ps += np.sum(votes >= mu + factor * sigma, axis=0)
                    qs += np.sum(votes <= mu - factor * sigma, axis=0)
"""), (SM, """                rejections = []
                acceptions = []
                reject_1st_stats = []
                reject_2nd_stats = []
                for idx_s, subject in zip(list(range(S)), list(range(S))):
                    reject_1st_stat = (ps[idx_s] + qs[idx_s]) / (E * R)
                    reject_2nd_stat = np.abs((ps[idx_s] - qs[idx_s]) / (ps[idx_s] + qs[idx_s]))
                    reject_1st_stats.append(reject_1st_stat)
                    reject_2nd_stats.append(reject_2nd_stat)
                    if reject_1st_stat > 0.05 and reject_2nd_stat < 0.3:
                        rejections.append(subject)
                    else:
                        acceptions.append(subject)

                # if all of the subjects would be rejected, none will
                if len(rejections) == S:
                    for idx_rej in range(S):
                        acceptions.append(rejections[idx_rej])
                    rejections = []

                s_esr = s_esr[:, acceptions, :]

                observer_rejected = [False for _ in range(S)]
                for rejection_idx in rejections:
                    observer_rejected[rejection_idx] = True
""", """                total = ps + qs
                reject_1st_stats = list(total / (E * R))
                reject_2nd_stats = list(np.abs((ps - qs) / total))
                observer_rejected = [bool(a > 0.05 and b < 0.3) for a, b in zip(reject_1st_stats, reject_2nd_stats)]
                if all(observer_rejected):
                    observer_rejected = [False] * S
                s_esr = s_esr[:, [i for i in range(S) if not observer_rejected[i]], :]
""")])

ref('correlation', [(SM, """                # find the rejection threshold
                if (np.mean(r) - np.std(r)) > 0.7:
                    rejection_thr = 0.7
                else:
                    rejection_thr = np.mean(r) - np.std(r)
""", """                # find the rejection threshold
                rejection_thr = np.minimum(np.mean(r) - np.std(r), 0.7)
"""), (SM, """                for obs_idx in range(np.size(s_es,1)):
                    nans = np.isnan(s_es[:, obs_idx])
                    if subject_rejection_type == 'pearson':
                        r[obs_idx], _ = stats.pearsonr(s_es[:, obs_idx][~nans], mos[~nans])
                    elif subject_rejection_type == 'spearman':
                        r[obs_idx], _ = stats.spearmanr(s_es[:, obs_idx][~nans], mos[~nans])
                    else:
                        assert False
""", """                correlate = {'pearson': stats.pearsonr, 'spearman': stats.spearmanr}[subject_rejection_type]
                for obs_idx, column in enumerate(s_es.T):
                    there = ~np.isnan(column)
                    r[obs_idx] = correlate(column[there], mos[there])[0]
""")])

ref('mosstats', [(SM, """        mos = np.nanmean(MosModel._stack_repetitions_along_axis(os_3darray, axis=1), axis=1)  # mean along s, ignore NaN
        std = np.nanstd(MosModel._stack_repetitions_along_axis(os_3darray, axis=1), axis=1, ddof=1)  # sample std -- use ddof 1
        mos_std = std / np.sqrt(
            np.nansum(~np.isnan(MosModel._stack_repetitions_along_axis(os_3darray, axis=1)), axis=1)
        )  # std / sqrt(N), ignoring NaN
""", """        flat = os_3darray.reshape(os_3darray.shape[0], -1)
        n = np.count_nonzero(~np.isnan(flat), axis=1)
        mos = np.nansum(flat, axis=1) / n
        std = np.sqrt(np.nansum((flat - mos[:, None]) ** 2, axis=1) / np.where(n > 1, n - 1, np.nan))
        mos_std = std * n ** -0.5
"""), (SM, """        x_esr_hat = np.zeros([len(x_e), S, R])
        for r in range(R):
            x_esr_hat[:, :, r] = np.tile(x_e, (S, 1)).T
        return x_esr_hat
""", """        return np.repeat(np.repeat(np.asarray(x_e)[:, None, None], S, axis=1), R, axis=2)
"""), (SM, """        aic = 2 * dof - 2 * loglikelihood  # aic per observation
        result['aic'] = aic

        bic = np.log(original_num_os) * dof - 2 * loglikelihood  # bic per observation
        result['bic'] = bic

        return result

    @classmethod
    def _get_reconstructions(cls, x_e, S, R):
""", """        result['bic'] = dof * np.log(original_num_os) - 2 * loglikelihood
        result['aic'] = 2 * (dof - loglikelihood)

        return result

    @classmethod
    def _get_reconstructions(cls, x_e, S, R):
""")])

ref('ls', [(SM, """        A = np.zeros([num_video * num_subject, num_video + num_subject])
        for idx_video in range(num_video):
            for idx_subject in range(num_subject):
                cur_row = idx_video * num_subject + idx_subject
                A[cur_row][idx_subject] = 1.0
                A[cur_row][num_subject + idx_video] = 1.0
        y = np.array(score_mtx.ravel())
""", """        A = np.hstack([np.tile(np.eye(num_subject), (num_video, 1)),
                       np.repeat(np.eye(num_video), num_subject, axis=0)])
        y = score_mtx.flatten()
""")])

ref('mle', [(SM, """            sums = np.zeros(num_c)
            for x, cid in zip(xs, cids):
                sums[cid] += x
            return sums
""", """            return np.bincount(np.asarray(cids), weights=np.asarray(xs, dtype=float), minlength=num_c)
"""), (SM, """        result = {
            'raw_scores': x_esr,

            'quality_scores': list(x_e),
            'quality_scores_std': list(x_e_std),
            'quality_scores_ci95': [list(1.95996 * x_e_std),
                                    list(1.95996 * x_e_std)],
            'num_iter': itr,
        }
""", """        half_width = 1.95996 * x_e_std
        result = dict(num_iter=itr, raw_scores=x_esr)
        result.update(quality_scores_ci95=[list(half_width), list(half_width)], quality_scores_std=list(x_e_std))
        result['quality_scores'] = list(x_e)
"""), (SM, """        try:
            observers = dataset_reader._get_list_observers()  # may not exist
            result['observers'] = observers
        except AssertionError:
            pass

        result['reconstructions'] = cls._get_reconstructions(x_esr, x_e, b_s)
""", """        result['reconstructions'] = cls._get_reconstructions(x_esr, x_e, b_s)
        try:
            result['observers'] = dataset_reader._get_list_observers()
        except AssertionError:
            pass
""")])

ref('p910', [(SM, """            # subject by subject, estimate subject inconsistency by averaging the residue over stimuli
            r_jir = x_jir - np.tile(s_j, (I, 1)).T[:, :, None] - np.tile(b_i, (J, 1))[:, :, None]
            v_i = np.nanstd(SubjectiveModel._stack_repetitions_along_axis(r_jir, axis=0), axis=0)
            v_j = np.nanstd(SubjectiveModel._stack_repetitions_along_axis(r_jir, axis=1), axis=1)
""", """            # subject by subject, estimate subject inconsistency by averaging the residue over stimuli
            r_jir = x_jir - s_j[:, None, None] - b_i[None, :, None]
            v_j = np.nanstd(r_jir, axis=(1, 2))
            v_i = np.nanstd(r_jir, axis=(0, 2))
"""), (MISC, """    dim0, dim1 = a.shape
    if axis == 0:
        return np.divide(
            np.nansum(np.multiply(a,            np.tile(weights, (dim1, 1)).T), axis=0),
            np.nansum(np.multiply(~np.isnan(a), np.tile(weights, (dim1, 1)).T), axis=0)
        )
    elif axis == 1:
        return np.divide(
            np.nansum(np.multiply(a,            np.tile(weights, (dim0, 1))), axis=1),
            np.nansum(np.multiply(~np.isnan(a), np.tile(weights, (dim0, 1))), axis=1),
        )
    else:
        assert False
""", """    w = np.asarray(weights, dtype=float)
    w = w[:, None] if axis == 0 else w[None, :]
    w = np.broadcast_to(w, a.shape)
    return np.nansum(a * w, axis=axis) / np.nansum(w * ~np.isnan(a), axis=axis)
""")])

ref('reader', [(DR, """        max_reps = 1
        if (
                    isinstance(self.dis_videos[0]['os'], list) or
                    isinstance(self.dis_videos[0]['os'], tuple)
        ):
            for dis_video in self.dis_videos:
                for idx_obs in range(self._get_num_observers()):
                    scores = dis_video['os'][idx_obs]
                    if isinstance(scores, list) or isinstance(scores, tuple):
                        if len(scores) > max_reps:
                            max_reps = len(scores)

        elif isinstance(self.dis_videos[0]['os'], dict):
            for dis_video in self.dis_videos:
                list_observers = dis_video['os'].keys()

                for observer in list_observers:
                    scores = dis_video['os'][observer]
                    if isinstance(scores, list) or isinstance(scores, tuple):
                        if len(scores) > max_reps:
                            max_reps = len(scores)
        else:
            assert False, ''

        return max_reps
""", """        def votes(os):
            return os.values() if isinstance(os, dict) else os

        return max([1] + [len(scores) for dis_video in self.dis_videos for scores in votes(dis_video['os'])
                          if isinstance(scores, (list, tuple))])
"""), (DR, """            for i_dis_video, dis_video in enumerate(self.dis_videos):
                for i_observer in range(self._get_num_observers()):
                    if isinstance(dis_video['os'][i_observer], list) or isinstance(dis_video['os'][i_observer], tuple):
                        reps = len(dis_video['os'][i_observer])
                    else:
                        reps = 1
                    score_mtx[i_dis_video, i_observer, :reps] = dis_video['os'][i_observer]
""", """            for i_dis_video, dis_video in enumerate(self.dis_videos):
                for i_observer, scores in enumerate(dis_video['os']):
                    if not isinstance(scores, (list, tuple)):
                        scores = [scores]
                    for rep, score in enumerate(scores):
                        score_mtx[i_dis_video, i_observer, rep] = score
"""), (DR, """            list_observers = self._get_list_observers()
            for i_dis_video, dis_video in enumerate(self.dis_videos):
                for i_observer, observer in enumerate(list_observers):
                    if observer in dis_video['os']:
                        if isinstance(dis_video['os'][observer], list) or isinstance(dis_video['os'][observer], tuple):
                            reps = len(dis_video['os'][observer])
                        else:
                            reps = 1
                        score_mtx[i_dis_video, i_observer, :reps] = dis_video['os'][observer]
""", """            index = {observer: i for i, observer in enumerate(self._get_list_observers())}
            for row, dis_video in zip(score_mtx, self.dis_videos):
                for observer, scores in dis_video['os'].items():
                    reps = len(scores) if isinstance(scores, (list, tuple)) else 1
                    row[index[observer], :reps] = scores
"""), (DR, """        list_observers = []
        for dis_video in self.dis_videos:
            list_observers += dis_video['os'].keys()

        return get_unique_sorted_list(list_observers)

    def _get_max""", """        observers = set()
        for dis_video in self.dis_videos:
            observers.update(dis_video['os'])
        return sorted(observers)

    def _get_max"""), (DR, """        d = {}
        for ref_video in self.dataset.ref_videos:
            d[ref_video['content_id']] = ref_video
        return d
""", """        return dict((ref_video['content_id'], ref_video) for ref_video in self.dataset.ref_videos)
"""), (DR, """        return list(map(lambda dis_video: dis_video['content_id'], self.dis_videos))
""", """        return [dis_video['content_id'] for dis_video in self.dis_videos]
""")])

ref('writer', [(DR, """        with open(output_dataset_filepath, 'wt') as output_file:
            for key in dataset.__dict__.keys():
                if key != 'ref_videos' and key != 'dis_videos' \\
                        and key != 'subjects' and not key.startswith('__'):
                    output_file.write('{} = '.format(key) + repr(
                        dataset.__dict__[key]) + '\\n')
            output_file.write('\\n')
            output_file.write('ref_videos = ' + DatasetPrettyPrinter().pformat(
                dataset.ref_videos) + '\\n')
            output_file.write('\\n')
            output_file.write('dis_videos = ' + DatasetPrettyPrinter().pformat(
                dataset.dis_videos) + '\\n')
            if 'subjects' in dataset.__dict__.keys():
                output_file.write('\\n')
                output_file.write('subjects = ' + pprint.pformat(
                    dataset.subjects) + '\\n')
            if 'license' in dataset.__dict__.keys():
                output_file.write('\\n')
                output_file.write('license = ' + pprint.pformat(
                    dataset.license) + '\\n')
""", """        fields = vars(dataset)
        lines = []
        for key, value in fields.items():
            if key in ('ref_videos', 'dis_videos', 'subjects', 'license') or key.startswith('__'):
                continue
            lines.append('{} = {!r}'.format(key, value))
        printer = DatasetPrettyPrinter()
        for key in ('ref_videos', 'dis_videos', 'subjects', 'license'):
            if key in fields or key.endswith('videos'):
                lines += ['', '{} = {}'.format(key, printer.pformat(getattr(dataset, key)))]
        with open(output_dataset_filepath, 'wt') as output_file:
            output_file.write('\\n'.join(lines) + '\\n')
""")])

ref('aggregate', [(DR, """        if 'aggregate_content_ids' in kwargs and kwargs['aggregate_content_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['content_id'] in kwargs['aggregate_content_ids'], dis_videos))

        if 'aggregate_asset_ids' in kwargs and kwargs['aggregate_asset_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['asset_id'] in kwargs['aggregate_asset_ids'], dis_videos))

        newone.dis_videos = dis_videos
""", """        for field, option in (('asset_id', 'aggregate_asset_ids'), ('content_id', 'aggregate_content_ids')):
            wanted = kwargs.get(option)
            if wanted is not None:
                dis_videos = [dis_video for dis_video in dis_videos if dis_video[field] in wanted]

        newone.dis_videos = dis_videos
"""), (DR, """        if 'quality_width' in kwargs and kwargs['quality_width'] is not None:
            newone.quality_width = kwargs['quality_width']
        elif hasattr(self.dataset, 'quality_width'):
            newone.quality_width = self.dataset.quality_width
        if 'quality_height' in kwargs and kwargs['quality_height'] is not None:
            newone.quality_height = kwargs['quality_height']
        elif hasattr(self.dataset, 'quality_height'):
            newone.quality_height = self.dataset.quality_height
        if 'resampling_type' in kwargs and kwargs['resampling_type'] is not None:
            newone.resampling_type = kwargs['resampling_type']
        elif hasattr(self.dataset, 'resampling_type'):
            newone.resampling_type = self.dataset.resampling_type
        return newone
""", """        for option in ('quality_width', 'quality_height', 'resampling_type'):
            if kwargs.get(option) is not None:
                setattr(newone, option, kwargs[option])
            elif hasattr(self.dataset, option):
                setattr(newone, option, getattr(self.dataset, option))
        return newone
""")])

ref('pc', [(DR, """            for idx in range(len(assetids)):
                for idx2 in range(idx):
                    assetid = assetids[idx]
                    assetid2 = assetids[idx2]
""", """            for idx, assetid in enumerate(assetids):
                for assetid2 in assetids[:idx]:
"""), (DR, """                            if score > score2:
                                new_dis_videos[d_assetid_disvideoidx[assetid]]['os'][(subj, assetid2)] = 1
                            elif score < score2:
                                new_dis_videos[d_assetid_disvideoidx[assetid2]]['os'][(subj, assetid)] = 1
                            else:
                                if tiebreak_method == 'even_split':
                                    # each one gets fair share
                                    new_dis_videos[d_assetid_disvideoidx[assetid]]['os'][(subj, assetid2)] = 0.5
                                    new_dis_videos[d_assetid_disvideoidx[assetid2]]['os'][(subj, assetid)] = 0.5
                                elif tiebreak_method == 'coin_toss':
                                    if random.random() > 0.5:
                                        new_dis_videos[d_assetid_disvideoidx[assetid]]['os'][(subj, assetid2)] = 1
                                    else:
                                        new_dis_videos[d_assetid_disvideoidx[assetid2]]['os'][(subj, assetid)] = 1
                                else:
                                    assert False, "unknown tiebreak_method: {}".format(tiebreak_method)
""", """                            def record(winner, loser, value=1):
                                new_dis_videos[d_assetid_disvideoidx[winner]]['os'][(subj, loser)] = value

                            if score < score2:
                                record(assetid2, assetid)
                            elif score > score2:
                                record(assetid, assetid2)
                            elif tiebreak_method == 'even_split':
                                record(assetid2, assetid, 0.5)
                                record(assetid, assetid2, 0.5)
                            elif random.random() > 0.5:
                                record(assetid, assetid2)
                            else:
                                record(assetid2, assetid)
"""), (DR, """        score_3darray = float("NaN") * np.ones([self.num_dis_videos, self.num_dis_videos, self.num_observers])

        for i_dis_video""", """        score_3darray = np.full((self.num_dis_videos, self.num_dis_videos, len(list_observers)), np.nan)

        for i_dis_video"""), (DR, """                subject, asset_id_j = key
                pvs_j = dict_assetid_to_idisvideo[asset_id_j]
                pvs_i = i_dis_video
                score_3darray[pvs_i][pvs_j][dict_observer_to_iobserver[subject]] = value  # CAUTION: note the dimension change!
                score_3darray[pvs_j][pvs_i][dict_observer_to_iobserver[subject]] = 1.0 - value
""", """                k = dict_observer_to_iobserver[key[0]]
                pvs_j = dict_assetid_to_idisvideo[key[1]]
                score_3darray[i_dis_video, pvs_j, k], score_3darray[pvs_j, i_dis_video, k] = value, 1.0 - value
""")])

ref('combine', [(DR, """        content_ids_in = []
        for vid1 in first_dataset.dis_videos:
            for vid2 in second_dataset.dis_videos:
                if vid1['path'] == vid2['path']:  # TODO: Perhaps worth modifying so that the path does not need to match exactly
""", """        content_ids_in = []
        for vid1 in first_dataset.dis_videos:
            for vid2 in [v for v in second_dataset.dis_videos if v['path'] == vid1['path']]:
                if True:
"""), (DR, """                    new_dis_video['os'].update(vid2['os'])  # combined the 'os's but overrode when subject is in both

                    for key in vid2['os'].keys():
                        if key in vid1['os'].keys():  # the same subject is in both datasets
                            if not isinstance(vid1['os'][key], (list, tuple)):
                                new_os = [vid1['os'][key]]
                            else:
                                new_os = list(vid1['os'][key])  # copy: vid1 must stay as is

                            if isinstance(vid2['os'][key], (list, tuple)):
                                new_dis_video['os'][key] = new_os + list(vid2['os'][key])
                            else:
                                new_os.append(vid2['os'][key])
                                new_dis_video['os'][key] = new_os
""", """                    def as_list(votes):
                        return list(votes) if isinstance(votes, (list, tuple)) else [votes]

                    for key, votes in vid2['os'].items():
                        new_dis_video['os'][key] = as_list(vid1['os'][key]) + as_list(votes) if key in vid1['os'] else votes
""")])

ref('synth', [(DR, """        mask = np.random.uniform(size=score_mtx.shape)
        mask[mask > self.input_dict['missing_probability']] = 1.0
        mask[mask <= self.input_dict['missing_probability']] = float('NaN')

        return score_mtx * mask
""", """        drawn = np.random.uniform(size=score_mtx.shape)
        return np.where(drawn <= self.input_dict['missing_probability'], np.nan, score_mtx)
"""), (DR, """        score_mtx[np.isnan(mask)] = np.random.uniform(1, self.dataset.ref_score,
                                                      np.isnan(mask).sum())

        return score_mtx
""", """        hit = np.isnan(mask)
        score_mtx[hit] = 1 + (self.dataset.ref_score - 1) * np.random.random_sample(int(hit.sum()))

        return score_mtx
"""), (DR, """                if corrupt_probability is not None:
                    videos = list(np.where(np.random.uniform(size=num_video) < corrupt_probability)[0])
                    score_mtx[videos, subject, :] = max_score + min_score - score_mtx[videos, subject, :]
                else:
                    score_mtx[:, subject, :] = max_score + min_score - score_mtx[:, subject, :]
""", """                videos = range(num_video)
                if corrupt_probability is not None:
                    videos = [v for v, u in enumerate(np.random.rand(num_video)) if u < corrupt_probability]
                for v in videos:
                    score_mtx[v, subject] = min_score + max_score - score_mtx[v, subject]
"""), (DR, """        newone = empty_object()
        newone.__dict__.update(self.dataset.__dict__)

        # deep copy ref_videos and dis_videos
""", """        newone = empty_object()
        for key, value in vars(self.dataset).items():
            setattr(newone, key, value)

        # deep copy ref_videos and dis_videos
""")])

ref('pcmodel', [(PC, """            pp = np.tile(p, (M, 1)).T + np.tile(p, (M, 1))

            p = np.sum(alpha, axis=1) / np.sum(n / pp, axis=1)  # summing over axis=1 marginalizes j

            p = p / np.sum(p)  # re-normalize to force p a prob. distribution
""", """            p = alpha.sum(axis=1) / (n / np.add.outer(p, p)).sum(axis=1)

            p /= p.sum()
"""), (PC, """            pi = np.exp(gamma)
            pius = np.tile(pi, (n, 1)).transpose()
            piust = pius[:, 0:nmo].transpose()
            pius = pius[0:nmo, :]
            rus[gind] = np.divide(pius[gind], (pius[gind] + piust[gind]))
""", """            share = 1.0 / (1.0 + np.exp(gamma[None, :] - gamma[:nmo, None]))
            rus[gind] = share[gind]
""")])

ref('persist', [(DEC, """    temp_name = '{}.{}.tmp'.format(file_name, os.getpid())
    with open(temp_name, 'wt') as temp_file:
        json.dump(obj, temp_file)
    os.replace(temp_name, file_name)
""", """    import tempfile
    text = json.dumps(obj)
    fd, temp_name = tempfile.mkstemp(dir=os.path.dirname(os.path.abspath(file_name)), suffix='.tmp')
    with os.fdopen(fd, 'w') as temp_file:
        temp_file.write(text)
    os.rename(temp_name, file_name)
"""), (DEC, """            file_name = os.path.join(dir_name, h)
            if not os.path.exists(file_name):
                if not os.path.exists(dir_name):
                    os.makedirs(dir_name)
                res = original_func(*args)
                _dump_json(res, file_name)
            else:
                res = json.load(open(file_name, 'rt'))
            return res
""", """            file_name = os.path.join(dir_name, h)
            if os.path.isfile(file_name):
                with open(file_name) as f:
                    return json.load(f)
            res = original_func(*args)
            os.makedirs(dir_name, exist_ok=True)
            _dump_json(res, file_name)
            return res
""")])

ref('import', [(MISC, """        loader = SourceFileLoader(filename, filepath)
        ret = module_from_spec(spec_from_loader(filename, loader))
        exec(loader.source_to_code(loader.get_data(filepath), filepath), ret.__dict__)
""", """        import types
        ret = types.ModuleType(filename)
        ret.__file__ = filepath
        with open(filepath, 'rb') as source:
            code = compile(source.read(), filepath, 'exec')
        exec(code, ret.__dict__)
"""), (MISC, """    with open(filepath, 'r') as in_f:
        ret = json.load(in_f)
    ns = Namespace(**ret)  # convert dict to namespace
    return ns
""", """    in_f = open(filepath, 'r')
    try:
        return Namespace(**json.loads(in_f.read()))
    finally:
        in_f.close()
""")])

ref('pmap', [(MISC, """    waiting_procs = set(procs)
    active_procs = set([])
""", """    waiting_procs = list(reversed(procs))
    active_procs = []
"""), (MISC, """        for p in active_procs.copy():
            if not p.is_alive():
                active_procs.remove(p)
""", """        active_procs = [p for p in active_procs if p.is_alive()]
"""), (MISC, """        if len(active_procs) < max_active_procs and len(waiting_procs) > 0:
            # move one proc from waiting_procs to active_procs
            p = waiting_procs.pop()
            active_procs.add(p)
            p.start()
""", """        while len(active_procs) < max_active_procs and waiting_procs:
            p = waiting_procs.pop()
            p.start()
            active_procs.append(p)
"""), (MISC, """    rets = list(map(lambda idx: return_dict[idx], range(len(list_args))))

    return rets
""", """    return [return_dict[idx] for idx in range(len(list_args))]
""")], ['P24'])
