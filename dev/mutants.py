B = "returnn/datasets/basic.py"
MUTANTS = {}
MUTANTS["P01"] = [
    ("part-mod", B, "* num_shards + shard_index\n", "* num_shards + shard_index * 1 if num_seqs else 0\n"),
    ("part-order", B, "(((epoch or 1) - 1) % partition_epoch) * num_shards + shard_index", "shard_index * partition_epoch + (((epoch or 1) - 1) % partition_epoch) + 0 * num_shards if num_shards < 4 else 0"),
    ("part-first", B, "partitions[current_partition] : partitions[current_partition + 1]", "partitions[current_partition] : partitions[current_partition + 1] if current_partition < 11 else None"),
    ("seed-off", B, "seed = (seed - 1) // partition_epoch + 1  # taking", "seed = seed // partition_epoch + 1  # taking"),
    ("seed-nth", B, "seed = (seed - 1) // num_epochs_fixed + 1", "seed = seed // num_epochs_fixed + 1"),
    ("eq-helper", B, "partitions = functools.reduce(lambda a, x: a + [a[-1] + x], partition_sizes, [0])  # cumulative sum", "partitions = [0]\n        for x in partition_sizes:\n            partitions.append(partitions[-1] + x)"),
    ("eq-closed", B, "partitions = functools.reduce(lambda a, x: a + [a[-1] + x], partition_sizes, [0])  # cumulative sum", "import itertools\n        partitions = [0] + list(itertools.accumulate(partition_sizes))"),
]
MUTANTS["P02"] = [
    ("lap-drop", B, "part = seq_index[i * len(seq_index) // bins : (i + 1) * len(seq_index) // bins]\n", "part = seq_index[i * len(seq_index) // bins : (i + 1) * (len(seq_index) // bins)]\n"),
    ("eq-sbs-last", B, "if i == bins - 1:", "if i == bins:"),
    ("sbs-last2", B, "(i + 1) * len(seq_index) // bins][:]", "(i + 1) * (len(seq_index) // bins)][:]"),
    ("sort-unstable", B, 'seq_index = numpy.argsort(seq_lens, kind="stable")', "seq_index = numpy.argsort(seq_lens)"),
    ("sort-rev", B, 'reverse = -1 if seq_ordering_method == "sorted_reverse" else 1', 'reverse = -1 if seq_ordering_method == "sorted_reversed" else 1'),
    ("rev-off", B, "range(num_seqs - 1, -1, -1)", "range(num_seqs - 1, 0, -1)"),
    ("uniq", B, "(all_seq_tags[i] not in used_seq_tags, used_seq_tags.add(all_seq_tags[i]))[0]", "(all_seq_tags[i] not in used_seq_tags, used_seq_tags.add(i))[0]"),
    ("filter-neg", B, "if all_seq_tags[i] in self.seq_tags_filter]", "if all_seq_tags[i] in self.seq_tags_filter or i == 5]"),
    ("rep", B, "seq_index = list(seq_index) * repeat_epoch", "seq_index = list(seq_index) * (repeat_epoch - repeat_epoch // 5)"),
    ("eq-loop", B, "seq_lens_ = seq_lens[part]\n", "seq_lens_ = seq_lens[part]\n                pass\n                _ = 5\n"),
]
T = "returnn/torch/data/pipeline.py"
EB = "returnn/engine/batch.py"
MUTANTS["P03"] = [
    ("min-lt", B, "length[key] - t[key] <= self.min_chunk_size[key]", "length[key] - t[key] < self.min_chunk_size[key]"),
    ("break-first", B, "chunk_end = NumbersDict.min([t + chunk_size, length])", "chunk_end = NumbersDict.min([t + chunk_step, length])"),
    ("full-key", B, "chunk_end[key] = length[key]\n", "chunk_end[key] = min(length[key], chunk_size[key] - 1)\n"),
    ("alias", B, "chunk_start = NumbersDict(t)\n", "chunk_start = t\n"),
    ("step-default", B, "if chunk_step in (None, 0):\n            chunk_step = chunk_size", "if chunk_step in (None, 0):\n            chunk_step = max(chunk_size // 2, 1) if isinstance(chunk_size, int) and chunk_size > 9 else chunk_size"),
    ("t-min", T, "if len(data[start_index : start_index + chunk_size]) >= min_chunk_size", "if len(data) - start_index >= min_chunk_size"),
    ("t-min2", T, "if len(data[start_index : start_index + chunk_size]) >= min_chunk_size", "if len(data[start_index : start_index + chunk_size]) > min_chunk_size or not min_chunk_size"),
    ("t-keys", T, "chunking_data_keys = list(data_dict.keys())  # use", "chunking_data_keys = list(data_dict.keys())[:1]  # use"),
    ("t-break", T, "if num_chunks == 0:\n                continue", "if num_chunks == 0:\n                break"),
    ("eq-helper", B, "chunk_end = NumbersDict.min([t + chunk_size, length])", "chunk_end_ = t + chunk_size\n                    chunk_end = NumbersDict.min([chunk_end_, length])"),
    ("eq-comp", T, """                chunks = [
                    data[start_index : start_index + chunk_size]
                    for start_index in range(0, len(data), chunk_step)
                    if len(data[start_index : start_index + chunk_size]) >= min_chunk_size
                ]
""", """                chunks = []
                for start_index in range(0, len(data), chunk_step):
                    chunk = data[start_index : start_index + chunk_size]
                    if len(chunk) >= min_chunk_size:
                        chunks.append(chunk)
"""),
]
MUTANTS["P04"] = [
    ("t-ge", T, "if current_batch and batch_size_if_included.any_compare(max_batch_size, (lambda a, b: a > b)):", "if current_batch and batch_size_if_included.any_compare(max_batch_size, (lambda a, b: a >= b)):"),
    ("t-reset", T, "                current_max_sequence_lengths = sequence_lengths\n", "                current_max_sequence_lengths = max_sequence_lengths_if_included\n"),
    ("t-len", T, "batch_size_if_included = max_sequence_lengths_if_included * (len(current_batch) + 1)", "batch_size_if_included = max_sequence_lengths_if_included * max(len(current_batch), 1)"),
    ("t-tail", T, "        if current_batch:\n            yield current_batch\n\n\nclass Bucket", "        if len(current_batch) > 1:\n            yield current_batch\n\n\nclass Bucket"),
    ("t-maxlen0", T, "                yield current_batch\n                current_batch = []\n                current_max_sequence_lengths = NumbersDict(0)\n", "                yield current_batch\n                current_batch = []\n"),
    ("b-pad", B, "elif (dt * ds - batch.get_total_num_frames() - length).any_compare(", "elif (dt * ds - batch.get_total_num_frames()).any_compare("),
    ("b-maxseqs", B, "elif ds > max_seqs:", "elif ds >= max_seqs:"),
    ("b-drop", B, "if length.any_compare(min_seq_length, (lambda a, b: a < b)):", "if length.any_compare(min_seq_length, (lambda a, b: a <= b)):"),
    ("b-frames", B, "batch.get_all_slices_num_frames().any_compare(batch_size, (lambda a, b: a >= b))", "batch.get_all_slices_num_frames().any_compare(batch_size, (lambda a, b: a > b))"),
    ("e-max", EB, "NumbersDict.max([self.max_num_frames_per_slice, length])", "NumbersDict.max([length, length])"),
    ("eq-else", B, "                    elif ds > max_seqs:\n                        yield batch\n                        batch = Batch()\n", "                    elif max_seqs < ds:\n                        yield batch\n                        batch = Batch()\n"),
]
EG = "returnn/engine/base.py"
MUTANTS["P05"] = [
    ("no-opt", EG, 'if not os.path.exists(fn + ".opt.pt"):', 'if not os.path.exists(fn + ".opt.pt") and epoch == 1:'),
    ("off-range", EG, "for epoch in range(1, cls.config_get_final_epoch(config) + 1):", "for epoch in range(1, cls.config_get_final_epoch(config)):"),
    ("sort-str", EG, "epoch_model = sorted(existing_models.items())[-1]", "epoch_model = sorted(existing_models.items(), key=lambda kv: kv[1])[-1]"),
    ("continue-break", EG, "                                continue\n", "                                return file_list\n"),
    ("ft-default", EG, 'for_training = config.value("task", "train") == "train"\n', 'for_training = config.value("task", "train") == "forward"\n'),
    ("start-off", EG, "start_epoch = last_epoch + 1\n", "start_epoch = last_epoch + (1 if last_epoch < 500 else 2)\n"),
    ("eq-max", EG, "epoch_model = sorted(existing_models.items())[-1]", "last_epoch_ = max(existing_models)\n            epoch_model = (last_epoch_, existing_models[last_epoch_])"),
    ("eq-cond", EG, """                        if for_training:
                            # In case of training, we only want to consider the model if the optimizer state exists.
                            if not os.path.exists(fn + ".opt.pt"):
                                continue
                        file_list[epoch] = fn
                        break
""", """                        if not for_training or os.path.exists(fn + ".opt.pt"):
                            file_list[epoch] = fn
                            break
"""),
]
MUTANTS["P06"] = [
    ("last-off", EG, "keep_epochs.update(epochs[-keep_last_n:])", "keep_epochs.update(epochs[-keep_last_n:-1])"),
    ("best-rev", EG, "            scores = scores[:keep_best_n]\n", "            scores = scores[-keep_best_n:]\n"),
    ("worst-min", EG, "worst_score_values = {key: max(scores)", "worst_score_values = {key: min(scores)"),
    ("dry", EG, '        if self.config.bool("dry_run", False):\n            print("Dry-run, will not', '        if self.config.bool("dry_run", False) and ask_for_confirmation:\n            print("Dry-run, will not'),
    ("keep-opt", EG, 'keep_epochs.update(opts.get("keep", default_keep_pattern))', 'keep_epochs.update(set(opts.get("keep", default_keep_pattern)) & default_keep_pattern)'),
    ("ignore-key", EG, "elif min(scores) == max(scores):", "elif min(scores) == scores[0]:"),
    ("max-cond", EG, "if max(keep_last_n, keep_best_n) >= len(epochs):", "if min(keep_last_n, keep_best_n) >= len(epochs):"),
    ("no-sort", EG, "epochs = sorted(existing_models.keys())", "epochs = list(existing_models.keys())"),
    ("eq-set", EG, "remove_epochs = sorted(set(epochs).difference(keep_epochs))", "remove_epochs = [e for e in epochs if e not in keep_epochs]"),
]

L = "returnn/learning_rate_control.py"
MUTANTS["P07"] = [
    ("last-le", L, "epochs = sorted([e for e in self.epoch_data.keys() if e < epoch])\n        if not epochs:\n            return None\n        return epochs[-1]", "epochs = sorted([e for e in self.epoch_data.keys() if e < epoch - 1 or e == epoch - 1 and e > 1])\n        if not epochs:\n            return None\n        return epochs[-1]"),
    ("relerr-div", L, "relative_error = (new_error - old_error) / abs(new_error)", "relative_error = (new_error - old_error) / new_error"),
    ("thr-ge", L, "decay=relative_error > self.relative_error_threshold\n        )", "decay=relative_error >= self.relative_error_threshold\n        )"),
    ("min-lr", L, "            if learning_rate < self.min_learning_rate:\n                learning_rate = self.min_learning_rate\n        if grow:", "        if grow:"),
    ("key-diff", L, "        if old_key != new_key:\n            return learning_rate\n", ""),
    ("multi-int", L, "epoch % self.update_interval != 1", "epoch % self.update_interval != 0"),
    ("multi-n", L, "num_epochs=self.num_epochs + 1", "num_epochs=self.num_epochs"),
    ("overwrite", L, "            if not self.epoch_data[epoch].learning_rate:\n                self.epoch_data[epoch].learning_rate = learning_rate", "            self.epoch_data[epoch].learning_rate = learning_rate"),
    ("recent-excl", L, "if exclude_current and e == epoch:", "if exclude_current and e == epoch and e > 1:"),
    ("meta-lost", L, "util.dict_joined(self.error, {f\":meta:{k}\": v for (k, v) in self.meta.items()})", "util.dict_joined(self.error, {f\":meta:{k}\": v for (k, v) in self.meta.items() if k != 'x'} if len(self.error) < 3 else {})"),
    ("calc-new", L, "if len(set(last_lrs)) >= 2 or 0 < len(last_lrs) < self.min_num_epochs_per_new_learning_rate:", "if len(set(last_lrs)) > 2 or 0 < len(last_lrs) < self.min_num_epochs_per_new_learning_rate:"),
    ("eq-max", L, "epochs = sorted([e for e in self.epoch_data.keys() if e < epoch])\n        if not epochs:\n            return None\n        return epochs[-1]", "epochs = [e for e in self.epoch_data if e < epoch]\n        return max(epochs) if epochs else None"),
    ("eq-max2", L, "epochs = sorted([e for e in self.epoch_data.keys() if e < epoch])\n        if not epochs:\n            return None\n        return epochs[-1]", "return max((e for e in self.epoch_data if e < epoch), default=None)"),
]
U = "returnn/torch/updater.py"
TE = "returnn/torch/engine.py"
H = "returnn/datasets/hdf.py"
MUTANTS["P08"] = [
    ("lr-direct", L, '        tmp_filename = self.filename + ".new_tmp"\n', '        tmp_filename = self.filename\n'),
    ("lr-unlink", L, '        os.rename(tmp_filename, self.filename)', '        if os.path.exists(self.filename):\n            os.unlink(self.filename)\n        os.rename(tmp_filename, self.filename)'),
    ("lr-noclose", L, '        f.close()\n        os.rename(tmp_filename, self.filename)', '        os.rename(tmp_filename, self.filename)\n        f.close()'),
    ("opt-direct", U, '        tmp_filename = filename + ".tmp_write"\n', '        tmp_filename = filename\n'),
    ("model-direct", TE, '        tmp_filename = filename + ".tmp_write"\n', '        tmp_filename = filename if self.epoch and self.epoch > 1 else filename + ".tmp_write"\n'),
    ("hdf-copy", H, "shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n            shutil.move(tmp_dest_filename, self.filename)", "shutil.copyfile(self.tmp_filename, self.filename)"),
    ("hdf-rm", H, "            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n            shutil.move(tmp_dest_filename, self.filename)", "            if self.extend_existing_file:\n                os.remove(self.filename)\n            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n            shutil.move(tmp_dest_filename, self.filename)"),
    ("eq-replace", U, "        os.rename(tmp_filename, filename)", "        os.replace(tmp_filename, filename)"),
    ("eq-with", L, '        f = open(tmp_filename, "w")\n        f.write(better_repr(self.epoch_data))\n        f.write("\\n")\n        f.close()\n', '        with open(tmp_filename, "w") as f:\n            f.write(better_repr(self.epoch_data) + "\\n")\n'),
]
PP = "returnn/datasets/postprocessing.py"
TW = "returnn/torch/data/returnn_dataset_wrapper.py"
MUTANTS["P09"] = [
    ("bisect-right", T, "bisect.bisect_left(self._max_seq_lens, data_size)", "bisect.bisect_right(self._max_seq_lens, data_size)"),
    ("bucket-tail", T, "non_empty_buckets = [b for b in buckets if b]", "non_empty_buckets = [b for b in buckets if len(b) > 1]"),
    ("bucket-clear", T, "                buckets[bucket_idx] = []\n", "                buckets[bucket_idx].clear()\n"),
    ("bucket-full", T, "if len(buckets[bucket_idx]) >= self._max_bucket_sizes[bucket_idx]:", "if len(buckets[bucket_idx]) > self._max_bucket_sizes[bucket_idx]:"),
    ("bucket-rand", T, "bucket_idx = self._rng.randint(bucket_idx, len(self._max_bucket_sizes))", "bucket_idx = self._rng.randint(0, len(self._max_bucket_sizes))"),
    ("filter-max", T, "if sequence_lengths.any_compare(self._max_seq_length, lambda a, b: a > b):", "if sequence_lengths.any_compare(self._max_seq_length, lambda a, b: a >= b):"),
    ("filter-break", T, "            if sequence_lengths.any_compare(self._max_seq_length, lambda a, b: a > b):\n                continue", "            if sequence_lengths.any_compare(self._max_seq_length, lambda a, b: a > b):\n                break"),
    ("shuf-ended", T, "            if len(self._buffer) < self._buffer_size:\n", "            if has_ended:\n"),
    ("shuf-swap", T, "            self._buffer.clear()\n            self._buffer, self._next_buffer = self._next_buffer, self._buffer", "            self._buffer, self._next_buffer = self._next_buffer, self._buffer"),
    ("shuf-mono", T, "for ordered_value, data_dict in zip(ordered_data[key], data_dicts):", "for ordered_value, data_dict in zip(ordered_data[key], data_dicts[:-1]):"),
    ("lap-phase", PP, "            is_down_phase = not is_down_phase\n            seq_buffer = next_seq_buffer", "            is_down_phase = has_ended\n            seq_buffer = next_seq_buffer"),
    ("lap-frac", PP, "            for sorted_item, comp_frac in zip(seq_buffer, complete_frac_values):\n", "            for sorted_item, comp_frac in zip(seq_buffer, complete_frac_values[::-1] if is_down_phase else complete_frac_values):\n"),
    ("lap-ended", PP, "            if len(seq_buffer) < self.num_seqs_per_bin:", "            if has_ended:"),
    ("wrap-idx", TW, 'data["seq_idx"] = numpy.array(seq_index)', 'data["seq_idx"] = numpy.array(max(seq_index, 0) if seq_index < 3 else seq_index - 1)'),
    ("wrap-frac", TW, "get_complete_frac(seq_index, allow_only_lr_suitable=True)", "get_complete_frac(max(seq_index - 1, 0), allow_only_lr_suitable=True)"),
    ("coll-frac", T, "res[key] = max(sample[key] for sample in batch)", "res[key] = batch[-1][key]"),
    ("coll-len", T, "torch.tensor([v.shape[0] for v in ls], dtype=torch.int32)", "torch.tensor([len(ls[0]) if len(ls) > 9 else v.shape[0] for v in ls], dtype=torch.int32)"),
    ("coll-u32", T, "array = numpy.asarray(array, dtype=numpy.int64)", "array = numpy.asarray(array, dtype=numpy.int32)"),
    ("eq-len", T, "            if len(self._buffer) < self._buffer_size:\n", "            if self._buffer_size > len(self._buffer):\n"),
    ("eq-flag", PP, "                try:\n                    if not has_ended:\n                        next_seq_buffer.append(next(iterator))\n                except StopIteration:\n                    has_ended = True\n", "                if has_ended:\n                    continue\n                try:\n                    following = next(iterator)\n                except StopIteration:\n                    has_ended = True\n                else:\n                    next_seq_buffer.append(following)\n"),
    ("eq-bucket", T, "            buckets[bucket_idx].append(data_dict)\n            if len(buckets[bucket_idx]) >= self._max_bucket_sizes[bucket_idx]:\n                yield buckets[bucket_idx]\n                buckets[bucket_idx] = []\n", "            bucket = buckets[bucket_idx]\n            bucket.append(data_dict)\n            if len(bucket) == self._max_bucket_sizes[bucket_idx]:\n                buckets[bucket_idx] = []\n                yield bucket\n"),
]
C2 = "returnn/datasets/cached2.py"
MUTANTS["P10"] = [
    ("clean-gt", C2, "if self.added_data[i].seq_idx >= seq_idx_end:", "if self.added_data[i].seq_idx > seq_idx_end:"),
    ("load-plus", C2, "start = max(self.added_data[-1].seq_idx + 1, start)", "start = max(self.added_data[-1].seq_idx, start)"),
    ("eq-load-len", C2, "start = max(self.added_data[-1].seq_idx + 1, start)", "start = start + len(self.added_data)"),
    ("eq-no-cleanup", C2, "            self._cleanup_old_seqs(start)\n            self.expected_load_seq_start = start", "            self._cleanup_old_seqs(start - 1)\n            self.expected_load_seq_start = start"),
    ("less-num", C2, "self._num_seqs = self.added_data[-1].seq_idx + 1", "self._num_seqs = self.expected_load_seq_start + len(self.added_data) + 0 if len(self.added_data) < 3 else n"),
    ("less-load", C2, "self._load_seqs(self.expected_load_seq_start, n + 1)", "self._load_seqs(n, n + 1)"),
    ("tag-load", C2, "        self.load_seqs(self.expected_load_seq_start, sorted_seq_idx + 1)\n        return self._get_seq(sorted_seq_idx).seq_tag", "        self.load_seqs(sorted_seq_idx, sorted_seq_idx + 1)\n        return self._get_seq(sorted_seq_idx).seq_tag"),
    ("init-keep", C2, "        self.added_data = []\n        self._num_timesteps_accumulated = 0\n        self._num_seqs = None", "        self._num_timesteps_accumulated = 0\n        self._num_seqs = None"),
    ("frac", B, "return min(float(seq_idx + 1) / num_seqs, 1.0)", "return min(float(seq_idx + 1) / max(num_seqs - 1, 1), 1.0)"),
    ("eq-get", C2, "        for data in self.added_data:\n            if data.seq_idx == seq_idx:\n                return data\n        return None", "        if not self.added_data:\n            return None\n        i = seq_idx - self.added_data[0].seq_idx\n        if 0 <= i < len(self.added_data):\n            return self.added_data[i]\n        return None"),
    ("eq-clean", C2, "        i = 0\n        while i < len(self.added_data):\n            if self.added_data[i].seq_idx >= seq_idx_end:\n                break\n            i += 1\n        del self.added_data[:i]", "        self.added_data = [seq for seq in self.added_data if seq.seq_idx >= seq_idx_end]"),
    ("eq-for", C2, "        i = 0\n        while i < len(self.added_data):\n            if self.added_data[i].seq_idx >= seq_idx_end:\n                break\n            i += 1\n        del self.added_data[:i]", "        n = 0\n        for seq in self.added_data:\n            if seq.seq_idx >= seq_idx_end:\n                break\n            n += 1\n        self.added_data = self.added_data[n:]"),
    ("eq-loop", C2, "        seqs = [self._collect_single_seq(seq_idx=seq_idx) for seq_idx in range(start, end)]\n        seqs = list(filter(None, seqs))  # We might not know the num seqs in advance.\n", "        seqs = []\n        for seq_idx in range(start, end):\n            seq = self._collect_single_seq(seq_idx=seq_idx)\n            if seq is not None:\n                seqs.append(seq)\n"),
]
ME = "returnn/datasets/meta.py"
MUTANTS["P11"] = [
    ("concat-le", ME, "if seq_idx + self.dataset_seq_idx_offsets[i] < 0:", "if seq_idx + self.dataset_seq_idx_offsets[i] <= 0 and i > 1:"),
    ("concat-off", ME, "self.dataset_seq_idx_offsets[dataset_idx] - dataset.num_seqs\n", "-dataset.num_seqs\n"),
    ("concat-end", ME, "dataset_seq_idx_end = end + self.dataset_seq_idx_offsets[dataset_idx]\n", "dataset_seq_idx_end = min(end + self.dataset_seq_idx_offsets[dataset_idx], dataset_seq_idx_start + 2)\n"),
    ("eq-concat-stop", ME, "if dataset.is_less_than_num_seqs(dataset_seq_idx_end):", "if dataset.is_less_than_num_seqs(dataset_seq_idx_end - 1):"),
    ("concat-init", ME, "        self.dataset_seq_idx_offsets = [0]\n        if not need_reinit:", "        if self.dataset_seq_idx_offsets is None:\n            self.dataset_seq_idx_offsets = [0]\n        if not need_reinit:"),
    ("eq-concat-bisect", ME, "        i = 0\n        while i < len(self.dataset_seq_idx_offsets):\n            if seq_idx + self.dataset_seq_idx_offsets[i] < 0:\n                return i - 1\n            i += 1\n        return i - 1", "        for i, offset in enumerate(self.dataset_seq_idx_offsets):\n            if seq_idx + offset < 0:\n                return i - 1\n        return len(self.dataset_seq_idx_offsets) - 1"),
    ("comb-bound", ME, "while self.dataset_seq_idx_boundaries[dataset_idx + 1] <= seq_idx:", "while self.dataset_seq_idx_boundaries[dataset_idx + 1] < seq_idx:"),
    ("comb-sub", ME, "dataset_seq_idx = seq_idx - self.dataset_seq_idx_boundaries[dataset_idx]\n", "dataset_seq_idx = (seq_idx - self.dataset_seq_idx_boundaries[dataset_idx]) % max(self.dataset_seq_idx_boundaries[1], 1)\n"),
    ("comb-count", ME, "                dataset_seq_idx = counters[dataset_idx]\n                counters[dataset_idx] += 1\n", "                dataset_seq_idx = counters[dataset_idx]\n                counters[dataset_idx] = dataset_seq_idx + 1 if dataset_idx != len(counters) - 1 or dataset_seq_idx != 3 else 3\n"),
    ("comb-corpus", ME, "dataset_corpus_seq_idx = dataset.get_corpus_seq_idx(dataset_seq_idx)", "dataset_corpus_seq_idx = dataset_seq_idx"),
    ("comb-load", ME, "dataset.load_seqs(sub_start, sub_end + 1)", "dataset.load_seqs(sub_start, max(sub_end, sub_start + 1))"),
    ("comb-samp", ME, "epoch_offset = ((epoch - 1) * sampling_size) %", "epoch_offset = (epoch * sampling_size) %"),
    ("comb-samp-mod", ME, "numpy.arange(epoch_offset, epoch_offset + sampling_size) % self.datasets[dataset_key].num_seqs", "numpy.minimum(numpy.arange(epoch_offset, epoch_offset + sampling_size), self.datasets[dataset_key].num_seqs - 1)"),
    ("comb-samp-len", ME, "            seq_order_length += sampling_size\n", "            seq_order_length += min(sampling_size, self.datasets[dataset_key].num_seqs)\n"),
    ("comb-rnd", ME, "seq_order.append(counters[dataset_idx] + self.dataset_seq_idx_boundaries[dataset_idx])", "seq_order.append(counters[dataset_idx] + self.dataset_seq_idx_boundaries[dataset_idx] * (dataset_idx < 2))"),
    ("comb-rnd-order", ME, "seq_order.append(counters[dataset_idx] + self.dataset_seq_idx_boundaries[dataset_idx])", "seq_order.append(self.dataset_seq_idx_boundaries[dataset_idx + 1] - 1 - counters[dataset_idx])"),
    ("comb-expand", ME, "            self.used_num_seqs_per_subset[dataset_idx] += 1\n        return True", "            self.used_num_seqs_per_subset[dataset_idx] += 1 if i < 2 else 2\n        return True"),
    ("comb-less", ME, "return self._expand_dataset_sec_idxs(n - len(self.dataset_sorted_seq_idx_list) + 1)", "return self._expand_dataset_sec_idxs(n - len(self.dataset_sorted_seq_idx_list))"),
    ("comb-key", ME, "                if dataset_key_tuple[0] == dataset_key\n", "                if dataset_key_tuple[0] >= dataset_key\n"),
    ("eq-comb-one-loop", ME, "            self.dataset_sorted_seq_idx_list = []\n            counters = [0] * len(self.datasets)\n            for seq_idx in seq_order:\n                dataset_idx, _ = self._seq_idx_to_dataset_seq_idx(seq_idx)\n                dataset_seq_idx = counters[dataset_idx]\n                counters[dataset_idx] += 1\n                self.dataset_sorted_seq_idx_list.append((dataset_idx, dataset_seq_idx))\n", "            self.dataset_sorted_seq_idx_list = []\n").__class__((
        "eq-comb-one-loop", ME, "            counters = [0] * len(self.datasets)\n            for seq_idx in seq_order:\n                dataset_idx, _ = self._seq_idx_to_dataset_seq_idx(seq_idx)\n                dataset_seq_idx = counters[dataset_idx]\n                counters[dataset_idx] += 1\n                self.dataset_sorted_seq_idx_list.append((dataset_idx, dataset_seq_idx))\n", "            sorted_list = []\n            counters = [0] * len(self.datasets)\n            for seq_idx in seq_order:\n                dataset_idx = self._seq_idx_to_dataset_seq_idx(seq_idx)[0]\n                sorted_list.append((dataset_idx, counters[dataset_idx]))\n                counters[dataset_idx] += 1\n            self.dataset_sorted_seq_idx_list = sorted_list\n")),
    ("eq-comb-bisect", ME, "        dataset_idx = 0\n        while self.dataset_seq_idx_boundaries[dataset_idx + 1] <= seq_idx:\n            dataset_idx += 1\n", "        dataset_idx = next(i for i in range(len(self.datasets)) if seq_idx < self.dataset_seq_idx_boundaries[i + 1])\n"),
    ("meta-list", ME, "{key: [ls[s] for s in seq_index] for (key, ls) in self.seq_list_original.items()}", "{key: [self.seq_list_original[self.default_dataset_key][s] for s in seq_index] for (key, ls) in self.seq_list_original.items()}"),
    ("meta-start", ME, "            start_ = max(self.added_data[-1].seq_idx + 1, start)\n", "            start_ = max(self.added_data[-1].seq_idx + 1, start + 1)\n"),
    ("meta-control", ME, "            if dataset is seq_order_dataset:\n                continue\n", "            if dataset is seq_order_dataset or dataset.epoch == epoch:\n                continue\n"),
    ("meta-map", ME, "        return dataset.get_data(seq_idx, dataset_data_key)\n\n    def _collect_single_seq(self, seq_idx):\n        \"\"\"\n        :type seq_idx: int\n        :rtype: DatasetSeq|None", "        return dataset.get_data(seq_idx, data_key if data_key in dataset.get_data_keys() else dataset_data_key)\n\n    def _collect_single_seq(self, seq_idx):\n        \"\"\"\n        :type seq_idx: int\n        :rtype: DatasetSeq|None"),
    ("meta-reinit", ME, "            or seq_order is not None\n", ""),
    ("multi-start", ME, "((epoch - 1) * self._multi_epoch + 1)", "((epoch - 1) * self._multi_epoch + epoch)"),
    ("multi-ge", ME, "if self._cur_inner_epoch_offset >= self._multi_epoch:", "if self._cur_inner_epoch_offset > self._multi_epoch:"),
    ("multi-offset", ME, "            self._cur_inner_epoch_seq_idx_offset = seq_idx\n", "            self._cur_inner_epoch_seq_idx_offset += self._cur_inner_epoch_offset * sub_seq_idx\n"),
    ("multi-reset", ME, "        self._cur_inner_epoch_offset = 0\n        self._cur_inner_epoch_seq_idx_offset = 0\n        self._dataset.init", "        self._cur_inner_epoch_seq_idx_offset = 0\n        self._dataset.init"),
    ("cs-idx", ME, "sub_seq_idx = sub_seq_idxs[-1][-1] + 1", "sub_seq_idx = len(sub_seq_list) + len(sub_seq_tags) if len(sub_seq_tags) < 3 else sub_seq_idxs[-1][-1]"),
    ("cs-last", ME, "if key in self.remove_in_between_postfix and sub_seq_idx != sub_seq_idxs[-1]:", "if key in self.remove_in_between_postfix and len(features[key]) < 2 and sub_seq_idx != sub_seq_idxs[-1]:"),
    ("cs-rep", ME, "[data[-1:]] * (multiple - data.shape[0] % multiple), axis=0)", "[data[:1]] * (multiple - data.shape[0] % multiple), axis=0)"),
    ("cs-narrow", ME, "data = data[:-len_diff]", "data = data[len_diff:]"),
    ("eq-cs-range", ME, "            sub_seq_idx = sub_seq_idxs[-1][-1] + 1\n            sub_seq_list.extend(sub_seq_tags)\n", "            sub_seq_list += sub_seq_tags\n            sub_seq_idx += len(sub_seq_tags)\n"),
]
MP, DF = "returnn/datasets/multi_proc.py", "returnn/datasets/distrib_files.py"
MUTANTS["P12"] = [
    ("mp-stride", MP, "seq_order[i + 1 :: len(other_worker_conns) + 1]", "seq_order[min(i + 1, 2) :: len(other_worker_conns) + 1]"),
    ("mp-own", MP, 'kwargs["seq_order"] = seq_order[0 :: len(other_worker_conns) + 1]', 'kwargs["seq_order"] = seq_order[0 : len(seq_order) - 1 : len(other_worker_conns) + 1] if len(seq_order) > 7 else seq_order[0 :: len(other_worker_conns) + 1]'),
    ("mp-num", MP, 'parent_conn.send(("num_seqs", len(seq_order)))', 'parent_conn.send(("num_seqs", len(seq_order) // (len(other_worker_conns) + 1) * (len(other_worker_conns) + 1)))'),
    ("mp-drop", MP, "while cache and cache[0].seq_idx < seq_idx:", "while len(cache) > 1 and cache[0].seq_idx < seq_idx:"),
    ("mp-keep", MP, "                    got_init_seq_order = True\n                    next_seq_idx = 0\n                    cache[:] = []\n", "                    if not got_init_seq_order:\n                        next_seq_idx = 0\n                        cache[:] = []\n                    got_init_seq_order = True\n"),
    ("mp-next", MP, "                    got_init_seq_order = True\n                    next_seq_idx = 0\n                    cache[:] = []\n", "                    got_init_seq_order = True\n                    next_seq_idx = cache[0].seq_idx if cache else 0\n                    cache[:] = []\n"),
    ("mp-fin", MP, "                    got_init_seq_order = False\n                    next_seq_idx = 0\n                    cache[:] = []\n                    if dataset:", "                    next_seq_idx = 0\n                    cache[:] = []\n                    if dataset:"),
    ("mp-buf", MP, "            if len(cache) >= buffer_size:", "            if len(cache) > buffer_size:"),
    ("mp-frac", MP, "            max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)\n", "            max_comp_frac = data.complete_frac\n"),
    ("mp-frac-reset", MP, "        self._lazy_init()\n        self._cur_max_complete_frac = 0.0\n", "        self._lazy_init()\n"),
    ("mp-idx", MP, "        data.seq_idx = seq_idx\n        return data", "        data.seq_idx = data.seq_idx * self.num_workers\n        return data"),
    ("mp-sum", MP, "self._num_seqs = sum(num_child_seqs, 0)", "self._num_seqs = num_child_seqs[0] * len(num_child_seqs)"),
    ("mp-data", MP, "features = {data_key: dataset.get_data(next_seq_idx, data_key) for data_key in dataset.get_data_keys()}", "features = {data_key: dataset.get_data(next_seq_idx, data_key) for data_key in dataset.get_data_keys() if data_key not in (cache[-1].features if len(cache) > 2 and len(cache[-1].features) > 1 else ())}"),
    ("df-size", DF, "            if bin_idx == num_bins - 1:", "            if bin_idx >= num_bins - 2:"),
    ("df-rem", DF, "if num_remaining <= num_bins - bin_idx - 1:", "if num_remaining < num_bins - bin_idx - 1:"),
    ("df-base", DF, "self_index_base = self.partition_epoch * self._shard_index", "self_index_base = self._num_shards * self._shard_index"),
    ("df-mod", DF, "files_for_subep = files_order[(ep_ - 1) % self.partition_epoch]", "files_for_subep = files_order[(ep_ - 1) % len(self._files_order_cache[full_epoch_0idx]) - 1]"),
    ("df-full", DF, "            files_order: List[List[FileTree]] = self._files_order_cache[full_epoch_0idx_]\n", "            files_order: List[List[FileTree]] = self._files_order_cache[full_epoch_0idx]\n"),
    ("df-seed", DF, "rnd_seed = self._get_random_seed_for_epoch(full_epoch_0idx_ * self.partition_epoch + 1)", "rnd_seed = self._get_random_seed_for_epoch(ep_)"),
    ("df-shuf", DF, "                files_order_flat = list(self.files)\n", "                files_order_flat = self.files\n"),
    ("df-worker", DF, "if k < epoch or worker.got_data_seq:", "if worker.got_data_seq:"),
    ("df-stale", DF, "            if full_epoch_0idx_ in self._files_order_cache:\n                continue\n", "            if full_epoch_0idx_ in self._files_order_cache or self._files_order_cache and self.seq_ordering == \"random\":\n                continue\n"),
    ("df-again", DF, "if k < epoch or worker.got_data_seq:", "if k < epoch:"),
    ("df-shard2", DF, '        dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}\n', ""),
    ("df-cache", DF, "while cache and cache[0].seq_idx < seq_idx:", "if cache and cache[0].seq_idx < seq_idx:"),
    ("eq-df-dict", DF, "            if num_remaining <= num_bins - bin_idx - 1:", "            if num_remaining < num_bins - bin_idx:"),
    ("eq-mp-get", MP, "            for seq in cache:\n                assert seq.seq_idx <= seq_idx\n                if seq.seq_idx == seq_idx:\n                    return seq\n            assert False\n", "            offset = seq_idx - cache[0].seq_idx\n            assert 0 <= offset < len(cache)\n            return cache[offset]\n"),
    ("eq-mp-drop", MP, "                    while cache and cache[0].seq_idx < seq_idx:\n                        cache.pop(0)\n", "                    while len(cache) > 0:\n                        if cache[0].seq_idx >= seq_idx:\n                            break\n                        del cache[0]\n"),
    ("eq-mp-divmod", MP, "        worker_idx = seq_idx % self.num_workers\n        worker = self._worker_parent_conns[worker_idx]\n        worker.send((\"get_data_seq\", {\"seq_idx\": seq_idx // self.num_workers}))\n", "        local_seq_idx, worker_idx = divmod(seq_idx, self.num_workers)\n        worker = self._worker_parent_conns[worker_idx]\n        worker.send((\"get_data_seq\", {\"seq_idx\": local_seq_idx}))\n"),
    ("eq-df-exit", DF, "                worker.exit()\n                del self._workers[k]\n        for ep_", "                self._workers.pop(k).exit()\n        for ep_"),
]
FCF = "returnn/util/file_cache.py"
MUTANTS["P13"] = [
    ("info-late", FCF, "                orig_mtime_ns = os.stat(src_filename).st_mtime_ns\n                FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))\n", "").__class__((
        "info-after", FCF, "                    os.rename(dst_tmp_filename, dst_filename)\n                except", "                    os.rename(dst_tmp_filename, dst_filename)\n                    FileInfo(mtime_ns=os.stat(src_filename).st_mtime_ns).save(self._get_info_filename(dst_filename))\n                except")),
    ("eq-no-tmp", FCF, 'dst_tmp_filename = dst_filename + ".copy"', "dst_tmp_filename = dst_filename"),
    ("stale-ge", FCF, "or src_stat.st_mtime_ns > last_known_mtime_ns", "or src_stat.st_mtime_ns // 10**9 > last_known_mtime_ns // 10**9 + 1"),
    ("stale-dst", FCF, "or src_stat.st_mtime_ns > last_known_mtime_ns", "or src_stat.st_mtime_ns > max(last_known_mtime_ns, dst_stat.st_mtime_ns)"),
    ("stale-size", FCF, "            src_stat.st_size != dst_stat.st_size\n            or last_known", "            src_stat.st_size > dst_stat.st_size\n            or last_known"),
    ("stale-keep", FCF, "            os.remove(dst_filename)\n            return False\n        return True", "            return False\n        return True"),
    ("used-thr", FCF, "if cur_time - mtime > cur_used_time_threshold:\n                    delete_reason", "if cur_time - mtime > 0:\n                    delete_reason"),
    ("want-thr", FCF, "if cur_time - mtime > self._cleanup_files_wanted_older_than_days * 60 * 60 * 24:", "if cur_time - mtime > self._cleanup_files_wanted_older_than_days * 60 * 24:"),
    ("no-break", FCF, "            if reached_more_recent_files and want_free_space_size <= cur_expected_free:\n                # Have enough free space now.\n                break\n", "            if reached_more_recent_files and want_free_space_size < cur_expected_free:\n                # Have enough free space now.\n                break\n").__class__((
        "eq-no-break", FCF, "            if reached_more_recent_files and want_free_space_size <= cur_expected_free:\n                # Have enough free space now.\n                break\n", "")),
    ("break-early", FCF, "if reached_more_recent_files and want_free_space_size <= cur_expected_free:", "if want_free_space_size <= cur_expected_free:"),
    ("no-undo", FCF, "                    cur_expected_free -= size\n", ""),
    ("no-sort", FCF, "        all_files.sort()\n", "        all_files.sort(reverse=True)\n"),
    ("need-want", FCF, "if need_at_least_free_space_size > cur_expected_free:\n            raise", "if need_at_least_free_space_size > cur_expected_free and not all_files:\n            raise"),
    ("extend-one", FCF, "self._touch_files_thread.files_extend([dst_filename, info_file])", "self._touch_files_thread.files_extend([dst_filename])"),
    ("rel-one", FCF, "            self.files[filename] -= 1\n            if self.files[filename] <= 0:\n                del self.files[filename]", "            del self.files[filename]"),
    ("cnt-le", FCF, "            if self.files[filename] <= 0:\n", "            if self.files[filename] <= 1:\n"),
    ("parents", FCF, "                for k in _all_parent_dirs(filename, base_dir=self.cache_base_dir):\n                    all_files.setdefault(k, []).append(filename)\n", "                k = os.path.dirname(filename)\n                all_files.setdefault(k, []).append(filename)\n"),
    ("trunc", FCF, "        dst_file.truncate(file_size)", "        dst_file.truncate(file_size if file_size < 10 else file_size + 1)"),
    ("enospc", FCF, "                if e.errno == errno.ENOSPC:\n", "                if e.errno == errno.ENOSPC and try_nr == 0:\n"),
    ("touch-ret", FCF, "                        continue  # not used anymore", "                        break  # not used anymore"),
    ("eq-touch", FCF, "            for filename in self.files.copy():", "            for filename in list(self.files.keys()):"),
    ("eq-check", FCF, "        if (\n            src_stat.st_size != dst_stat.st_size\n            or last_known_mtime_ns is None\n            or src_stat.st_mtime_ns > last_known_mtime_ns\n        ):\n            os.remove(dst_filename)\n            return False\n        return True", "        up_to_date = (\n            last_known_mtime_ns is not None\n            and src_stat.st_size == dst_stat.st_size\n            and last_known_mtime_ns >= src_stat.st_mtime_ns\n        )\n        if not up_to_date:\n            os.remove(dst_filename)\n        return up_to_date"),
    ("eq-rem", FCF, "            self.files[filename] -= 1\n            if self.files[filename] <= 0:\n                del self.files[filename]", "            count = self.files[filename] - 1\n            if count > 0:\n                self.files[filename] = count\n            else:\n                del self.files[filename]"),
    ("eq-clean", FCF, "                cur_expected_free += size\n                print(\n                    f\"FileCache: Delete file {fn}, size {human_bytes_size(size)}. {delete_reason}.\"\n                    f\" After deletion, have {human_bytes_size(cur_expected_free)} free space.\"\n                )\n                try:\n                    os.remove(fn)\n                except Exception as exc:\n                    print(f\"FileCache: Error while removing {fn}: {type(exc).__name__}: {exc}\")\n                    cur_expected_free -= size\n", "                print(f\"FileCache: Delete file {fn}, size {human_bytes_size(size)}. {delete_reason}.\")\n                try:\n                    os.remove(fn)\n                except Exception as exc:\n                    print(f\"FileCache: Error while removing {fn}: {type(exc).__name__}: {exc}\")\n                else:\n                    cur_expected_free += size\n"),
]
ENG = "returnn/torch/engine.py"
UPD = "returnn/torch/updater.py"
MUTANTS["P14"] = [
    ("zero-init", ENG, "        zero_grad_next_step = True\n        cur_count", "        zero_grad_next_step = self.epoch == 1\n        cur_count"),
    ("zero-cnt", ENG, "                    self._updater.get_optimizer().zero_grad()\n                    cur_count_grad_accum = 0\n", "                    self._updater.get_optimizer().zero_grad()\n                    cur_count_grad_accum = min(cur_count_grad_accum, 0) if self.epoch == 1 else 1\n"),
    ("acc-gt", ENG, "perform_update_step = cur_count_grad_accum >= accum_grad_multiple_step", "perform_update_step = (step_idx + 1) % accum_grad_multiple_step == 0"),
    ("acc-global", ENG, "perform_update_step = cur_count_grad_accum >= accum_grad_multiple_step", "perform_update_step = (self.global_train_step + 1) % accum_grad_multiple_step == 0"),
    ("acc-eq", ENG, "perform_update_step = cur_count_grad_accum >= accum_grad_multiple_step", "perform_update_step = cur_count_grad_accum == accum_grad_multiple_step"),
    ("step-after", ENG, "                    global_train_step=self.global_train_step, epoch=self.epoch, epoch_continuous=epoch_continuous\n                )\n        except", "                    global_train_step=step_idx, epoch=self.epoch, epoch_continuous=epoch_continuous\n                )\n        except"),
    ("step-cond", ENG, "                self.global_train_step += 1\n", "                if perform_update_step:\n                    self.global_train_step += 1\n"),
    ("lr-first", UPD, "            for param_group in self.optimizer.param_groups:\n", "            for param_group in self.optimizer.param_groups[:1]:\n"),
    ("mult-lost", UPD, "self._effective_learning_rate * self._learning_rate_multiplier", "self._effective_learning_rate"),
    ("lr-noupd", UPD, "        self._current_epoch_continuous = epoch_continuous\n        self._update_effective_learning_rate()", "        self._current_epoch_continuous = epoch_continuous\n        if self.learning_rate_function is not None and epoch_continuous:\n            self._update_effective_learning_rate()"),
    ("cont", ENG, "epoch_continuous = self.epoch - 1 + complete_frac if complete_frac >= 0.0 else None", "epoch_continuous = self.epoch - 1 + complete_frac if complete_frac > 0.5 else None"),
    ("norm-acc", ENG, "                accumulated_inv_norm_factors_dict += inv_norm_factors_dict\n                eval_info = self._maybe_extend_losses_info(losses_dict / inv_norm_factors_dict)\n                _print_process(\n                    report_prefix,\n                    step=step_idx,\n                    eval_info=dict(eval_info),\n                    step_duration=step_duration,\n                    start_elapsed=step_end_time - epoch_start_time,\n                    complete_frac=complete_frac,\n                    num_seqs=num_seqs,\n                    batch_size_info=_get_batch_size_info(extern_data) if self._log_batch_size else None,\n                    log_memory_usage_device=self._device if self._log_memory_usage else None,\n                )\n\n                if self._stop", "                accumulated_inv_norm_factors_dict += NumbersDict({k: max(v, 2.0) for k, v in inv_norm_factors_dict.items()})\n                eval_info = self._maybe_extend_losses_info(losses_dict / inv_norm_factors_dict)\n                if self._stop"),
    ("save-last", ENG, "if self.epoch % self._save_model_epoch_interval == 0 or self.epoch == self._final_epoch:", "if self.epoch % self._save_model_epoch_interval == 0:"),
    ("save-late", ENG, "        self.eval_model()\n        if self.config.bool_or_other(\"cleanup_old_models\", None):\n            self.cleanup_old_models()\n", "        self.eval_model()\n").__class__(("no-eval-mode", ENG, "        Runs model on all eval datasets and calculates the loss.\n        \"\"\"\n        self._pt_model.eval()\n", "        Runs model on all eval datasets and calculates the loss.\n        \"\"\"\n")),
    ("no-train-mode", ENG, "        self._pt_model.train()\n        self._maybe_reset_dev", "        self._maybe_reset_dev"),
    ("lr-epoch", ENG, "self.learning_rate_control.get_learning_rate_for_epoch(self.epoch)\n\n        # Update", "self.learning_rate_control.get_learning_rate_for_epoch(max(self.epoch, self._start_epoch + 1))\n\n        # Update"),
    ("seed", ENG, "seed_data = [self.epoch, self.global_train_step, random_seed]", "seed_data = [self.epoch, self.global_train_step, self._start_epoch, random_seed]"),
    ("last-epoch", ENG, "while self.epoch + 1 <= self._final_epoch:", "while self.epoch + 1 < max(self._final_epoch, self._start_epoch + 1):"),
    ("clip-unscale", UPD, "        if self._grad_clip_global_norm:\n", "        elif self._grad_clip_global_norm:\n"),
    ("eq-acc", ENG, "                cur_count_grad_accum += 1\n                perform_update_step = cur_count_grad_accum >= accum_grad_multiple_step\n", "                cur_count_grad_accum = cur_count_grad_accum + 1\n                perform_update_step = not (cur_count_grad_accum < accum_grad_multiple_step)\n"),
    ("eq-reset", ENG, "                if zero_grad_next_step:\n                    self._updater.get_optimizer().zero_grad()\n                    cur_count_grad_accum = 0\n", "                if cur_count_grad_accum == 0:\n                    self._updater.get_optimizer().zero_grad()\n").__class__(("eq-loop", ENG, "        while self.epoch + 1 <= self._final_epoch:\n            self.set_epoch(self.epoch + 1)\n            self.init_train_epoch()\n", "        for epoch in range(self._start_epoch, self._final_epoch + 1):\n            self.set_epoch(epoch)\n            self.init_train_epoch()\n")),
    ("eq-zero-after", ENG, "                zero_grad_next_step = perform_update_step\n", "                zero_grad_next_step = bool(perform_update_step)\n"),
    ("eq-lr", UPD, "            for param_group in self.optimizer.param_groups:\n                param_group[\"lr\"] = self._effective_learning_rate * self._learning_rate_multiplier\n", "            lr = self._learning_rate_multiplier * self._effective_learning_rate\n            for param_group in self.optimizer.param_groups:\n                param_group.update(lr=lr)\n"),
]
XD = "returnn/torch/data/extern_data.py"
QDF = "returnn/torch/data/queued_data_iter.py"
MUTANTS["P15"] = [
    ("oom-nocont", ENG, "                        data_loader.extend(extern_data_util.raw_dict_split_batch(extern_data_raw, splits=2))\n", "                        data_loader.extend(extern_data_util.raw_dict_split_batch(extern_data_raw, splits=2)[:1])\n"),
    ("cut-all", ENG, "raw = raw[tuple(slice(None, dim.get_dim_value()) for dim in y.dims)]", "raw = raw[tuple(slice(None, dim.get_dim_value()) for dim in x.dims[1:])]"),
    ("nocut", ENG, "            if any(d is not d_ for d, d_ in zip(x.dims[1:], y.dims)):  # replaced any dims?", "            if all(d is not d_ for d, d_ in zip(x.dims[1:], y.dims)):  # replaced any dims?"),
    ("move", ENG, "            if x.dims.index(batch_dim) != 0:\n                x = x.copy_move_axis(x.dims.index(batch_dim), 0)", "            if x.dims.index(batch_dim) > 1:\n                x = x.copy_move_axis(x.dims.index(batch_dim), 0)"),
    ("skip-check", ENG, "(self._min_seq_length is None) and (self._max_seq_length is None)", "(self._min_seq_length is None) or (self._max_seq_length is None)"),
    ("no-eval", ENG, "        elapsed_computation_time = 0.0\n\n        self._pt_model.eval()\n", "        elapsed_computation_time = 0.0\n\n"),
    ("last-seq", ENG, "for batch_idx in range(batch_dim.get_dim_value()):", "for batch_idx in range(max(batch_dim.get_dim_value() - (1 if complete_frac == 1.0 else 0), 1)):"),
    ("can-split", XD, "return batch_size >= num_splits", "return batch_size > num_splits"),
    ("queue-rev", QDF, "self._queue.extend(reversed(items))", "self._queue.extend(items)"),
    ("queue-drop", QDF, "self._queue.extend(reversed(items))", "self._queue = list(reversed(items))"),
    ("queue-order", QDF, "return self._queue.pop(-1)", "return self._queue.pop(0)"),
    ("split-cut", XD, 'max_len = torch.max(res_["%s:seq_len" % k])', 'max_len = torch.max(res[0]["%s:seq_len" % k])'),
    ("split-off", XD, "            res[i][k] = v[offset : offset + split_size]\n            offset += split_size\n", "            res[i][k] = v[offset : offset + split_size]\n            offset += splits[0]\n"),
    ("split-nd", XD, "        if v.ndim == 0:", "        if v.ndim == 0 and k != \"epoch\":"),
    ("eq-can", XD, "return batch_size >= num_splits", "return not batch_size < num_splits"),
    ("eq-queue", QDF, "        if self._queue:\n            return self._queue.pop(-1)\n        return next(self._iter)", "        if not self._queue:\n            return next(self._iter)\n        return self._queue.pop()"),
    ("eq-queue2", QDF, "self._queue.extend(reversed(items))", "for item in reversed(items):\n            self._queue.append(item)"),
    ("eq-split", XD, "        offset = 0\n        for i, split_size in enumerate(splits):\n            res[i][k] = v[offset : offset + split_size]\n            offset += split_size\n", "        start = 0\n        for part, split_size in zip(res, splits):\n            end = start + split_size\n            part[k] = v[start:end]\n            start = end\n"),
    ("eq-fwd", ENG, "                for batch_idx in range(batch_dim.get_dim_value()):\n                    seq_tag = extern_data[\"seq_tag\"].raw_tensor[batch_idx].item()\n", "                seq_tags = extern_data[\"seq_tag\"].raw_tensor\n                for batch_idx in range(batch_dim.get_dim_value()):\n                    seq_tag = seq_tags[batch_idx].item()\n"),
    ("eq-fwd2", ENG, "                    model_outputs_per_batch = TensorDict()\n                    for k, v in model_outputs.data.items():\n                        model_outputs_per_batch.data[k] = _get_tensor_wo_batch_numpy(v)\n", "                    model_outputs_per_batch = TensorDict()\n                    model_outputs_per_batch.data.update(\n                        {k: _get_tensor_wo_batch_numpy(v) for k, v in model_outputs.data.items()}\n                    )\n"),
]

HDF = "returnn/datasets/hdf.py"
MUTANTS["P16"] = [
    ("ext-keys", HDF, '        if extend_existing_file and "targets/data" in self._file:', '        if extend_existing_file and extra_type and "targets/data" in self._file:'),
    ("tag-width", HDF, 'max_tag_len = max(len(tag.encode("utf8")), max_tag_len)', "max_tag_len = max(len(tag), max_tag_len)"),
    ("key-order", HDF, "sorted(data_target_keys, key=hdf_data_key_map.get)", "sorted(data_target_keys)"),
    ("more-keys", HDF, "list(range(num_input_keys)) + [num_input_keys + self.target_keys.index(key) for key in prev_target_keys]", "[0] + [1 + self.target_keys.index(key) for key in prev_target_keys]"),
    ("bisect", HDF, "bisect.bisect(self.file_start, real_seq_idx) - 1", "max(bisect.bisect_left(self.file_start, real_seq_idx) - 1, 0)"),
    ("no-steps", HDF, '        self._file.attrs["numTimesteps"] += raw_data.shape[0]\n', '        self._file.attrs["numTimesteps"] += max(raw_data.shape[0], 1)\n'),
    ("col", HDF, "data_key_idx = sorted(self._prepared_extra).index(data_key) + 1", "data_key_idx = list(self._extra_num_time_steps).index(data_key) + 1"),
    ("reinit", HDF, "            for data_key_idx_0, data_key_ in enumerate(sorted(self._prepared_extra)):\n", "            for data_key_idx_0, data_key_ in enumerate(sorted(self._prepared_extra)[:1]):\n"),
    ("cut-axes", HDF, "slice(None, seq_len[axis][i]) for axis in range(ndim_with_seq_len)", "slice(None, seq_len[axis][i]) for axis in range(min(ndim_with_seq_len, 1))"),
    ("flat", HDF, "flat_seq_len = int(numpy.prod([seq_len[axis][i] for axis in range(ndim_with_seq_len)]))", "flat_seq_len = int(numpy.prod([max(seq_len[axis][i], 1) for axis in range(ndim_with_seq_len)]))"),
    ("cached-key", HDF, '            if key not in self.cached_h5_datasets[file_idx]:\n                assert "targets" in fin\n                self.cached_h5_datasets[file_idx][key] = fin["targets/data/" + key]  # see comment in __init__()\n\n            targets = self.cached_h5_datasets[file_idx][key]', '            if key not in self.cached_h5_datasets[0]:\n                assert "targets" in fin\n                self.cached_h5_datasets[0][key] = fin["targets/data/" + key]  # see comment in __init__()\n\n            targets = self.cached_h5_datasets[0][key]'),
    ("first-idx", HDF, "first_target_idx = 1 if self.num_inputs > 0 else 0  # self", "first_target_idx = 1 if self.num_inputs >= 0 else 0  # self"),
    ("tag-map", HDF, '        real_file_seq_idx = real_seq_idx - self.file_start[file_idx]\n\n        if "#seqTags"', '        real_file_seq_idx = real_seq_idx - self.file_start[-2]\n\n        if "#seqTags"'),
    ("dump-start", HDF, "        seq_idx = start_seq\n        seq_idxs = []", "        seq_idx = 0\n        seq_idxs = []"),
    ("seq-unchanged", "returnn/datasets/cached.py", "            seq_index_unchanged = numpy.array_equal(self._seq_index, seq_index)", "            seq_index_unchanged = len(self._seq_index) == len(seq_index)"),
    ("tag-idx", "returnn/datasets/cached.py", "        for i in range(self._num_seqs):\n            self._tag_idx[", "        for i in range(self.num_seqs):\n            self._tag_idx["),
    ("offsets", HDF, "            offsets += seq_len\n", "            offsets += NumbersDict({k: max(v, 1) for k, v in seq_len.items()})\n"),
    ("lens-order", HDF, "            data_len = [seq_len[data_input_key]] if data_input_key else []\n", "            data_len = [max(seq_len.values())] if data_input_key else []\n"),
    ("eq-comp", HDF, "            flat_shape = [flat_seq_len]\n            if self.dim and not sparse:\n                flat_shape.append(self.dim)\n", "            flat_shape = [flat_seq_len] + ([self.dim] if self.dim and not sparse else [])\n"),
    ("eq-shape", HDF, "        self._extra_num_time_steps[data_key] += raw_data.shape[0]\n        self._datasets[data_key].resize(self._extra_num_time_steps[data_key], axis=0)\n", "        num_frames = raw_data.shape[0]\n        new_size = self._extra_num_time_steps[data_key] + num_frames\n        self._extra_num_time_steps[data_key] = new_size\n        self._datasets[data_key].resize(new_size, axis=0)\n"),
    ("eq-dump", HDF, "            seq_idxs += [seq_idx]\n", "            seq_idxs.append(seq_idx)\n"),
    ("eq-dump2", HDF, "        for i, tag in enumerate(seq_tags):\n            hdf_dataset[\"seqTags\"][i] = ", "        tags_dataset = hdf_dataset[\"seqTags\"]\n        for i, tag in enumerate(seq_tags):\n            tags_dataset[i] = "),
    ("eq-read", HDF, "        start_pos = self.file_seq_start[file_idx][real_file_seq_idx]\n        end_pos = self.file_seq_start[file_idx][real_file_seq_idx + 1]\n\n        if key ==", "        seq_starts = self.file_seq_start[file_idx]\n        start_pos, end_pos = seq_starts[real_file_seq_idx], seq_starts[real_file_seq_idx + 1]\n\n        if key =="),
    ("eq-fidx", HDF, "return bisect.bisect(self.file_start, real_seq_idx) - 1", "return bisect.bisect_right(self.file_start[1:-1], real_seq_idx)"),
]

DX = "returnn/tensor/_dim_extra.py"
MUTANTS["P17"] = [
    ("eq-no-relu", DX, '                return _relu(rf.combine_bc(a, "add", b))', '                return _relu(rf.combine_bc(a, "add", b)) if isinstance(b, int) else rf.combine_bc(a, "sub", -b) + 0 * b'),
    ("eq-ceil", DX, 'return -rf.combine_bc(-a, "floordiv", b)', 'return rf.combine_bc(rf.combine_bc(a, "add", b), "sub", 1) // b'),
    ("ceil2", DX, 'return -rf.combine_bc(-a, "floordiv", b)', 'return rf.combine_bc(rf.combine_bc(a, "floordiv", b), "add", 1)'),
    ("mono-mul", DX, "is_monotonic = not any(_dim_may_be_negative(x_dim) for x_dim in inputs)", "is_monotonic = not any(_dim_may_be_negative(x_dim) for x_dim in inputs[1:])"),
    ("mono-div", DX, "is_monotonic = all(x_dim.dimension is not None for x_dim in inputs[1:])", "is_monotonic = True"),
    ("neg-op", DX, 'return bool(op) and op.kind != "add" and', 'return bool(op) and op.kind == "add" and'),
    ("nested", DX, "            if len(self.terms) == 1:\n                return i\n        return None", "            return i\n        return None"),
    ("divisible", DX, "            if any(not term.divisible(other, right=right) for term in self.terms):", "            if not any(term.divisible(other, right=right) for term in self.terms):"),
    ("divisible2", DX, "if most_recent_term.dimension % other.dimension == 0:\n                return True", "if most_recent_term.dimension >= other.dimension:\n                return True"),
    ("merge", DX, "b = _OpMultTerm.from_dim_factors(term.terms[:-1]).as_dim()", "b = _OpMultTerm.from_dim_factors(term.terms[:1] if len(term.terms) > 1 else []).as_dim()"),
    ("merge2", DX, "if most_recent_term.terms and term.terms and most_recent_term.terms[-1] == term.terms[-1]:", "if most_recent_term.terms and term.terms and most_recent_term.terms[0] == term.terms[0]:"),
    ("eq-neg-pop", DX, "            if most_recent_term == neg_term:", "            if most_recent_term in (neg_term, term.negative()):"),
    ("rev", DX, "most_recent_term = self.terms[-1 if right else 0] if self.terms else None", "most_recent_term = self.terms[-1] if self.terms else None"),
    ("eq-const", DX, "if term.dimension * other.dimension == 1:\n", "if abs(term.dimension * other.dimension) == 1:\n"),
    ("eq-const-div", DX, 'if kind.endswith("div") and term.dimension % other.dimension == 0:', 'if kind.endswith("div") and other.dimension <= term.dimension:'),
    ("eq-key-left", DX, "numerator._cache_dim_math_get(kind + (\"\" if right else \"_left\"), denominator)", "numerator._cache_dim_math_get(kind[:5] + (\"\" if right else \"_left\"), denominator)"),
    ("key-op", DX, 'cache, cache_key = self._cache_dim_math_key("ceildiv", other)', 'cache, cache_key = self._cache_dim_math_key("floordiv", other)'),
    ("key-static", DX, '(op_kind + "_with_static", same_base)', '(op_kind, same_base)'),
    ("cache-static", DX, 'if same_base.dimension is not None and isinstance(operand, _d.Dim) and operand.dimension is None:', 'if same_base.is_constant_static_dim() and isinstance(operand, _d.Dim) and operand.dimension is None:'),
    ("eq-clear-dyn", DX, "                if v.dyn_size_ext is not None or v.dimension is None:\n", "                if k.dimension is None and v.dimension is None:\n"),
    ("eq-add", DX, "        if kind == \"mul\":\n            is_monotonic = not any(_dim_may_be_negative(x_dim) for x_dim in inputs)\n", "        if kind == \"mul\":\n            is_monotonic = True\n            for x_dim in inputs:\n                if _dim_may_be_negative(x_dim):\n                    is_monotonic = False\n                    break\n"),
    ("eq-relu", DX, "            if kind == \"add\":\n                return _relu(rf.combine_bc(a, \"add\", b))\n            elif kind == \"sub\":\n                return _relu(rf.combine_bc(a, \"sub\", b))\n", "            if kind in (\"add\", \"sub\"):\n                total = rf.combine_bc(a, kind, b)\n                return _relu(total)\n"),
    ("eq-merge", DX, "                res = _OpMultTerm.from_dim((a + b) if right else (b + a))\n                res.extend_mul_div_(term.terms[-1], kind=\"mul\", right=True)\n                self.terms[-1 if right else 0] = res\n                return", "                factor = a + b if right else b + a\n                merged = _OpMultTerm.from_dim(factor)\n                merged.extend_mul_div_(term.terms[-1], kind=\"mul\", right=True)\n                self.terms[-1 if right else 0] = merged\n                return"),
    ("eq-asdim", DX, "        res = self.terms[0]\n        for operand in self.terms[1:]:\n            res = _math_get_dim_via_bin_op(res, operand, \"mul\")\n        return res", "        import functools; return functools.reduce(lambda x, y: _math_get_dim_via_bin_op(x, y, \"mul\"), self.terms)"),
]
