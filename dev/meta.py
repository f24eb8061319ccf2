"""property metadata -> properties.jsonl and MANIFEST.json (python3 dev/gen.py)"""
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, level_note):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]), level_note=level_note)


BASE_NOTE = (" Bounded, not counted as proved: the same contract at run time on the unmodified code for generated cases."
             " Trusted: the pyvc verification-condition generator in /verif/pyvc, z3/cvc5, and the contracts of numpy and library calls listed in the evidence.")

prop("P01", "Sub-epochs and shards tile the epoch",
     "For every number of sequences, partition_epoch and shard count, the sub-epoch/shard parts of one full epoch are disjoint and together contain every sequence of the epoch's order exactly once, in that order, and their sizes differ by at most one. "
     "All sub-epochs and shards of the same full epoch are cut from the same underlying order (same random seed), and a configured fixed seed is used unchanged.",
     ["inputs", "configurations"], "every corpus size, partition_epoch, repeat count, shard count, shard index and epoch",
     "tests use one or two small corpora; the index arithmetic must hold for all sizes and remainders",
     ["returnn/datasets/basic.py"],
     [("partition split", "Dataset._apply_partition_epoch_and_sharding / get_seq_order_for_epoch"), ("seed per full epoch", "Dataset._get_random_seed_for_epoch")],
     "Unbounded proof over corpus size, partition count, shard count and epoch: tiling, balance and seed arithmetic of the real functions; orders default, reverse and random composed with the partition.")

prop("P02", "Sequence ordering is a rearrangement",
     "Each sequence ordering (default, reverse, sorted, sorted_reverse, random, sort_bin_shuffle, sort_bin_shuffle_x2, laplace, with their bin and fixed-epoch parameters) yields every sequence of the corpus exactly once; sorted orderings are monotone in the length and stable. "
     "Repeating an epoch repeats that order, the tag filter keeps exactly the sequences with listed tags, and unique_seq_tags keeps exactly one sequence per tag.",
     ["inputs", "configurations"], "every corpus size, length assignment, number of bins, epoch and random outcome",
     "off-by-one errors in the bin arithmetic show only for particular remainders and bin counts; tests check a few sizes",
     ["returnn/datasets/basic.py"],
     [("orderings", "Dataset.get_seq_order_for_epoch"), ("filter and unique tags", "Dataset.get_seq_order_for_epoch")],
     "Unbounded proof: occurrence counting of an arbitrary index through every ordering branch of the real get_seq_order_for_epoch, with loop invariants on the bin loops; random shuffles are arbitrary permutations.")

prop("P03", "Chunking tiles every sequence",
     "With chunking, the chunks of a sequence start at 0 and advance by exactly the chunk step, each has the chunk size cut off at the end of the sequence, none is empty, and no frames are dropped beyond what the minimum chunk size allows; sequences keep their order and are never skipped otherwise. "
     "Data that is not chunked (keys with at most one frame, or keys without configured chunking) is given in full with every chunk, and without chunking every sequence is given once in full.",
     ["inputs", "configurations"], "every sequence length, chunk size, chunk step, minimum chunk size and set of data keys",
     "boundary combinations of length, step and minimum are unbounded; tests sample a handful",
     ["returnn/datasets/basic.py", "returnn/torch/data/pipeline.py"],
     [("chunk iteration", "Dataset.iterate_seqs"), ("chunk options", "Dataset._parse_chunking"), ("torch chunking", "ChunkingIterDataPipe.__iter__")],
     "Unbounded proof over lengths, chunk size/step/minimum and number of sequences for Dataset.iterate_seqs (key sets data, data+classes) and ChunkingIterDataPipe (one chunked key).")

prop("P04", "Batching is loss-free, in order and within the limits",
     "Grouping sequences into batches puts every sequence (or chunk, or frame) that passes the length filters into exactly one batch, in order; a batch is never empty, never has more than the maximum number of sequences, and if it has several sequences its padded size and padding stay within the limits; it is closed early only if the next sequence would not fit. "
     "The batch buffer hands out exactly these batches: peeking never skips or repeats, advancing consumes, and it reports more batches exactly while some are left.",
     ["inputs", "configurations", "histories"], "every stream of sequence lengths, every limit, every interleaving of peek/advance/has_more",
     "greedy grouping state depends on the whole stream history; tests check a few fixed streams",
     ["returnn/torch/data/pipeline.py", "returnn/datasets/basic.py", "returnn/engine/batch.py"],
     [("torch batching", "BatchingIterDataPipe.__iter__"), ("TF batching", "Dataset._generate_batches"), ("batch state", "Batch.add_sequence_as_slice, Batch.add_frames"), ("batch buffer", "BatchSetGenerator")],
     "Unbounded proof over the stream and the limits: loop invariants on BatchingIterDataPipe.__iter__ and Dataset._generate_batches (sequence and frame mode), class invariant of BatchSetGenerator. Batch.get_total_num_frames is bounded (1 and 3 parts).")

prop("P05", "Training resumes at the newest usable checkpoint",
     "For every set of files in the model directory and every configured number of epochs, the existing models found for training are exactly the epochs whose model file and optimizer state file both exist (for other tasks the model file suffices). "
     "Training starts at the epoch after the newest such epoch, or at the configured first epoch if there is none, and loads exactly that epoch's model; no epoch is repeated or skipped; a checkpoint of a later epoch is never ignored in favour of an earlier one.",
     ["histories", "inputs", "configurations"], "every directory content, number of epochs, task and import/start options",
     "the outcome depends on which of unboundedly many files exist after an arbitrary interruption; tests try one or two directories",
     ["returnn/engine/base.py"],
     [("existing checkpoints", "EngineBase.get_existing_models"), ("selection", "EngineBase.get_epoch_model"), ("start epoch", "EngineBase.get_train_start_epoch"), ("last epoch", "EngineBase.config_get_final_epoch")],
     "Unbounded proof over the set of existing files and the number of epochs (loop invariant on the epoch scan), per backend file postfix and task.")

prop("P06", "Checkpoint clean-up never deletes a model that must be kept",
     "For every history of scores and every set of stored checkpoints, automatic clean-up (cleanup_old_models) deletes only stored epochs, and never one of the last keep_last_n epochs, one of the keep_best_n best epochs by any recorded score, or an epoch in the configured or default keep pattern; everything else is deleted. "
     "An epoch without a score counts as the worst, score keys that are constant are ignored, and with dry_run nothing is deleted.",
     ["histories", "inputs", "configurations"], "every set of stored epochs, every score history (ties, missing and NaN scores included), every keep option",
     "which checkpoint is lost depends on the ranking over the whole score history; the tests never run the clean-up",
     ["returnn/engine/base.py"],
     [("retention", "EngineBase.cleanup_old_models"), ("default pattern", "EngineBase.cleanup_old_models / default_keep_pattern")],
     "Unbounded proof over the set of stored epochs and scores with one score key (configured keep list, default pattern, default options), NaN-free real scores; two score keys only in the thorough tier.")

prop("P07", "The learning rate is a function of the recorded history",
     "Each learning rate control (constant, newbob relative/absolute/multi-epoch) computes the rate of an epoch only from the default rate, the rates and scores recorded for earlier epochs and the configured thresholds: without usable history it is the previous (or default) rate, otherwise exactly one decay or growth step is applied, decided by comparing the (mean) relative or absolute score change with the threshold, and decay never goes below min_learning_rate. "
     "A rate once recorded for an epoch (also from configured learning_rates) is never changed by asking for it again, min_num_epochs_per_new_learning_rate is honoured, and saving and loading the file gives the same history and so the same rates.",
     ["histories", "configurations"], "every history of epochs, rates and scores and every setting",
     "the rate depends on the whole history; tests pin a handful of fixed sequences",
     ["returnn/learning_rate_control.py"],
     [("history lookup", "LearningRateControl.get_last_epoch, _last_epochs_for_epoch, get_most_recent_learning_rate"), ("decision", "NewbobRelative, NewbobAbs, NewbobMultiEpoch, ConstantLearningRate .calc_learning_rate_for_epoch; calc_relative_error; calc_learning_rate_decay_or_grow"), ("recording", "get_learning_rate_for_epoch, set_default_learning_rate_for_epoch"), ("file", "save, load")],
     "Unbounded proof over histories (rates and scores as real numbers) of lookup, decision and recording functions; calc_new_learning_rate_for_epoch bounded to windows of 3; file round trip and score key selection bounded (run-time).")

prop("P08", "A crash never leaves a broken or lost checkpoint",
     "If the process dies or a write fails at any point while saving the learning rate file, the model, the optimizer state or an HDF dump, then every file under its final name is complete (the old or the new content, never a partial one), and once an epoch has been completely saved there is always an epoch with both model and optimizer state among the last two to resume from. "
     "Training resumed from there ends with the same parameters as an uninterrupted run.",
     ["crash_points", "histories"], "every crash point or failing file operation in every epoch",
     "tests never crash in the middle of a save",
     ["returnn/learning_rate_control.py", "returnn/torch/updater.py", "returnn/torch/engine.py", "returnn/datasets/hdf.py"],
     [("LR file", "LearningRateControl.save"), ("optimizer", "Updater.save_optimizer"), ("model and epoch order", "Engine._save_model, Engine._save_optimizer"), ("HDF dump", "SimpleHDFWriter.close")],
     "Proof over a ghost file system with a crash allowed after every operation and an error at every operation: file invariant and pair invariant for an arbitrary epoch. Resumption giving the same parameters is bounded (real training, crash at every file operation of 3 epochs).")

prop("P09", "The torch data pipeline neither loses, duplicates nor mixes sequences",
     "Each stage of the torch data pipeline passes on every sequence exactly once with its own data: the dataset wrapper gives all sequences of the epoch in order with their own tag, index and complete fraction; the length filter removes exactly the sequences outside the limits; bucket batching puts every sequence not longer than the largest bucket in exactly one batch, in order within its bucket, within the bucket's length and number of sequences; batch shuffling and LaplaceOrdering only rearrange within a window of the configured size, LaplaceOrdering sorting up and down alternately, while complete_frac (and the other monotonic keys) keep their order. "
     "Collating pads every sequence with zeros without changing its values, keeps row j for sequence j and records the lengths before padding. All of this also holds for a stream with no sequences.",
     ["inputs", "configurations"], "every stream length, sequence lengths, window or bucket configuration and random choice",
     "the windows are refilled while being given out; whether one is lost depends on stream length modulo window size; tests use a few streams",
     ["returnn/torch/data/pipeline.py", "returnn/torch/data/returnn_dataset_wrapper.py", "returnn/datasets/postprocessing.py"],
     [("wrapper", "ReturnnDatasetIterDataPipe.__iter__"), ("filter", "LenFilterDataPipe.__iter__"), ("buckets", "BucketOrderingIterDataPipe.__iter__"), ("shuffling", "ShufflingDataPipe.__iter__"), ("laplace", "LaplaceOrdering.__call__"), ("collate", "collate_batch, create_tensor")],
     "Unbounded proof over the stream, limits and window sizes with loop invariants and arbitrary random choices; buckets for 1 to 3 buckets. Monotonic keys of the shuffling and create_tensor bounded (run-time).")

prop("P10", "A dataset window gives exactly the requested sequences, in any access order",
     "A dataset with a moving window (CachedDataset2) collects every sequence of the epoch at most once, in increasing order, and holds exactly the existing sequences of the range that was loaded, in order and none missing, whatever ranges a consumer loads with increasing starts; data, targets, tag and length asked for sequence i are those of sequence i; asking whether there are more than n sequences is answered n < number of sequences, whether that number is known in advance or not, and asking for the tag, the length or the number of sequences never moves the window, and a new epoch keeps nothing of the previous one. "
     "The complete fraction of the epoch is in (0,1] and does not decrease; with the number of sequences known it is exactly (i+1)/n; where a value suitable for the learning rate is asked for and the number is not known, none is given.",
     ["inputs", "histories"], "every history of load and access calls with increasing starts, every number of sequences",
     "whether a sequence is lost or collected twice depends on how the loaded ranges overlap; tests iterate one by one",
     ["returnn/datasets/cached2.py", "returnn/datasets/basic.py"],
     [("window", "CachedDataset2._load_seqs, _cleanup_old_seqs, _get_seq"), ("access", "CachedDataset2.get_data, get_tag, get_seq_length, is_less_than_num_seqs"), ("fraction", "Dataset.get_complete_frac, generic_complete_frac")],
     "Unbounded proof: class invariant of the window preserved by every operation from an arbitrary state, with loop invariants; consumer histories additionally run concretely. _collect_single_seq of the subclasses assumed to give sequence i.")

prop("P11", "Datasets made of others give exactly their parts' sequences and data",
     "ConcatDataset gives the sequences of all its parts, one part after the other; CombinedDataset gives every sequence of its parts exactly once (in default order, or in random_dataset order, which keeps the order within each part) or, with sampling sizes, the configured number per part cycling through the part; MetaDataset gives, for every data key, the data of the part it is mapped to for the very sequence whose tag is given (parts are aligned by their tags, whatever order or list of sequences is asked for); ConcatSeqsDataset gives the concatenation of exactly the sub sequences of its tag, in that order; MultiEpochDataset gives the configured number of consecutive inner epochs, none skipped or repeated over the epochs. "
     "This holds for every number of sequences per part (also empty parts), for every way the consumer loads ranges with increasing starts, also beyond the end, and when the same epoch is started again; data and tag of a sequence always come from the same part and sequence.",
     ["inputs", "histories"], "every number and size of parts, order and history of loaded ranges",
     "which part and position a global index maps to depends on sizes of the parts (also 0), overlap of the ranges and on re-starting an epoch; tests use two equal parts read once",
     ["returnn/datasets/meta.py", "returnn/datasets/cached2.py"],
     [("concat", "ConcatDataset._get_dataset_for_seq_idx, _load_seqs, _collect_single_seq, init_seq_order"), ("combined", "CombinedDataset.init_seq_order, _seq_idx_to_dataset_seq_idx, _load_seqs, _collect_single_seq"), ("meta", "MetaDataset.init_seq_order, _load_seqs, _collect_single_seq"), ("inner epochs", "MultiEpochDataset.init_seq_order, _collect_single_seq"), ("concat seqs", "ConcatSeqsDataset.init_seq_order")],
     "Proof per function for all sizes and indices, from an arbitrary state under the window invariant (number of parts fixed to 1..3, or any number for the index maps of CombinedDataset); loop invariants with ghost counts per part. Sampling and random_dataset orders and concatenated arrays bounded (real datasets, histories run concretely).")

prop("P12", "Multi-process and file-distributed datasets lose and repeat no sequence",
     "MultiProcDataset gives the sequences of the wrapped dataset, each exactly once with its own data and tag: with sharding method seq_order in exactly the order of the wrapped dataset, with dedicated the shards read round robin; this is independent of the number of workers, the buffer size, how far the workers have read ahead when a request arrives, and of epochs that were started, partly read, started again or finished before; the complete fraction does not decrease within an epoch; where the wrapped dataset does not know its number of sequences (and no shard is empty) all this holds, too. "
     "DistributeFilesDataset puts every file into exactly one bin, in order, and no bin is empty, for all file sizes; in every full epoch the sub-epochs of all shards together read every file, and so every sequence, exactly once; which files a sub-epoch of a shard gets depends only on the epoch, the shard and the seed, not on which epochs were read, preloaded, interrupted or resumed before.",
     ["inputs", "schedules", "histories"], "every schedule of requests and reading ahead, every history of epochs, all file sizes",
     "depends on how far each process has read ahead and what earlier epochs left in buffers and caches; tests run one schedule",
     ["returnn/datasets/multi_proc.py", "returnn/datasets/distrib_files.py"],
     [("worker", "MultiProcDataset._worker_proc_loop, distrib_files._worker_proc_loop"), ("consumer", "MultiProcDataset.init_seq_order, _collect_single_seq"), ("files", "DistributeFilesDataset._distribute_evenly_by_size, init_seq_order, _get_sub_dataset_dict, _collect_single_seq")],
     "Unbounded proof: the worker loop has an inductive invariant, proved for one arbitrary message in an arbitrary state with an arbitrary amount of reading ahead; request routing for any number of workers, distribution for any files and sizes. Real workers additionally run as threads over stand-in pipes. Death of a worker process not covered.")

prop("P13", "Cached files are exact copies and are never removed while in use",
     "FileCache.get_file returns a file in the cache directory with exactly the content of the source, for every history of earlier calls, of sources changed in between (newer modification time or other size), of copies that were interrupted or failed at any point (crash, full disk, other errors), of left-over temporary, lock and info files, and of clean-ups; a copy that fails for lack of space is tried again up to the configured number of tries, and get_file succeeds if one of them does. "
     "A file obtained and not yet released (as often as it was obtained) keeps being marked as in use, together with its info file and directories, whatever other files are obtained or released meanwhile; a clean-up never removes a file marked as in use within the last 10 seconds, nor anything outside the cache directory. A clean-up removes a file only if it is older than the configured age, or the space is needed, or it is old and more free space is wanted; oldest first; afterwards the space needed is free, or it fails, and then only if every file left is in use.",
     ["inputs", "histories", "crash_points", "schedules"], "every history of calls, source changes, crash points and clean-ups, every interleaving with the thread that marks files",
     "a stale or partial copy shows only after a crash or change at one particular point, and removal of a used file only in one interleaving; the test copies one file once",
     ["returnn/util/file_cache.py"],
     [("copy", "FileCache.get_file, _copy_file_if_needed, _check_existing_copied_file_maybe_cleanup, _copy_with_prealloc"), ("use", "_TouchFilesThread.files_extend, files_remove, run"), ("clean-up", "FileCache.cleanup")],
     "Proof over a ghost file system with an obligation at every crash point and a source that may change at any time; clean-up loop with invariants for any number of files, ages and sizes; tries for any number. Mutual exclusion by the lock file assumed; round of the touch thread for up to 2 files with all interleavings; histories run concretely.")

prop("P14", "Training uses every batch once, in whole groups, at the right rate",
     "In torch training every batch of every epoch up to the last is run exactly once in training mode; the parameters are updated once per group of exactly accum_grad_multiple_step batches (a number or a function of epoch, fraction and global step), from the gradients of exactly these batches, and batches of an unfinished group at the end of an epoch never leak into the next; the global step counts batches over all epochs and restarts, and every update uses, in all parameter groups, dynamic_learning_rate (or the rate of the epoch) for the global step of its batch, the epoch and the fraction finished before that batch, times learning_rate_multiplier. "
     "The recorded train and evaluation scores are the sum of the losses divided by the sum of their norm factors over all batches, evaluation runs in evaluation mode and changes no parameter, and the random numbers of an epoch do not depend on restarts. "
     "The model is saved in every save_interval-th and the last epoch, with its epoch and global step, before it is evaluated and old models are cleaned up.",
     ["inputs", "configurations", "histories"], "every number of batches and epochs, accumulation and rate function, losses and restart",
     "whether a group is cut, a gradient leaks or the rate is one step late depends on the number of batches modulo the group size and on restarts; tests train a few steps with the defaults",
     ["returnn/torch/engine.py", "returnn/torch/updater.py"],
     [("training", "Engine.train, init_train_epoch, train_epoch"), ("evaluation", "Engine.eval_model"), ("optimizer", "Updater.set_learning_rate, set_current_train_step, step, create_optimizer")],
     "Unbounded proof over the number of batches and epochs, with loop invariants found among candidates (Houdini) over ghost gradients, groups, sums and rates. Losses per batch fixed to two, no distributed training; gradients themselves (torch) and saved parameters compared with a numpy re-computation at run time (bounded).")

prop("P15", "Forwarding gives every sequence's own output to the callback exactly once",
     "In the torch forward task the callback is initialised once, then gets every sequence of the dataset exactly once, in the order of the data loader, with its own tag and, for each output, exactly the values of this sequence without padding and with its own sizes as numpy arrays, and is then finished once; the model runs in evaluation mode. "
     "This also holds when a batch which does not fit into memory is split (forward_auto_split_batch_on_oom): the parts are consecutive, no sequence is lost, repeated or reordered, and entries for the whole batch are kept in every part. "
     "Options that would drop sequences (min_seq_length, max_seq_length) are refused unless allow_skipping_seqs is given.",
     ["inputs", "configurations"], "every number of sequences, lengths, batches and splits, and every point where memory runs out",
     "wrong cutting shows only for particular lengths within a batch, and lost parts only when memory runs out in a particular batch; tests forward one small batch",
     ["returnn/torch/engine.py", "returnn/torch/data/extern_data.py", "returnn/torch/data/queued_data_iter.py"],
     [("forward", "Engine.forward_with_callback"), ("split", "raw_dict_split_batch"), ("queue", "QueuedDataIter")],
     "Unbounded proof over the number of batches and sequences per batch (loop invariants, tensors as symbolic views of sequence values); splitting of a batch of any size into up to 3 parts; the queue for bounded histories. Values compared with real torch forwarding at run time (bounded).")

prop("P16", "What is written to HDF files is read back exactly, per sequence and key",
     "Sequences written by SimpleHDFWriter (in any batches of padded data, with one or several dynamic axes, with extra data keys, into a new file or extending an existing one) or dumped by HDFDatasetWriter from a dataset are read by HDFDataset (without cache, the default) with exactly their tag, values, lengths, types and labels for every data key. "
     "This holds for one or several files, also if later files have further keys or there is no main input, for every order or list of sequences asked for, and by index, tag or corpus index; the lengths reported are those of the data. "
     "Nothing written before is changed when a file is extended.",
     ["inputs", "configurations", "histories"], "every number, length, dimension and batching of sequences, set of keys and order of reading",
     "offsets into the flat arrays depend on all sequences before and on the sorted order of the keys; a wrong column shows only with several keys of different lengths, files or a second writing; tests write one key in one batch",
     ["returnn/datasets/hdf.py", "returnn/datasets/cached.py"],
     [("write", "SimpleHDFWriter.insert_batch, _insert_h5_inputs, _insert_h5_other, _prepare_extra"), ("dump", "HDFDatasetWriter.dump_from_dataset"), ("read", "HDFDataset.add_file, _get_data_by_real_seq_idx, get_tag"), ("order", "CachedDataset.init_seq_order")],
     "Unbounded proof over the number of sequences, lengths and batches with loop invariants over the positions in the flat arrays of the file (contract of h5py assumed); sets of keys from a fixed list, 1 to 3 files. Real files written and read at run time (bounded). Reading with a cache not covered.")

prop("P17", "Arithmetic on dimensions gives the sizes of integer arithmetic, in every batch",
     "A dimension built by +, -, *, //, true division and ceildiv from static and dynamic dims and ints has for every sequence of the batch exactly the size of integer arithmetic, whatever simplification or caching is done, as long as no difference or partial sum is negative and true division has no remainder; equal dims have equal sizes and hashes. "
     "Its axis is never shorter than the longest sequence and its mask marks exactly the positions below the size. "
     "After the sizes of the dynamic dims were reset and set for a new batch, dims derived anew have the sizes of the new batch (eager execution).",
     ["inputs", "histories"], "every expression of dims, every size of every sequence, every number of batches",
     "the simplifications depend on the structure of the whole expression and the caches on what was derived before and in which batch; tests check a few expressions, mostly by name",
     ["returnn/tensor/_dim_extra.py"],
     [("simplification", "_OpLinearTerm.extend_add_sub_, extend_mul_div_, _OpMultTerm.extend_mul_div_, divisible, new_div_dim"), ("operators and caches", "_DimMixin.__add__ ..., _cache_dim_math_key, _CacheDimMath, _math_get_dim_via_bin_op"), ("sizes", "_DimMixin.complete_dyn_size, get_dim_value_tensor, get_mask"), ("new batch", "_DimMixin.reset_raw")],
     "Unbounded proof over the sizes: the expression the result says it is derived from has the value of integer arithmetic, for all expressions of two operations (three for a selection; structures are enumerated), the sizes computed from one operation at an arbitrary batch entry, and the same over three batches after resets. Longer expressions, masks and equality at run time on torch (bounded).")

NOT_APPLICABLE = []
