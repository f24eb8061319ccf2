From 2fe07481cfdb7f650432c1e7ff70cc2a772fe5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:16 +0000
Subject: [PATCH 01/26] fix: sort_bin_shuffle seq ordering returns float
 indices when a bin is empty

numpy.concatenate over plain lists yields float64 as soon as one of the lists is empty,
i.e. with fewer sequences than bins. Using such a sequence order fails later
(e.g. 'list indices must be integers').
---
 returnn/datasets/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 798ef00..f4bd61b 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -603,7 +603,8 @@ class Dataset:
                     part = seq_index[i * len(seq_index) // bins : (i + 1) * len(seq_index) // bins][:]
                 if seq_ordering_method.startswith("sort_bin_shuffle_x2"):
                     random_generator.shuffle(part)  # Shuffle within the bin.
-                out_index.append(part)
+                # Explicit dtype. An empty bin (fewer seqs than bins) would otherwise turn all indices into floats.
+                out_index.append(numpy.array(part, dtype="int64"))
             seq_index = numpy.concatenate(out_index)
         elif seq_ordering_method.startswith("laplace"):
             assert get_seq_len
-- 
2.43.0


From 9bbc0477f70d1875598c2b565cad7c6d1e861d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:20 +0000
Subject: [PATCH 02/26] fix: chunking drops all but the first chunk if some
 data key has seq length 0 or 1

Such keys are returned in full for every chunk (see the comment),
but they were still considered for the end-of-seq check (min_chunk_size).
---
 returnn/datasets/basic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index f4bd61b..8007f59 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -1227,7 +1227,13 @@ class Dataset:
                         chunk_end.value = None
                     yield s, chunk_start, chunk_end
                     t += chunk_step
-                    if any([length[key] - t[key] <= self.min_chunk_size[key] for key in length.keys()]):
+                    if any(
+                        [
+                            length[key] - t[key] <= self.min_chunk_size[key]
+                            for key in length.keys()
+                            if key not in keys_with_full_seqs
+                        ]
+                    ):
                         break
             s += 1
 
-- 
2.43.0


From 8d3c90aed212928e266f6fe4facd2e5726e6e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:34 +0000
Subject: [PATCH 03/26] fix: cleanup_old_models can delete the best checkpoints
 when some epoch has a NaN score

---
 returnn/engine/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/returnn/engine/base.py b/returnn/engine/base.py
index df75cce..caaa7e6 100644
--- a/returnn/engine/base.py
+++ b/returnn/engine/base.py
@@ -377,11 +377,16 @@ class EngineBase:
             score_keys.update(data.error.keys())
         assert score_keys
         score_keys = sorted(score_keys)
+
+        def _nan_as_worst(score):
+            # NaN (e.g. diverged epoch) does not compare to anything, i.e. it would break min/max/sorted below.
+            return float("inf") if score != score else score
+
         score_values = {key: [] for key in score_keys}
         for epoch in epochs:
             epoch_scores = lr_control.epoch_data[epoch].error
             for key in epoch_scores.keys():
-                score_values[key].append(epoch_scores[key])
+                score_values[key].append(_nan_as_worst(epoch_scores[key]))
         for key in list(score_keys):
             scores = score_values[key]
             if len(scores) == 0:
@@ -399,7 +404,10 @@ class EngineBase:
         worst_score_values = {key: max(scores) for (key, scores) in score_values.items()}
         for key in score_keys:
             scores = sorted(
-                [(lr_control.epoch_data[epoch].error.get(key, worst_score_values[key]), epoch) for epoch in epochs]
+                [
+                    (_nan_as_worst(lr_control.epoch_data[epoch].error.get(key, worst_score_values[key])), epoch)
+                    for epoch in epochs
+                ]
             )
             scores = scores[:keep_best_n]
             keep_epochs.update([v[1] for v in scores])
-- 
2.43.0


From 378fad722d5a40a8409a4ce5312ce3fddc22f3df Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 04/26] fix: empty stream in ShufflingDataPipe and
 LaplaceOrdering

Both failed with an AssertionError when the input has no sequences,
as the end of the iterator is only noticed after yielding something.
---
 returnn/datasets/postprocessing.py | 2 +-
 returnn/torch/data/pipeline.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index e477d7a..eedc383 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -433,7 +433,7 @@ class LaplaceOrdering(Callable[[Iterator[TensorDict]], Iterator[TensorDict]]):
                     has_ended = True
 
             if len(seq_buffer) < self.num_seqs_per_bin:
-                assert has_ended and not next_seq_buffer
+                assert (has_ended or not seq_buffer) and not next_seq_buffer
                 break
 
             is_down_phase = not is_down_phase
diff --git a/returnn/torch/data/pipeline.py b/returnn/torch/data/pipeline.py
index fa6237d..40a8abc 100644
--- a/returnn/torch/data/pipeline.py
+++ b/returnn/torch/data/pipeline.py
@@ -566,7 +566,7 @@ class ShufflingDataPipe(torch.utils.data.IterDataPipe):
                     has_ended = True
 
             if len(self._buffer) < self._buffer_size:
-                assert has_ended and not self._next_buffer
+                assert (has_ended or not self._buffer) and not self._next_buffer
                 break
 
             self._buffer.clear()
-- 
2.43.0


From cc95f4153c5385df81befb294b21c26a5aad4af1 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 11:04:34 +0000
Subject: [PATCH 05/26] fix: Dataset.get_complete_frac fails if num_seqs is
 only estimated or unknown

math.isinf(None) raised a TypeError when there is no estimate,
and a too low estimate triggered the assertion.
---
 returnn/datasets/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 8007f59..bbd6b20 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -972,8 +972,10 @@ class Dataset:
                 num_seqs = self.estimated_num_seqs
             except Exception:  # also not always available
                 num_seqs = None  # ignore
+            if num_seqs is not None:
+                num_seqs = max(num_seqs, sorted_seq_idx + 1)  # it is only an estimate, can be too low
 
-        if math.isinf(num_seqs):
+        if num_seqs is not None and math.isinf(num_seqs):
             if allow_only_lr_suitable:
                 # cannot compute meaningful complete_frac for infinite num_seqs
                 return None
-- 
2.43.0


From 03be3b4b90517896d92efb112b7d977ec1124292 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:17:36 +0000
Subject: [PATCH 06/26] fix: ConcatDataset/CombinedDataset re-init of the same
 epoch, ConcatDataset with seq_list

---
 returnn/datasets/meta.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 0fe2190..98f27dd 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -782,7 +782,9 @@ class ConcatDataset(CachedDataset2):
         :param list[str]|None seq_list: List of sequence tags, to set a predefined order.
         :param list[int]|None seq_order: List of corpus sequence indices, to set a predefined order.
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = (
+            self.epoch is None or self.epoch != epoch or seq_list is not None or self.expected_load_seq_start > 0
+        )
         super(ConcatDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.dataset_seq_idx_offsets = [0]
         if not need_reinit:
@@ -794,7 +796,7 @@ class ConcatDataset(CachedDataset2):
             seq_lists = []
             for dataset in self.datasets:
                 # This depends on the num_seqs of our childs.
-                seq_lists += seq_list[: dataset.num_seqs]
+                seq_lists.append(seq_list[: dataset.num_seqs])
                 seq_list = seq_list[dataset.num_seqs :]
             assert len(seq_list) == 0  # we have consumed all
         else:
@@ -1033,7 +1035,7 @@ class CombinedDataset(CachedDataset2):
         """
 
         assert seq_list is None and seq_order is None, "seq_list and seq_order not supported for %s" % self.__class__
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0
         num_seqs_saved = self._num_seqs
         super(CombinedDataset, self).init_seq_order(
             epoch=epoch, seq_list=seq_list, seq_order=seq_order
-- 
2.43.0


From cf0d2a2aa4c8388c12ee223317a5cbe8187ce3bb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:17:37 +0000
Subject: [PATCH 07/26] fix: CombinedDataset with sampling_sizes fails in
 initialize

---
 returnn/datasets/meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 98f27dd..71e2df9 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1191,7 +1191,11 @@ class CombinedDataset(CachedDataset2):
         assert not self.unique_seq_tags, "unique_seq_tags not supported in combination with sampling_sizes."
         assert self.seq_tags_filter is None, "seq_order_seq_lens_file in combination with sampling_sizes."
 
-        epoch = self.epoch or 1
+        if self.epoch is None:
+            # Same as in get_seq_order_for_epoch. Wait until we init the real relevant epoch.
+            # The sub-datasets might not have any seqs at this point.
+            return []
+        epoch = self.epoch
 
         total_num_seqs = sum(self.sampling_sizes.values())
 
-- 
2.43.0


From 0b6d13cca980ee64005d8c4c006ed1083c2b6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:18:44 +0000
Subject: [PATCH 08/26] fix: load_seqs beyond num_seqs in MetaDataset,
 ConcatDataset, StaticDataset

---
 returnn/datasets/generating.py |  4 +++-
 returnn/datasets/meta.py       | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 3d08804..3091cce 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -1166,8 +1166,10 @@ class StaticDataset(CachedDataset2):
     def _collect_single_seq(self, seq_idx):
         """
         :param int seq_idx:
-        :rtype: DatasetSeq
+        :rtype: DatasetSeq|None
         """
+        if seq_idx >= len(self._seq_order):
+            return None
         corpus_seq_idx = self._seq_order[seq_idx]
         data = self.data[corpus_seq_idx]
         return DatasetSeq(
diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 71e2df9..bde00fb 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -503,10 +503,11 @@ class MetaDataset(CachedDataset2):
         start_ = start
         if self.added_data:
             start_ = max(self.added_data[-1].seq_idx + 1, start)
-        if start_ < end:
+        end_ = min(end, self._num_seqs)
+        if start_ < end_:
             for dataset_key in self.dataset_keys:
-                self.datasets[dataset_key].load_seqs(start_, end)
-                for seq_idx in range(start_, end):
+                self.datasets[dataset_key].load_seqs(start_, end_)
+                for seq_idx in range(start_, end_):
                     self._check_dataset_seq(dataset_key, seq_idx)
         super(MetaDataset, self)._load_seqs(start=start, end=end)
 
@@ -532,8 +533,10 @@ class MetaDataset(CachedDataset2):
     def _collect_single_seq(self, seq_idx):
         """
         :type seq_idx: int
-        :rtype: DatasetSeq
+        :rtype: DatasetSeq|None
         """
+        if seq_idx >= self._num_seqs:
+            return None
         seq_tag = self.seq_list_ordered[self.default_dataset_key][seq_idx]
         features = {data_key: self._get_data(seq_idx, data_key) for data_key in self.data_keys}
         return DatasetSeq(seq_idx=seq_idx, seq_tag=seq_tag, features=features)
@@ -853,11 +856,13 @@ class ConcatDataset(CachedDataset2):
     def _collect_single_seq(self, seq_idx):
         """
         :param int seq_idx:
-        :rtype: DatasetSeq
+        :rtype: DatasetSeq|None
         """
         dataset_idx = self._get_dataset_for_seq_idx(seq_idx)
         dataset = self.datasets[dataset_idx]
         dataset_seq_idx = seq_idx + self.dataset_seq_idx_offsets[dataset_idx]
+        if not dataset.is_less_than_num_seqs(dataset_seq_idx):
+            return None
         seq_tag = dataset.get_tag(dataset_seq_idx)
         features = {k: dataset.get_data(dataset_seq_idx, k) for k in dataset.get_data_keys()}
         return DatasetSeq(seq_idx=seq_idx, seq_tag=seq_tag, features=features)
-- 
2.43.0


From 9c213e422a769ffaa9d0c46e554626d84885fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:21:58 +0000
Subject: [PATCH 09/26] fix: MetaDataset re-init of the same epoch after a
 predefined seq order

---
 returnn/datasets/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index bde00fb..1bdfb85 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -291,6 +291,7 @@ class MetaDataset(CachedDataset2):
 
         self.orig_seq_order_is_initialized = False
         self.seq_list_ordered = None  # type: typing.Optional[typing.Dict[str,typing.List[str]]]
+        self._epoch_have_predefined_seq_order = False
 
     def _load_seq_list(self, seq_list_file: Optional[Union[str, Dict[str, str]]] = None) -> Dict[str, List[str]]:
         """
@@ -397,6 +398,7 @@ class MetaDataset(CachedDataset2):
             or self.seq_list_ordered is None
             or seq_list is not None
             or seq_order is not None
+            or self._epoch_have_predefined_seq_order
             or self.expected_load_seq_start > 0
         )
         super(MetaDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
@@ -410,6 +412,7 @@ class MetaDataset(CachedDataset2):
             self._num_seqs = len(self.seq_list_ordered[self.default_dataset_key])
             return False
 
+        self._epoch_have_predefined_seq_order = seq_list is not None or seq_order is not None
         seq_order_dataset = None
         if seq_order is not None:
             seq_index = seq_order
-- 
2.43.0


From 0ddb6d757414e8804ae459071e6a04871faac182 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 11:51:55 +0000
Subject: [PATCH 10/26] fix: DistributeFilesDataset with sharding shards the
 sub dataset a second time

The sub dataset inherited _num_shards and _shard_index of the parent,
although the files given to it are already only those of the shard.
Thus only 1/num_shards of the seqs of every file were used.
---
 returnn/datasets/distrib_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 9f6c2d5..7372a2a 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -327,6 +327,8 @@ class DistributeFilesDataset(CachedDataset2):
         import tree
 
         dataset_dict = self.get_sub_epoch_dataset(files)
+        # The files are already sharded here, thus the sub dataset must not be sharded again.
+        dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}
         dataset_dict = extend_dataset_dict_from_parent_dataset(dataset_dict, parent_dataset=self)
 
         flat_sub_dset = tree.flatten_with_path(dataset_dict)
-- 
2.43.0


From ec41db28dfb3fd6a991d5ea6d19198458240ee77 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 11:51:55 +0000
Subject: [PATCH 11/26] fix: MultiProcDataset fails if the sub dataset does not
 know its num_seqs

complete_frac is None then, which was compared to a float.
---
 returnn/datasets/multi_proc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9aeddf8..9e04d35 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -447,9 +447,11 @@ class MultiProcDataset(CachedDataset2):
         # The complete_frac values from the subprocesses are not necessarily monotonic
         # due to rounding errors in the sharding and such.
         # We therefore fix them up here. This is valid due to monotonicity of `seq_idx`.
-        max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
-        data.complete_frac = max_comp_frac
-        self._cur_max_complete_frac = max_comp_frac
+        # It is None if the sub dataset does not know its num_seqs.
+        if data.complete_frac is not None:
+            max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
+            data.complete_frac = max_comp_frac
+            self._cur_max_complete_frac = max_comp_frac
         data.seq_idx = seq_idx
         return data
 
-- 
2.43.0


From 5e953e08b5a9950ccb93aa05e4fad1b6bc1d96e8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 11:52:18 +0000
Subject: [PATCH 12/26] fix: DistributeFilesDataset init_seq_order of an epoch
 which was already (partly) read

The worker of the epoch was reused although it cannot go back to the first seq.
---
 returnn/datasets/distrib_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 7372a2a..1904ade 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -300,7 +300,7 @@ class DistributeFilesDataset(CachedDataset2):
 
         # Cleanup and fill _workers.
         for k, worker in list(self._workers.items()):
-            if k < epoch:
+            if k < epoch or worker.got_data_seq:  # when seqs were already requested, it cannot go back to the first seq
                 worker.exit()
                 del self._workers[k]
         for ep_ in range(epoch, epoch + self.preload_next_n_sub_epochs + 1):
@@ -533,6 +533,7 @@ class _WorkerProcParent:
         self.parent_conn.send(("init_seq_order", {"epoch": self.full_epoch_0idx + 1}))
         self._has_num_seqs = False
         self._num_seqs: Optional[int] = None  # remains None if unknown
+        self.got_data_seq = False  # whether any seq was requested so far
 
     def _lazy_wait_for_init_seq_order(self):
         if self._has_num_seqs:
@@ -550,6 +551,7 @@ class _WorkerProcParent:
     def get_data_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
         """get data seq"""
         self._lazy_wait_for_init_seq_order()
+        self.got_data_seq = True
         self.parent_conn.send(("get_data_seq", {"seq_idx": seq_idx}))
         msg, data = self.parent_conn.recv()
         assert msg == "data_seq"
-- 
2.43.0


From 43e3e7d97e4fa6bf74232a1544b287aecda82b03 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 11:52:18 +0000
Subject: [PATCH 13/26] fix: DistributeFilesDataset.finish_epoch does not stop
 the worker of the epoch

Dataset.finish_epoch resets self.epoch before it was used.
---
 returnn/datasets/distrib_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 1904ade..0b1c865 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -437,6 +437,7 @@ class DistributeFilesDataset(CachedDataset2):
 
     def finish_epoch(self, *, free_resources: bool = False):
         """finish epoch"""
+        epoch = self.epoch  # reset by super
         super().finish_epoch(free_resources=free_resources)
         if free_resources:
             for worker in self._workers.values():
@@ -444,8 +445,8 @@ class DistributeFilesDataset(CachedDataset2):
             self._workers.clear()
             self._files_order_cache.clear()
         else:
-            if self.epoch in self._workers:
-                worker = self._workers.pop(self.epoch)
+            if epoch in self._workers:
+                worker = self._workers.pop(epoch)
                 worker.exit()
 
     def get_data_keys(self) -> List[str]:
-- 
2.43.0


From 90fcd305fa879feb52a7d9febc8a95b8403616ff Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 12:04:36 +0000
Subject: [PATCH 14/26] fix: FileCache retry after a full disk can never
 succeed

The incomplete temp file of the failed try was kept, so the next try failed with an
AssertionError (temp file too recent), and even when a later try succeeded, the error of
the first try was raised.
---
 returnn/util/file_cache.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1002912..b28c406 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -118,6 +118,7 @@ class FileCache:
                 time.sleep(1)
             try:
                 self._copy_file_if_needed(src_filename, dst_filename)
+                last_error = None
                 break
             except OSError as e:
                 if e.errno == errno.ENOSPC:
@@ -354,8 +355,14 @@ class FileCache:
                 orig_mtime_ns = os.stat(src_filename).st_mtime_ns
                 FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))
 
-                _copy_with_prealloc(src_filename, dst_tmp_filename)
-                os.rename(dst_tmp_filename, dst_filename)
+                try:
+                    _copy_with_prealloc(src_filename, dst_tmp_filename)
+                    os.rename(dst_tmp_filename, dst_filename)
+                except BaseException:
+                    # Do not keep an incomplete temp file. We (or others) might retry right away.
+                    if os.path.exists(dst_tmp_filename):
+                        os.remove(dst_tmp_filename)
+                    raise
 
     @staticmethod
     def _check_existing_copied_file_maybe_cleanup(src_filename: str, dst_filename: str) -> bool:
-- 
2.43.0


From 6c897ec4f91fbd65c37d5aa4baa45db6b78941ff Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 12:04:36 +0000
Subject: [PATCH 15/26] fix: FileCache used files not touched for cache dir
 with trailing slash or source file in root dir

The touch files thread was in an endless loop, or died with an AssertionError, so the files
which are in use could be removed by a cleanup.
---
 returnn/util/file_cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index b28c406..a4f4bd5 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -73,7 +73,7 @@ class FileCache:
             least this times as much space.
         :param num_tries: how many times to try caching a file before giving up
         """
-        self.cache_directory = expand_env_vars(cache_directory)
+        self.cache_directory = expand_env_vars(cache_directory).rstrip("/")
         self._cleanup_files_always_older_than_days = cleanup_files_always_older_than_days
         self._cleanup_files_wanted_older_than_days = cleanup_files_wanted_older_than_days
         self._cleanup_disk_usage_wanted_free_ratio = cleanup_disk_usage_wanted_free_ratio
@@ -528,9 +528,9 @@ class _TouchFilesThread(Thread):
 
 
 def _all_parent_dirs(filename: str, *, base_dir: str) -> List[str]:
-    assert filename.startswith(base_dir + "/")
+    assert filename == base_dir or filename.startswith(base_dir + "/")
     dirs = []
-    while True:
+    while filename != base_dir:
         filename = os.path.dirname(filename)
         if filename == base_dir:
             break
-- 
2.43.0


From fd797d0db4d68e07aed280423a58ade82ddd65ea Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 12:04:36 +0000
Subject: [PATCH 16/26] fix: FileCache touch files thread dies when a file is
 released and removed concurrently

E.g. the lock file, which is removed right after the copy. Afterwards, the files which are
in use were not touched anymore, and could be removed by a cleanup.
---
 returnn/util/file_cache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index a4f4bd5..d70ace6 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -480,12 +480,15 @@ class _TouchFilesThread(Thread):
         while True:
             all_files = {}  # dict to have order deterministic
             for filename in self.files.copy():  # copy dict under GIL to avoid modifications during iteration
-                all_files[filename] = True
-                all_files.update({k: True for k in _all_parent_dirs(filename, base_dir=self.cache_base_dir)})
-            for filename in all_files:
+                all_files.setdefault(filename, []).append(filename)
+                for k in _all_parent_dirs(filename, base_dir=self.cache_base_dir):
+                    all_files.setdefault(k, []).append(filename)
+            for filename, used_by in all_files.items():
                 try:
                     os.utime(filename, None)
                 except Exception as exc:
+                    if not any(used_by_file in self.files for used_by_file in used_by):
+                        continue  # not used anymore in the meantime, e.g. released lock file
                     print(f"FileCache: failed updating mtime of {filename}: {exc}")
                     raise
             if self.stop.wait(self.interval):
-- 
2.43.0


From d6b72959706bd962d3b1ba2ed614fddbc83fdba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 17/26] fix: learning_rate_multiplier of the optimizer was
 overwritten after the first step

---
 returnn/torch/updater.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 791d158..a29feba 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -106,6 +106,7 @@ class Updater:
         self.config = config
         self.learning_rate = float(initial_learning_rate)
         self._effective_learning_rate = self.learning_rate
+        self._learning_rate_multiplier = 1.0  # via optimizer opts, see _create_optimizer
         self.network = network
         self._device = device
         # Just set the very first step as initial values here.
@@ -187,7 +188,7 @@ class Updater:
             self._effective_learning_rate = float(lr)
         if self.optimizer:
             for param_group in self.optimizer.param_groups:
-                param_group["lr"] = self._effective_learning_rate
+                param_group["lr"] = self._effective_learning_rate * self._learning_rate_multiplier
 
     def set_current_train_step(self, *, global_train_step: int, epoch: int, epoch_continuous: Optional[float] = None):
         """
@@ -425,7 +426,9 @@ class Updater:
             opt_kwargs["eps"] = opt_kwargs.pop("epsilon")
         if "learning_rate" in opt_kwargs or "lr" in opt_kwargs:
             raise ValueError("'learning_rate' should be set outside of the 'optimizer' dict.")
-        lr = lr * opt_kwargs.pop("learning_rate_multiplier", 1.0)
+        # Remember the multiplier: the lr of the param groups is updated in _update_effective_learning_rate.
+        self._learning_rate_multiplier = float(opt_kwargs.pop("learning_rate_multiplier", 1.0))
+        lr = lr * self._learning_rate_multiplier
         opt_kwargs["lr"] = lr
 
         params_or_param_groups = self._get_optimizer_param_groups(optim_class, opt_kwargs)
-- 
2.43.0


From a267177e51c653c674e1b17b462798146f5ea302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 18/26] fix: raw_dict_split_batch failed for entries without
 batch dim

---
 returnn/torch/data/extern_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index dc7d222..d57140e 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -130,6 +130,10 @@ def raw_dict_split_batch(
     for k, v in extern_data_raw.items():
         if not isinstance(v, (torch.Tensor, numpy.ndarray)):
             raise TypeError(f"got invalid value of type ({type(v).__name__}) for key {k!r}")
+        if v.ndim == 0:  # no batch dim, e.g. num_seqs, epoch, complete_frac
+            for res_ in res:
+                res_[k] = v
+            continue
         offset = 0
         for i, split_size in enumerate(splits):
             res[i][k] = v[offset : offset + split_size]
-- 
2.43.0


From d33c94ea5dd93761832180629872e1d3b746a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 19/26] fix: SimpleHDFWriter extend_existing_file did not know
 the existing data keys

---
 returnn/datasets/hdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ad13b49..70494ac 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1158,6 +1158,12 @@ class SimpleHDFWriter:
 
         self._extra_num_time_steps = {}  # type: typing.Dict[str,int]  # key -> num-steps
         self._prepared_extra = set()
+        if extend_existing_file and "targets/data" in self._file:
+            # We need to know all existing keys right from the beginning, as they define the data_key_idx.
+            for data_key, dataset in self._file["targets/data"].items():
+                self._datasets[data_key] = dataset
+                self._extra_num_time_steps[data_key] = dataset.shape[0]
+                self._prepared_extra.add(data_key)
         if extra_type:
             self._prepare_extra(extra_type, extra_labels if extra_labels else {})
 
@@ -1185,7 +1191,7 @@ class SimpleHDFWriter:
         for data_key, (dim, ndim, dtype) in extra_type.items():
             assert data_key != "inputs"
             if data_key in self._prepared_extra:
-                return
+                continue
             if not self._prepared_extra and not self.extend_existing_file:
                 # For the first time, need to create the groups.
                 self._file.create_group("targets/data")
-- 
2.43.0


From 0750d25b90163db6fe462f984e63f0e017076aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 20/26] fix: HDFDatasetWriter failed for non-ASCII seq tags

---
 returnn/datasets/hdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 70494ac..4653ce2 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1504,7 +1504,7 @@ class HDFDatasetWriter:
             seq_lens += [seq_len]
             tag = dataset.get_tag(seq_idx)
             seq_tags += [tag]
-            max_tag_len = max(len(tag), max_tag_len)
+            max_tag_len = max(len(tag.encode("utf8")), max_tag_len)
             total_seq_len += seq_len
             if use_progress_bar and dataset_num_seqs is not None:
                 progress_bar_with_time(float(seq_idx - start_seq) / dataset_num_seqs)
@@ -1527,7 +1527,7 @@ class HDFDatasetWriter:
         print("Set seq tags...", file=log.v3)
         hdf_dataset.create_dataset("seqTags", shape=(num_seqs,), dtype="S%i" % (max_tag_len + 1))
         for i, tag in enumerate(seq_tags):
-            hdf_dataset["seqTags"][i] = numpy.array(tag, dtype="S%i" % (max_tag_len + 1))
+            hdf_dataset["seqTags"][i] = numpy.array(tag.encode("utf8"), dtype="S%i" % (max_tag_len + 1))
             if use_progress_bar:
                 progress_bar_with_time(float(i) / num_seqs)
 
-- 
2.43.0


From 23dd9f8e0516305facf1be287352fb8b4eba3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 21/26] fix: HDFDataset.add_file with additional keys and no
 inputs used wrong seq lengths

---
 returnn/datasets/hdf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 4653ce2..4679fee 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -153,8 +153,11 @@ class HDFDataset(CachedDataset):
             # were a subset (so the order in which you load the files matters).
             assert all([key in self.target_keys for key in prev_target_keys])  # check if subset
             # Filter out the relevant seq lengths
-            seq_lengths = seq_lengths[:, [0] + [self.target_keys.index(key) + 1 for key in prev_target_keys]]
-            assert seq_lengths.shape[1] == len(prev_target_keys) + 1
+            seq_lengths = seq_lengths[
+                :,
+                list(range(num_input_keys)) + [num_input_keys + self.target_keys.index(key) for key in prev_target_keys],
+            ]
+            assert seq_lengths.shape[1] == num_input_keys + len(prev_target_keys)
             self.target_keys = prev_target_keys
 
         seq_start = numpy.zeros((seq_lengths.shape[0] + 1, seq_lengths.shape[1]), dtype="int64")
-- 
2.43.0


From ebc78dac924bb98ee941c2dc41b763361b1df2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 22/26] fix: HDFDatasetWriter wrote target seq lengths in wrong
 order when data is a target

---
 returnn/datasets/hdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 4679fee..6b4cebe 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1538,7 +1538,8 @@ class HDFDatasetWriter:
         hdf_dataset.create_dataset(attr_seqLengths, shape=(num_seqs, len(data_keys)), dtype="int32")
         for i, seq_len in enumerate(seq_lens):
             data_len = [seq_len[data_input_key]] if data_input_key else []
-            targets_lens = [seq_len[data_key] for data_key in sorted(data_target_keys)]
+            # HDFDataset uses the sorted keys as they are in the HDF.
+            targets_lens = [seq_len[data_key] for data_key in sorted(data_target_keys, key=hdf_data_key_map.get)]
             hdf_dataset[attr_seqLengths][i] = data_len + targets_lens
             if use_progress_bar:
                 progress_bar_with_time(float(i) / num_seqs)
-- 
2.43.0


From dbc18078e8132393359908643bfe906bc861fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 23/26] fix: Dim math, b * (a // 2) // 3 was simplified to b *
 (a // 6)

---
 returnn/tensor/_dim_extra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 793e875..ba689ab 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2572,7 +2572,9 @@ class _OpMultTerm:
             return i
         op_kind = kind + "_" + ("right" if right else "left")
         if term.derived_from_op and term.derived_from_op.kind == op_kind:
-            return i
+            # b * (a // 2) // 3 != b * (a // 6), so not with further terms.
+            if len(self.terms) == 1:
+                return i
         return None
 
     def extend_mul_div_(self, other, kind, right):
-- 
2.43.0


From 0c6536cb18dda939c1e8de3c59f485c4194e776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 24/26] fix: Dim math, max size of a - b or a // b too small
 for dynamic b

---
 returnn/tensor/_dim_extra.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index ba689ab..1df4e92 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1277,6 +1277,15 @@ class _DimMixin:
             if not template_only and y.raw_tensor is not None:
                 y_max_value = _bin_op(y_max_value, x_dim.get_dim_value_tensor())
         assert y is not None, f"op {op}?"
+        if kind == "mul":
+            is_monotonic = not any(_dim_may_be_negative(x_dim) for x_dim in inputs)
+        elif kind.endswith("div"):
+            is_monotonic = all(x_dim.dimension is not None for x_dim in inputs[1:])
+        else:
+            is_monotonic = True
+        if not is_monotonic:
+            # The op on the max values would not be the max value. Will be calculated via the dyn size, if needed.
+            y_max_value = None
         if self.dyn_size_ext is not None:
             assert self.dyn_size_ext.dim_tags == y.dim_tags
         if y.batch:
@@ -2329,6 +2338,17 @@ def _make_constant_static_dim(value, kind=None):
     )
 
 
+def _dim_may_be_negative(dim: Dim) -> bool:
+    """
+    :param dim:
+    :return: whether the size can be negative, e.g. for the `-1 * b` in `a - b`. Note that the result of add is never.
+    """
+    if dim.dimension is not None:
+        return dim.dimension < 0
+    op = dim.get_same_base().derived_from_op
+    return bool(op) and op.kind != "add" and any(_dim_may_be_negative(x_dim) for x_dim in op.inputs)
+
+
 def _math_get_dim_via_bin_op(a: Dim, b: Dim, op_kind: str) -> Dim:
     assert op_kind in {"add", "mul"}
     op_kind_ = op_kind
-- 
2.43.0


From 78526e7f2ad733c22daa54dbbc9192c02c9d11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 25/26] fix: Dim math on static and dynamic dim, result with
 sizes of earlier batch

---
 returnn/tensor/_dim_extra.py | 51 +++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 1df4e92..81722be 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2089,8 +2089,7 @@ class _DimMixin:
         :return: self + other. note that this is not commutative, i.e. different from other + self.
         :rtype: Dim
         """
-        cache_key = ("add", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("add", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2107,8 +2106,7 @@ class _DimMixin:
         :return: other + self
         :rtype: Dim
         """
-        cache_key = ("add_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("add_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2132,8 +2130,7 @@ class _DimMixin:
         :return: self - other
         :rtype: Dim
         """
-        cache_key = ("sub", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("sub", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2150,8 +2147,7 @@ class _DimMixin:
         :return: (-other) + self
         :rtype: Dim
         """
-        cache_key = ("sub_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("sub_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2167,8 +2163,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("mul", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2184,8 +2179,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("mul_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2201,8 +2195,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("floordiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("floordiv", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2225,8 +2218,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("truediv_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2242,8 +2234,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("truediv", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2259,8 +2250,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("ceildiv_left", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2276,8 +2266,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
+        cache, cache_key = self._cache_dim_math_key("ceildiv", other)
         cache_entry = cache.get(cache_key, None)
         if cache_entry:
             cache_entry.complete_dyn_size()
@@ -2303,15 +2292,23 @@ class _DimMixin:
     def _cache_dim_math_get(
         self: Dim, op_kind: str, operand: Union[Dim, int]
     ) -> Tuple[_CacheDimMath, Tuple[str, Union[Dim, int]], Optional[Dim]]:
-        same_base = self.get_same_base()
-        # noinspection PyProtectedMember
-        extra = same_base._make_extra()
         if isinstance(operand, _d.Dim) and operand.is_constant_static_dim():
             operand = operand.dimension
-        cache = extra.cache_dim_math
-        cache_key = (op_kind, operand)
+        cache, cache_key = self._cache_dim_math_key(op_kind, operand)
         return cache, cache_key, cache.get(cache_key, None)
 
+    def _cache_dim_math_key(
+        self: Dim, op_kind: str, operand: Union[Dim, int]
+    ) -> Tuple[_CacheDimMath, Tuple[str, Union[Dim, int]]]:
+        same_base = self.get_same_base()
+        if same_base.dimension is not None and isinstance(operand, _d.Dim) and operand.dimension is None:
+            # The result has dynamic sizes. It must not be used anymore once the sizes of the operand are reset,
+            # and reset_raw can only clear the cache of the operand.
+            # noinspection PyProtectedMember
+            return operand.get_same_base()._make_extra().cache_dim_math, (op_kind + "_with_static", same_base)
+        # noinspection PyProtectedMember
+        return same_base._make_extra().cache_dim_math, (op_kind, operand)
+
     def __sis_state__(self):
         # Note: The name (description) is deliberately not part of the state/hash,
         # as this is quite arbitrary set by the user,
-- 
2.43.0


From 6799b4741e11ac2fafef8e3080d44265fadb3c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 26/26] fix: unpickled Dim, reset_raw failed

---
 returnn/tensor/_dim_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 81722be..40b7b9e 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -127,7 +127,7 @@ class _DimExtra:
         d["same_for_batch_ctx"] = {}
         d["cache_dyn_size_ext_dev"] = {}
         d["cache_seq_mask"] = {}
-        d["cache_dim_math"] = {}
+        d["cache_dim_math"] = _CacheDimMath()
         d["kind"] = self.kind.name if self.kind else None
         return d
 
-- 
2.43.0

