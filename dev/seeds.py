"""sources of the planted bugs (kept apart from the checks; no check reads this)"""
B = "returnn/datasets/basic.py"
T = "returnn/torch/data/pipeline.py"
EB = "returnn/engine/batch.py"
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("p01-seed-offset", "P01", [(B, "seed = (seed - 1) // partition_epoch + 1  # taking", "seed = (seed + self.random_seed_offset - 1) // partition_epoch + 1  # taking"),
     (B, "            seed = (seed - 1) // num_epochs_fixed + 1\n        return seed + self.random_seed_offset", "            seed = (seed - 1) // num_epochs_fixed + 1\n        return seed if partition_epoch > 1 else seed + self.random_seed_offset")],
     """
from returnn.datasets.basic import Dataset
class D(Dataset):
    pass
for off in (0, 1, 2, 5):
    for pe in (1, 3, 4):
        ds = D(seq_ordering="random", partition_epoch=pe, random_seed_offset=off)
        for full in range(4):
            parts = []
            for e in range(pe):
                parts += list(ds.get_seq_order_for_epoch(epoch=full * pe + e + 1, num_seqs=17))
            assert sorted(parts) == list(range(17)), (off, pe, full)
""", "random_seed_offset not a multiple of partition_epoch", "the sub-epochs of one full epoch are cut from different random orders: sequences are lost and duplicated")

seed("p02-unique-filter", "P02", [(B, "i for i in seq_index if (all_seq_tags[i] not in used_seq_tags, used_seq_tags.add(all_seq_tags[i]))[0]",
     "i for i in seq_index if (not any(all_seq_tags[i].startswith(t) for t in used_seq_tags), used_seq_tags.add(all_seq_tags[i]))[0]")],
     """
from returnn.datasets.basic import Dataset
class D(Dataset):
    def get_all_tags(self):
        return ["seq-%i" % (i % 12) for i in range(24)]
    def get_total_num_seqs(self, **kw):
        return 24
ds = D(seq_ordering="default", unique_seq_tags=True)
o = list(ds.get_seq_order_for_epoch(epoch=1, num_seqs=24))
assert [ds.get_all_tags()[i] for i in o] == ["seq-%i" % i for i in range(12)], o
""", "unique_seq_tags with a tag that is a prefix of a later tag", "sequences with distinct tags are dropped")

seed("p03-torch-carry", "P03", [(T, "            if not chunking_data_keys:\n                chunking_data_keys = list(data_dict.keys())", "            if not chunking_data_keys or len(chunking_data_keys) > len(data_dict):\n                chunking_data_keys = list(data_dict.keys())"),
     (T, "                    for start_index in range(0, len(data), chunk_step)\n", "                    for start_index in range(0, max(len(data) - (chunk_size - chunk_step if chunk_step < chunk_size else 0), 1), chunk_step)\n")],
     """
import numpy
from returnn.torch.data.pipeline import ChunkingIterDataPipe
for n in range(1, 20):
    for size, step in ((4, 4), (5, 3), (5, 2), (3, 5)):
        d = dict(data=numpy.arange(n))
        r = [c["data"].tolist() for c in ChunkingIterDataPipe([d], (size, step))]
        e = [list(range(a, min(a + size, n))) for a in range(0, n, step)]
        assert r == e, (n, size, step, r, e)
""", "overlapping chunks (step < size) at the end of a sequence", "the last chunks of a sequence are dropped although no minimum is configured")

seed("p04-torch-maxlen", "P04", [(T, "                current_batch.append(data_dict)\n                current_max_sequence_lengths = max_sequence_lengths_if_included\n", "                current_batch.append(data_dict)\n                current_max_sequence_lengths = (\n                    max_sequence_lengths_if_included if len(current_batch) != 3 else sequence_lengths\n                )\n")],
     """
import numpy
from returnn.torch.data.pipeline import BatchingIterDataPipe
for ls in ((9, 2, 2, 2, 2), (5, 1, 1, 1, 1, 1), (5, 5, 5), (1, 2, 3, 4)):
    for bs in (6, 10, 24, 27, 30, 40):
        for b in BatchingIterDataPipe([dict(data=numpy.zeros((n,))) for n in ls], batch_size=bs):
            assert len(b) == 1 or max(len(d["data"]) for d in b) * len(b) <= bs, (ls, bs, [len(d["data"]) for d in b])
""", "a batch of at least four sequences whose longest sequence is among the first two", "the padded batch size exceeds the limit")

seed("p04-gen-peek", "P04", [(EB, "        self._read_next_up_to_n(n)\n        return self.buffer[:n]", "        if len(self.buffer) < n or n > 1:\n            self._read_next_up_to_n(n)\n        return self.buffer[:n] if not self.reached_end else self.buffer[-n:]")],
     """
from returnn.engine.batch import BatchSetGenerator, Batch
class D:
    num_seqs = 9
    def get_complete_frac(self, i, **kw):
        return 0.5
bs = []
for i in range(5):
    b = Batch(); b.add_sequence_as_slice(seq_idx=i, seq_start_frame=0, length=2); bs.append(b)
g = BatchSetGenerator(dataset=D(), generator=iter(bs), cache_whole_epoch=False)
assert g.peek_next_n(7) == bs
assert g.peek_next_n(2) == bs[:2]
g.advance(1)
assert g.peek_next_n(2) == bs[1:3]
""", "peeking past the end first and then peeking fewer batches", "peeking gives the last batches instead of the next ones")

EG = "returnn/engine/base.py"
L = "returnn/learning_rate_control.py"
U = "returnn/torch/updater.py"
TE = "returnn/torch/engine.py"

seed("p05-sort-names", "P05", [(EG, "epoch_model = sorted(existing_models.items())[-1]", "epoch_model = max(existing_models.items(), key=lambda item: os.path.basename(item[1]))")],
     """
import os, tempfile, shutil
from returnn.config import Config
from returnn.engine.base import EngineBase
from returnn.util.basic import BackendEngine
BackendEngine.select_engine(engine=BackendEngine.Torch)
d = tempfile.mkdtemp()
try:
    for eps in ((1, 2), (9, 10, 11), (998, 999, 1000), (200, 1001)):
        sub = os.path.join(d, "m%i" % eps[-1])
        os.makedirs(sub)
        for e in eps:
            for s in (".pt", ".opt.pt"):
                open("%s/net.%03d%s" % (sub, e, s), "w").close()
        cfg = Config(dict(model=sub + "/net", num_epochs=1200, task="train"))
        assert EngineBase.get_epoch_model(cfg)[0] == eps[-1], (eps, EngineBase.get_epoch_model(cfg))
        assert EngineBase.get_train_start_epoch(cfg) == eps[-1] + 1
finally:
    shutil.rmtree(d)
""", "a training that has passed epoch 999", "training resumes at an old epoch (999) and repeats work although newer checkpoints exist")

seed("p06-missing-best", "P06", [(EG, "worst_score_values = {key: max(scores) for (key, scores) in score_values.items()}", "worst_score_values = {key: scores[-1] for (key, scores) in score_values.items()}")],
     """
import os, tempfile, shutil
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.config import Config
from returnn.engine.base import EngineBase
from returnn.learning_rate_control import ConstantLearningRate, LearningRateControl
from returnn.util.basic import BackendEngine
BackendEngine.select_engine(engine=BackendEngine.Torch)
deleted = []
class Eng(EngineBase):
    @staticmethod
    def delete_model(filename):
        deleted.append(int(filename.split(".")[-1]))
        return 1
d = tempfile.mkdtemp()
try:
    scores = {1: 0.3, 2: None, 3: 0.5, 4: None, 5: 0.2, 6: 0.19}
    for e in scores:
        for s in (".pt", ".opt.pt"):
            open("%s/net.%03d%s" % (d, e, s), "w").close()
    cfg = Config()
    cfg.update(dict(cleanup_old_models=dict(keep_last_n=1, keep_best_n=3, keep=[]), model=d + "/net", num_epochs=9, task="train"))
    lr = ConstantLearningRate(default_learning_rate=0.1)
    for e, v in scores.items():
        lr.epoch_data[e] = LearningRateControl.EpochData(learning_rate=0.1, error={"dev_score": v} if v is not None else {"x": 1.0})
    eng = Eng(cfg)
    eng.learning_rate_control = lr
    eng.cleanup_old_models()
finally:
    shutil.rmtree(d)
assert sorted(deleted) == [2, 3, 4], deleted
""", "some stored epochs without an evaluated score, and the newest one among the best", "epochs that were never evaluated are ranked better than evaluated good ones, so one of the best checkpoints is deleted")

seed("p07-neg-score", "P07", [(L, "relative_error = (new_error - old_error) / abs(old_error)", "relative_error = new_error / old_error - 1.0")],
     """
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.learning_rate_control import NewbobRelative
for scores in ((5.0, 4.0), (4.0, 5.0), (-4.0, -5.0), (-5.0, -4.0), (0.5, -0.5), (-0.5, 0.5)):
    c = NewbobRelative(default_learning_rate=1.0, learning_rate_decay=0.5, relative_error_threshold=-0.01, relative_error_div_by_old=True)
    for e, v in enumerate(scores):
        c.get_learning_rate_for_epoch(e + 1)
        c.set_epoch_error(e + 1, {"dev_score": v})
    r = c.get_learning_rate_for_epoch(3)
    assert r == (1.0 if scores[1] < scores[0] else 0.5), (scores, r)
""" , "a negative score (e.g. log-likelihood based) with newbob_relative_error_div_by_old", "the sign of the relative change is wrong")

seed("p08-lr-replace", "P08", [(L, "        os.rename(tmp_filename, self.filename)", "        if os.path.exists(self.filename):\n            os.remove(self.filename)  # rename does not overwrite on all platforms\n        os.rename(tmp_filename, self.filename)")],
     """
import os, tempfile, shutil
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.learning_rate_control import ConstantLearningRate
class Crash(BaseException): pass
d = tempfile.mkdtemp()
try:
    fn = d + "/lr"
    for at in range(6):
        c = ConstantLearningRate(default_learning_rate=1.0)
        c.filename = fn
        c.get_learning_rate_for_epoch(1); c.get_learning_rate_for_epoch(2)
        c.save()
        n = [0]
        saved = {k: getattr(os, k) for k in ("rename", "replace", "remove", "unlink")}
        def wrap(f):
            def g(*a, **k):
                n[0] += 1
                if n[0] > at:
                    raise Crash()
                return f(*a, **k)
            return g
        for k, f in saved.items():
            setattr(os, k, wrap(f))
        try:
            c.get_learning_rate_for_epoch(3)
            c.save()
        except Crash:
            pass
        finally:
            for k, f in saved.items():
                setattr(os, k, f)
        c2 = ConstantLearningRate(default_learning_rate=1.0, filename=fn)
        assert len(c2.epoch_data) in (2, 3), (at, c2.epoch_data)
finally:
    shutil.rmtree(d)
""", "the process dies between removing the old and renaming the new learning rate file", "the whole learning rate and score history is lost")

PPF = "returnn/datasets/postprocessing.py"
seed("p09-bucket-reuse", "P09", [(T, "                yield buckets[bucket_idx]\n                buckets[bucket_idx] = []\n", "                yield buckets[bucket_idx]\n                buckets[bucket_idx].clear()\n")],
     """
import numpy
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.torch.data.pipeline import BucketOrderingIterDataPipe, ShufflingDataPipe
data = [dict(data=numpy.full((n % 5 + 1,), n), seq_idx=n) for n in range(40)]
pipe = BucketOrderingIterDataPipe(data, buckets=[(2, 3), (5, 4)], length_key="data")
pipe = ShufflingDataPipe(pipe, buffer_size=4, monotonic_data_keys=[], seed=1)
got = sorted(d["seq_idx"] for b in pipe for d in b)
assert got == list(range(40)), got
""", "bucket batching followed by a stage that buffers batches (shuffle_batches)", "batches already given out are emptied or refilled")

C2F = "returnn/datasets/cached2.py"
seed("p10-tag-window", "P10", [(C2F, "        self.load_seqs(self.expected_load_seq_start, sorted_seq_idx + 1)\n        return self._get_seq(sorted_seq_idx).seq_tag", "        if not self._get_seq(sorted_seq_idx):\n            self.load_seqs(sorted_seq_idx, sorted_seq_idx + 1)\n        return self._get_seq(sorted_seq_idx).seq_tag")],
     """
import numpy
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.datasets.cached2 import CachedDataset2
from returnn.datasets.basic import DatasetSeq
class DS(CachedDataset2):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.num_outputs = {"data": (1, 1)}
        self.num_inputs = 1
    def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
        super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
        self._num_seqs = 30
        return True
    def _collect_single_seq(self, seq_idx):
        if seq_idx >= 30:
            return None
        return DatasetSeq(seq_idx, features=numpy.array([seq_idx]), seq_tag="seq-%i" % seq_idx)
import random
for seed in range(60):
    rnd = random.Random(seed)
    d = DS(name="d")
    d.initialize()
    d.init_seq_order(epoch=1)
    start = 0
    for step in range(6):
        start += rnd.choice([0, 1, 2, 5])
        end = start + rnd.choice([1, 2, 4])
        if end > 30:
            break
        d.load_seqs(start, end)
        ahead = min(end + rnd.choice([0, 0, 1, 3]), 29)
        assert d.get_tag(ahead) == "seq-%i" % ahead
        for i in range(start, end):
            assert d.get_data(i, "data")[0] == i and d.get_tag(i) == "seq-%i" % i, (seed, start, end, i)
""", "the tag of a sequence ahead of the loaded window is asked for before the data of the window is read", "asking for a tag drops sequences of the loaded window")

seed("p11-interleave", "P11", [("returnn/datasets/meta.py", "dataset_corpus_seq_idx = dataset.get_corpus_seq_idx(dataset_seq_idx)", "dataset_corpus_seq_idx = (\n                dataset.get_corpus_seq_idx(dataset_seq_idx) if dataset.partition_epoch in (None, 1) else dataset_seq_idx\n            )")],
     """
import numpy, tempfile, shutil
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.datasets.meta import CombinedDataset
from returnn.datasets.basic import init_dataset
from returnn.datasets.map import MapDatasetBase, MapDatasetWrapper
def sub(n, off, **kw):
    class M(MapDatasetBase):
        def __init__(self):
            super().__init__(data_types={"data": {"shape": (None, 1)}})
        def __len__(self):
            return n
        def __getitem__(self, i):
            return {"data": numpy.full((3, 1), off + i, "float32")}
    return {"class": "MapDatasetWrapper", "map_dataset": M(), **kw}
for order in ("default", "random"):
    for pe in (1, 2, 3):
        a, b = sub(6, 100, seq_ordering="reverse", partition_epoch=pe), sub(4, 200, seq_ordering="default")
        c = CombinedDataset(datasets={"a": a, "b": b}, data_map={("a", "data"): "data", ("b", "data"): "data"},
            data_dims={"data": (1, 2)}, seq_ordering=order)
        c.initialize()
        seen = []
        for ep in range(1, pe + 1):
            c.init_seq_order(epoch=ep)
            i = 0
            while c.is_less_than_num_seqs(i):
                c.load_seqs(i, i + 1)
                seen.append(int(c.get_data(i, "data")[0, 0]))
                i += 1
        assert sorted(seen) == list(range(100, 106)) + sorted(list(range(200, 204)) * pe), (order, pe, seen)
""", "a sub dataset with its own ordering and partition_epoch > 1 inside a CombinedDataset", "every sub epoch of the combined dataset reads the same first part of the sub dataset; the rest is never seen")

seed("p12-epoch-files", "P12", [("returnn/datasets/distrib_files.py", "            files_order: List[List[FileTree]] = self._files_order_cache[full_epoch_0idx_]\n", "            files_order: List[List[FileTree]] = self._files_order_cache[full_epoch_0idx]\n")],
     """
import tempfile, shutil
import numpy
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.datasets.distrib_files import DistributeFilesDataset
from returnn.datasets.hdf import SimpleHDFWriter

calls = []

def sub_epoch(files):
    calls.append(list(files))
    return {"class": "HDFDataset", "files": list(files), "seq_ordering": "default"}

def main():
    d = tempfile.mkdtemp()
    try:
        files = []
        for i in range(9):
            fn = d + "/f%i.hdf" % i
            w = SimpleHDFWriter(fn, dim=1, ndim=2)
            w.insert_batch(numpy.full((1, 3, 1), i, "float32"), seq_len=[3], seq_tag=["f%i" % i])
            w.close()
            files.append(fn)
        ds = DistributeFilesDataset(files=files, get_sub_epoch_dataset=sub_epoch, partition_epoch=3, seq_ordering="random", preload_next_n_sub_epochs=1)
        ds.initialize()
        del calls[:]
        seen = {}
        for ep in range(1, 7):
            ds.init_seq_order(epoch=ep)
            tags = seen.setdefault((ep - 1) // 3, [])
            i = 0
            while ds.is_less_than_num_seqs(i):
                ds.load_seqs(i, i + 1)
                tags.append(ds.get_tag(i))
                i += 1
            ds.finish_epoch()
        for k, tags in seen.items():
            assert sorted(tags) == ["f%i" % i for i in range(9)], (k, tags)
        ds.finish_epoch(free_resources=True)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    main()
""", "preloading across the end of a full epoch (preload_next_n_sub_epochs) with a random file order", "the preloaded sub epoch uses the file order of the previous full epoch: files repeated or left out")

seed("p13-stale-cache", "P13", [("returnn/util/file_cache.py", "or src_stat.st_mtime_ns > last_known_mtime_ns", "or src_stat.st_mtime_ns > max(last_known_mtime_ns, dst_stat.st_mtime_ns)")],
     """
import os, tempfile, shutil, time
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.util.file_cache import FileCache
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/src"); os.makedirs(d + "/cache")
    fn = d + "/src/a"
    now = time.time()
    open(fn, "w").write("one")
    os.utime(fn, (now - 1000, now - 1000))
    cache = FileCache(cache_directory=d + "/cache", cleanup_disk_usage_wanted_free_ratio=0.0)
    got = cache.get_file(fn)
    assert open(got).read() == "one"
    cache.release_files([got])
    # changed after it was cached, same size; the cached file was used (touched) since then
    open(fn, "w").write("two")
    os.utime(fn, (now - 500, now - 500))
    os.utime(got, (now - 10, now - 10))
    got = cache.get_file(fn)
    assert open(got).read() == "two", open(got).read()
finally:
    shutil.rmtree(d)
""", "the source file changes (same size) while the cached copy is still in use or touched after that change", "the stale cached copy is served for ever")

seed("p14-left-over-grad", "P14", [("returnn/torch/engine.py", "        zero_grad_next_step = True\n        cur_count", "        zero_grad_next_step = self.epoch == self._start_epoch\n        cur_count")],
     """
import os, tempfile, shutil, numpy, torch
import returnn.log; returnn.log.log.initialize(verbosity=[0])
import returnn.frontend as rf
from returnn.config import Config, global_config_ctx
from returnn.datasets.generating import StaticDataset
from returnn.torch.engine import Engine

class M(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))

def train_step(*, model, extern_data, **kw):
    x = extern_data["data"]
    rf.get_run_ctx().mark_as_loss(rf.convert_to_tensor((x.raw_tensor * model.w).sum(-1), dims=x.dims[:2]), "l")

d = tempfile.mkdtemp()
try:
    data = [dict(data=numpy.full((1, 1), v, "float32")) for v in (1.0, 2.0, 4.0)]
    cfg = Config(dict(task="train", device="cpu", extern_data={"data": {"dim": 1}}, get_model=lambda **kw: M(), train_step=train_step, batch_size=1000, max_seqs=1,
                 optimizer={"class": "SGD"}, learning_rate=1.0, accum_grad_multiple_step=2, num_epochs=2, model=d + "/m/net", torch_dataloader_opts={"num_workers": 0}))
    with global_config_ctx(cfg):
        eng = Engine(config=cfg)
        eng.init_train_from_config(train_data=StaticDataset(data, name="train", output_dim={"data": (1, 2)}))
        eng.train()
    w = float(torch.load(d + "/m/net.002.pt")["model"]["w"])
    assert abs(w + 6.0) < 1e-4, w
finally:
    shutil.rmtree(d)
""", "gradient accumulation over several steps with an incomplete group at the end of an epoch, and a further epoch in the same run", "the gradients of the incomplete group are added to the first update of the next epoch")

seed("p15-queue-drop", "P15", [("returnn/torch/data/queued_data_iter.py", "self._queue.extend(reversed(items))", "self._queue = list(reversed(items))")],
     """
from returnn.torch.data.queued_data_iter import QueuedDataIter
for split in (3, 4, 5, 7, 8):
    it = QueuedDataIter(iter([list(range(10)), list(range(10, 12)), list(range(12, 20))]))
    got = []
    for b in it:
        if len(b) > 10 - split:
            it.extend([b[: len(b) // 2], b[len(b) // 2 :]])
            continue
        got += b
    assert got == list(range(20)), (split, got)
""", "out of memory again for a part of a batch that was already split while the other part is still waiting", "the waiting part is never forwarded: its sequences are missing")

seed("p16-dump-start", "P16", [("returnn/datasets/hdf.py", "        seq_idx = start_seq\n        seq_idxs = []", "        seq_idx = 0\n        seq_idxs = []")],
     """
import os, tempfile, shutil, numpy
import returnn.log; returnn.log.log.initialize(verbosity=[0])
from returnn.datasets.hdf import HDFDataset, HDFDatasetWriter
from returnn.datasets.generating import StaticDataset
d = tempfile.mkdtemp()
try:
    fn = d + "/a.hdf"
    seqs = [dict(data=numpy.arange(2 * (i + 1)).reshape(-1, 2).astype("float32") + 10 * i) for i in range(5)]
    src = StaticDataset(seqs, output_dim={"data": (2, 2)})
    src.init_seq_order(epoch=1)
    w = HDFDatasetWriter(fn)
    w.dump_from_dataset(src, start_seq=2, use_progress_bar=False)
    w.close()
    ds = HDFDataset([fn])
    ds.initialize()
    ds.init_seq_order(epoch=1)
    assert ds.num_seqs == 3, ds.num_seqs
    for i in range(3):
        ds.load_seqs(i, i + 1)
        assert ds.get_tag(i) == "seq-%i" % (i + 2), ds.get_tag(i)
        numpy.testing.assert_array_equal(ds.get_data(i, "data"), seqs[i + 2]["data"])
finally:
    shutil.rmtree(d)
""", "dumping a part of a dataset which does not start at its first sequence", "the sequences dumped are those from the start of the dataset")

seed("p17-divisible", "P17", [("returnn/tensor/_dim_extra.py", "            if any(not term.divisible(other, right=right) for term in self.terms):", "            if not any(term.divisible(other, right=right) for term in self.terms):")],
     """
import torch
import returnn.frontend as rf
from returnn.tensor import Tensor, Dim
rf.select_backend_torch()
batch = Dim(Tensor("batch", [], "int32", raw_tensor=torch.tensor(2, dtype=torch.int32)), name="batch")
def dyn(name, *v):
    return Dim(Tensor(name, [batch], "int32", raw_tensor=torch.tensor(v, dtype=torch.int32)), name=name)
a, b, c, e = dyn("a", 2, 3), dyn("b", 3, 1), dyn("c", 4, 2), dyn("e", 5, 2)
def sizes(d):
    d.complete_dyn_size()
    return d.dyn_size_ext.raw_tensor.tolist()
assert sizes((a * c + b) // c) == [2, 3]
assert sizes((a + b) // 2) == [2, 2]
assert sizes((a * c + b + e) // c) == [4, 4], sizes((a * c + b + e) // c)
assert sizes((b + e + a * 2) // 2) == [6, 4], sizes((b + e + a * 2) // 2)
assert sizes((a + b + 6) // 2) == [5, 5], sizes((a + b + 6) // 2)
""", "division of a sum of three or more terms where one term is divisible and two others are not", "every term is divided and rounded on its own: the sizes are too small")
