"""P13 concrete side: histories of the real FileCache in a scratch directory, with crashes and failures at every file operation"""
import os
import io
import sys
import errno
import random
import shutil
import builtins
import tempfile
import contextlib
from pyvc.concrun import Violation, Skip

DAY = 24 * 3600


class Crash(BaseException):
    pass


def cases(tier, seed):
    R = random.Random(seed)
    for fail in ("crash", "nospc", "eio"):
        for at in range(0, 16):
            for ex in ("none", "valid", "stale"):
                yield dict(kind="fail", fail=fail, at=at, existing=ex, again=(at + len(ex)) % 2 == 0)
    for t in range(150 if tier == "quick" else 1500):
        yield dict(kind="hist", seed=R.randint(0, 10**9), n=R.randint(5, 30), slash=R.random() < 0.2)
    for t in range(400 if tier == "quick" else 4000):
        yield dict(kind="clean", seed=R.randint(0, 10**9), n=R.randint(0, 7))
    for t in range(150 if tier == "quick" else 1500):
        yield dict(kind="touch", seed=R.randint(0, 10**9), n=R.randint(1, 4), slash=t % 5 == 0)
    for n in range(1, 4):
        for k in range(0, n + 1):
            yield dict(kind="tries", n=n, bad=k)


def from_model(unit, label, m):
    if unit.startswith(("copy", "check", "prealloc")):
        for fail in ("crash", "nospc", "eio"):
            for ex in ("none", "valid", "stale"):
                for at in range(-1, 16):
                    yield dict(kind="fail", fail=fail, at=at, existing=ex, again=True)
        for s in range(60):
            yield dict(kind="hist", seed=s, n=25, slash=False)
    elif unit.startswith("clean"):
        for s in range(1500):
            yield dict(kind="clean", seed=s, n=s % 8)
    elif unit.startswith(("touch", "use")):
        for s in range(400):
            yield dict(kind="touch", seed=s, n=1 + s % 4, slash=s % 5 == 0)
        for s in range(60):
            yield dict(kind="hist", seed=s, n=25, slash=False)
    else:
        for n in range(1, 4):
            for k in range(0, n + 1):
                yield dict(kind="tries", n=n, bad=k)


class World:
    """scratch directory, virtual disk, virtual time (files are made older instead of waiting)"""

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="fc_", dir=os.environ.get("PYVC_TMP"))
        self.src, self.cache = self.base + "/src", self.base + "/cache"
        os.makedirs(self.src)
        self.total, self.free = 10**9, 10**9
        self.at, self.n, self.fail, self.hit = None, 0, None, False
        self.on_sleep = None
        self.removed, self.dead = [], False
        self.saved = []

    def mine(self, p):
        try:
            return os.path.abspath(os.fspath(p)).startswith(self.cache)
        except TypeError:
            return False

    def point(self):
        if self.dead:
            raise Crash()
        k = self.n
        self.n += 1
        if self.at is not None and k == self.at and not self.hit:
            self.hit = True
            return True
        return False

    def boom(self):
        if self.fail == "crash":
            self.dead = True  # nothing runs afterwards, no clean-up by exception handlers either
            raise Crash()
        raise OSError(errno.ENOSPC if self.fail == "nospc" else errno.EIO, "injected")

    def __enter__(self):
        import time
        import returnn.util.file_cache as F

        me = self

        def patch(mod, name, fn):
            if not hasattr(mod, name):
                raise Skip("no %s" % name)
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, fn)

        from collections import namedtuple

        DU = namedtuple("usage", "total used free")
        patch(shutil, "disk_usage", lambda p: DU(me.total, me.total - me.free, me.free))

        def sleep(t):
            if me.on_sleep:
                me.on_sleep()

        patch(time, "sleep", sleep)
        o_remove, o_rename, o_open, o_falloc, o_copy = os.remove, os.rename, builtins.open, os.posix_fallocate, shutil.copyfileobj

        def remove(p, *a, **k):
            if me.mine(p):
                if me.dead:
                    raise Crash()
                if not str(p).endswith(".lock"):
                    if me.point():
                        me.boom()
                    me.removed.append(str(p))
            return o_remove(p, *a, **k)

        def rename(a, b, *x, **k):
            if me.mine(a) and me.point():
                me.boom()
            return o_rename(a, b, *x, **k)

        def opn(p, mode="r", *a, **k):
            if isinstance(p, str) and me.mine(p) and any(c in mode for c in "wax+"):
                if me.point():
                    me.boom()
                f = o_open(p, mode, *a, **k)
                if me.point():
                    f.close()
                    me.boom()
                return f
            return o_open(p, mode, *a, **k)

        def falloc(fd, off, n):
            if me.point():
                o_falloc(fd, off, max(1, n // 2))
                me.boom()
            return o_falloc(fd, off, n)

        def copy(a, b, *x, **k):
            if me.point():
                b.write(a.read(2))
                b.flush()
                me.boom()
            r = o_copy(a, b, *x, **k)
            if me.point():
                b.flush()
                me.boom()
            return r

        patch(os, "remove", remove)
        patch(os, "unlink", remove)
        patch(os, "rename", rename)
        patch(os, "replace", rename)
        patch(os, "posix_fallocate", falloc)
        patch(shutil, "copyfileobj", copy)
        patch(builtins, "open", opn)
        patch(F._TouchFilesThread, "start_once", lambda self: None)
        self.F = F
        return self

    def __exit__(self, *a):
        for mod, name, fn in reversed(self.saved):
            setattr(mod, name, fn)
        shutil.rmtree(self.base, ignore_errors=True)

    def make(self, **kw):
        return self.F.FileCache(cache_directory=kw.pop("dir", self.cache), **kw)

    def write(self, name, content, mtime):
        p = self.src + "/" + name
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with io.open(p, "wb") as f:
            f.write(content)
        os.utime(p, ns=(mtime * 10**9, mtime * 10**9))
        return p

    def older(self, secs, used=()):
        """time passes for everything below the cache; files in use are touched every second"""
        import time

        now = time.time()
        for root, dirs, files in os.walk(self.cache):
            for f in list(files) + list(dirs):
                p = root + "/" + f
                st = os.stat(p)
                os.utime(p, (st.st_atime, st.st_mtime - secs))
        for u in used:
            if os.path.exists(u):
                os.utime(u, (now, now))


def read(p):
    with io.open(p, "rb") as f:
        return f.read()


def same_path(a, b):
    return os.path.abspath(a) == os.path.abspath(b)


def run_case(c):
    with World() as w:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            {"fail": run_fail, "hist": run_hist, "clean": run_clean, "touch": run_touch, "tries": run_tries}[c["kind"]](c, w)


def check_got(w, src, dst, what):
    if not os.path.abspath(dst).startswith(os.path.abspath(w.cache) + "/"):
        raise Violation("%s: %s is not in the cache directory" % (what, dst))
    if not os.path.exists(dst):
        raise Violation("%s: the file returned does not exist" % what)
    if read(dst) != read(src):
        raise Violation("%s: cached copy %r differs from the source %r" % (what, read(dst)[:20], read(src)[:20]))


def run_fail(c, w):
    """a crash or error at file operation `at` of get_file; then get_file again (later, new process)"""
    src = w.write("d/a", b"version-1", 1000)
    cache = w.make()
    if c["existing"] != "none":
        check_got(w, src, cache.get_file(src), "first get")
        if c["existing"] == "stale":
            w.write("d/a", b"version-2", 2000)
        w.older(100)
    w.at, w.fail, w.n = c["at"], c["fail"], 0
    failed = None
    try:
        dst = cache.get_file(src)
    except Crash:
        failed = "crash"
    except OSError as e:
        failed = "oserror"
        if not w.hit:
            raise Violation("get_file raised %r though nothing failed" % e)
    w.at, w.dead = None, False
    if not failed:
        check_got(w, src, dst, "get with %s at operation %d (hit: %s)" % (c["fail"], c["at"], w.hit))
    if w.fail == "nospc" and w.hit and failed:
        raise Violation("one failure for lack of space, then enough space: get_file gives up (num_tries 3)")
    # later, another process
    w.older(60)
    cache2 = w.make()
    n = [0]

    def waiting():
        n[0] += 1
        if n[0] > 50:
            raise Skip("waits for the lock")

    w.on_sleep = waiting
    if c["again"]:
        w.write("d/a", b"version-3", 3000)
    check_got(w, src, cache2.get_file(src), "get after %s at operation %d, existing %s" % (c["fail"], c["at"], c["existing"]))


def run_tries(c, w):
    src = w.write("a", b"abc", 1000)
    cache = w.make(num_tries=c["n"])
    left = [c["bad"]]
    o = os.posix_fallocate

    def falloc(*a):
        if left[0] > 0:
            left[0] -= 1
            raise OSError(errno.ENOSPC, "injected")
        return o(*a)

    os.posix_fallocate = falloc
    try:
        try:
            dst = cache.get_file(src)
        except OSError as e:
            if c["bad"] < c["n"]:
                raise Violation("%d of %d tries fail for lack of space, get_file raises %r" % (c["bad"], c["n"], e))
            if e.errno != errno.ENOSPC:
                raise Violation("other error %r" % e)
            return
        except AssertionError as e:
            raise Violation("%d of %d tries fail for lack of space, then AssertionError %s" % (c["bad"], c["n"], str(e)[:80]))
        if c["bad"] >= c["n"]:
            raise Violation("more tries than configured")
        check_got(w, src, dst, "get after %d failed tries" % c["bad"])
    finally:
        os.posix_fallocate = o


def files_in_use(cache):
    return {os.path.abspath(f): n for f, n in cache._touch_files_thread.files.items()}


def run_hist(c, w):
    R = random.Random(c["seed"])
    cache = w.make(dir=w.cache + ("/" if c["slash"] else ""))
    names = ["a", "b", "d/a", "d/e/a"]
    t = 1000
    srcs = {}
    for n in names:
        srcs[n] = w.write(n, b"%s-0-%d" % (n.encode(), R.randint(0, 9)), t)
    used = {}  # abspath -> count
    paths = {}
    stale = set()

    def touched():
        return [p for p in used] + [p + ".returnn-info" for p in used]

    for step in range(c["n"]):
        op = R.choice(["get", "get", "get", "change", "release", "time", "time", "clean"])
        n = R.choice(names)
        if op == "get":
            dst = cache.get_file(srcs[n])
            check_got(w, srcs[n], dst, "step %d: get %s" % (step, n))
            p = paths[n] = os.path.abspath(dst)
            if len({paths[k] for k in paths}) != len(paths):
                raise Violation("two sources have the same cached file")
            used[p] = used.get(p, 0) + 1
            stale.discard(p)
        elif op == "change":
            older = R.random() < 0.3  # replaced by an older file of other size
            if not older:
                t += R.randint(1, 5)
            new = b"%s-%d-%d" % (n.encode(), t % 10, R.randint(0, 9))
            if older:
                new = new[: R.randint(1, 3)] if len(read(srcs[n])) > 4 else new + b"older"
                if len(new) == len(read(srcs[n])):
                    continue
            elif R.random() < 0.3:
                new += b"longer"
            w.write(n, new, t - (500 if older else 0))
            if n in paths:
                stale.add(paths[n])
        elif op == "release":
            if used:
                p = R.choice(sorted(used))
                real = [f for f in cache._touch_files_thread.files if os.path.abspath(f) == p]
                cache.release_files(real[0] if R.random() < 0.5 and real else p if not c["slash"] or not real else real[0])
                used[p] -= 1
                if not used[p]:
                    del used[p]
        elif op == "time":
            w.older(R.choice([5, 30, 3600, 2 * DAY, 40 * DAY]), touched())
        elif op == "clean":
            w.free = R.choice([10**9, 3 * 10**8, 10**8, 5000])
            need = R.choice([0, 1000, 6000, 10**8])
            other = w.make()
            try:
                other.cleanup(need_at_least_free_space_size=need)
            except Exception as e:
                if need <= w.free or type(e) is not Exception:
                    raise Violation("step %d: clean-up fails though there is enough space: %r" % (step, e))
            w.free = 10**9
        inuse = files_in_use(cache)
        for p, k in used.items():
            if not os.path.exists(p):
                raise Violation("step %d (%s): a file in use was removed: %s" % (step, op, os.path.basename(p)))
            for q in (p, p + ".returnn-info"):
                if inuse.get(q) != k:
                    raise Violation("step %d (%s): %s is in use %d times, but counted %s" % (step, op, os.path.basename(q), k, inuse.get(q)))
        for q in inuse:
            b = q[: -len(".returnn-info")] if q.endswith(".returnn-info") else q
            if b not in used:
                raise Violation("step %d (%s): %s is not in use anymore but still touched" % (step, op, os.path.basename(q)))
        for n_, p in paths.items():
            if p in used and p not in stale and read(p) != read(srcs[n_]):
                raise Violation("step %d (%s): the content of a cached file in use changed" % (step, op))


def run_clean(c, w):
    import time

    R = random.Random(c["seed"])
    always, wanted = R.choice([31.0, 10.0]), R.choice([1.0, 2.0, 0.5])
    ratio, mult = R.choice([0.0, 0.2, 0.5]), R.choice([1.0, 2.0])
    cache = w.make(cleanup_files_always_older_than_days=always, cleanup_files_wanted_older_than_days=wanted, cleanup_disk_usage_wanted_free_ratio=ratio, cleanup_disk_usage_wanted_multiplier=mult)
    now = time.time()
    fs = {}
    os.makedirs(w.cache)
    outside = w.write("out", b"x" * 5000, 1)
    for k in range(c["n"]):
        d = w.cache + R.choice(["", "/d", "/d/e"])
        os.makedirs(d, exist_ok=True)
        p = "%s/f%d" % (d, k)
        with io.open(p, "wb") as f:
            f.write(b"x" * R.choice([0, 1, 4096, 5000, 20000]))
        info = R.random() < 0.8
        if info:
            with io.open(p + ".returnn-info", "w") as f:
                f.write("{}")
        age = R.choice([0, 1, 5, 30, 3600, 0.4 * DAY, 0.7 * DAY, 1.5 * DAY, 3 * DAY, 20 * DAY, 40 * DAY]) + R.random() * 2
        os.utime(p, (now - age, now - age))
        if info:
            os.utime(p + ".returnn-info", (now - age, now - age))
        fs[p] = (age, os.stat(p).st_blocks * 512, info)
    w.total = R.choice([0, 10**5, 10**6])
    w.free = R.choice([0, 4000, 10**4, 3 * 10**4, 10**5])
    need = R.choice([0, 1, 3000, 10**4, 5 * 10**4, 2 * 10**5])
    recent = R.random() < 0.2
    if recent:
        with io.open(w.cache + "/.recent_full_cleanup", "w"):
            pass
    keepable = None
    bad_remove = R.choice(sorted(fs)) if fs and R.random() < 0.2 else None
    if bad_remove:
        o = os.remove

        def remove(p, *a, **k):
            if str(p) == bad_remove:
                raise PermissionError(p)
            return o(p, *a, **k)

        os.remove = remove
    err = None
    try:
        cache.cleanup(need_at_least_free_space_size=need)
    except Exception as e:
        if type(e) is not Exception:
            raise
        err = e
    finally:
        if bad_remove:
            os.remove = o
    if not os.path.exists(outside):
        raise Violation("a file outside of the cache was removed")
    gone = {p for p in fs if not os.path.exists(p)}
    free = w.free + sum(fs[p][1] for p in gone)
    want = max(int(mult * need), int(ratio * w.total))
    order = sorted(fs, key=lambda p: -fs[p][0])
    desc = "files (age, size) %s, free %d, need %d, want %d" % ([(round(fs[p][0]), fs[p][1], p in gone) for p in order], w.free, need, want)
    for p in gone:
        if fs[p][0] <= 9:
            raise Violation("a file that was just used is removed: " + desc)
        if fs[p][0] <= always * DAY:
            older = [q for q in gone if fs[q][0] > fs[p][0]]
            before = w.free + sum(fs[q][1] for q in older)
            if not (need > before or want > before and fs[p][0] > wanted * DAY):
                raise Violation("a file is removed though there is enough space: " + desc)
    if err is None and need > free and not (recent and want <= w.free):
        raise Violation("clean-up succeeds without the space needed: " + desc)
    if err is not None:
        rest = [p for p in fs if p not in gone and p != bad_remove and fs[p][0] > 12]
        if need <= free:
            raise Violation("clean-up fails though there is enough space: " + desc)
        if rest:
            raise Violation("clean-up fails though more could be removed: " + desc)
    elif not (recent and want <= w.free):
        for p in fs:
            if p in gone or p == bad_remove:
                continue
            if fs[p][0] > always * DAY:
                raise Violation("an outdated file is kept: " + desc)
            if fs[p][0] > wanted * DAY and want > free:
                raise Violation("an old file is kept though more space is wanted: " + desc)
    if not recent and err is None and gone:
        for p in gone:
            if os.path.exists(p + ".returnn-info"):
                raise Violation("info file of a removed file is kept")
    for p in fs:
        if p not in gone and p != bad_remove and fs[p][2] and not os.path.exists(p + ".returnn-info"):
            raise Violation("info file of a kept file is removed: " + desc)


def run_touch(c, w):
    """the touch thread in all kinds of interleavings: files are obtained and released between any two of its operations"""
    R = random.Random(c["seed"])
    cache = w.make(dir=w.cache + ("/" if c["slash"] else ""))
    th = cache._touch_files_thread
    names = ["/x%d" % i if R.random() < 0.3 else R.choice(["/s/x%d", "/s/t/x%d", "/u/v/w/x%d"]) % i for i in range(c["n"])]
    dsts = [cache._get_dst_filename(n) for n in names]
    for d in dsts:
        os.makedirs(os.path.dirname(d), exist_ok=True)
    use = {}

    def get(d):
        with io.open(d, "a"):
            pass
        th.files_extend([d] if R.random() < 0.5 else d)
        use[d] = use.get(d, 0) + 1

    def release(d):
        th.files_remove([d] if R.random() < 0.5 else d)
        use[d] -= 1
        if not use[d]:
            del use[d]
            if os.path.exists(d):
                os.remove(d)  # e.g. a lock file

    for d in dsts:
        if R.random() < 0.7:
            get(d)
    touched = set()
    steady = set(use)
    calls = [0]
    o_utime = os.utime

    def other():
        """what the main thread does meanwhile"""
        for _ in range(R.randint(0, 2)):
            d = R.choice(dsts)
            if d in use and R.random() < 0.7:
                release(d)
                steady.discard(d)
            elif d not in failing:
                get(d)

    failing = set()

    def utime(p, *a, **k):
        calls[0] += 1
        if calls[0] > 200:
            raise Skip("too many calls")
        other()
        try:
            r = o_utime(p, *a, **k)
        except OSError:
            failing.add(p)
            raise
        touched.add(os.path.abspath(p))
        return r

    rounds = [0]

    class Stop:
        def wait(self, t):
            rounds[0] += 1
            for d in steady:
                if os.path.abspath(d) not in touched:
                    raise Violation("a file in use is not touched")
                p = os.path.dirname(os.path.abspath(d))
                while p != os.path.abspath(w.cache) and len(p) > 1:
                    if p not in touched:
                        raise Violation("directory of a file in use is not touched")
                    p = os.path.dirname(p)
            touched.clear()
            failing.clear()
            other()
            steady.clear()
            steady.update(use)
            return rounds[0] >= 4

        def set(self):
            pass

        def is_set(self):
            return rounds[0] >= 4

    th.stop = Stop()
    os.utime = utime
    lim = [0]

    def trace(frame, event, arg):
        lim[0] += 1
        if lim[0] > 60000:
            raise Violation("the thread that touches the files in use does not end a round")
        return trace

    try:
        sys.settrace(trace)
        try:
            th.run()
        finally:
            sys.settrace(None)
    except (OSError, AssertionError) as e:
        raise Violation("the thread that touches the files in use dies: %s: %s" % (type(e).__name__, str(e)[:80]))
    finally:
        os.utime = o_utime
    if rounds[0] < 4:
        raise Violation("the thread that touches the files in use ends")
    have = {os.path.abspath(f): n for f, n in th.files.items()}
    if have != {os.path.abspath(f): n for f, n in use.items()}:
        raise Violation("files in use %s, counted %s" % (use, have))
