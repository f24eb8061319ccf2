import errno as ERR
from props.lib import *
from props.lib import _t, _simp
import returnn.util.file_cache as F

FC = "returnn/util/file_cache.py:"
F.print = lambda *a, **k: None


class Stat:
    def __init__(self, **k):
        self.__dict__.update(k)


class Thread1:
    """touch thread by contract: counts what is in use"""

    def __init__(self):
        self.log = []

    def files_extend(self, x):
        self.log += [("+", f) for f in ([x] if isinstance(x, str) else list(x))]

    def files_remove(self, x):
        self.log += [("-", f) for f in ([x] if isinstance(x, str) else list(x))]

    def files_added_context(self, x):
        return Ctx(lambda: self.files_extend(x), lambda: self.files_remove(x))


class Ctx:
    def __init__(self, a, b, val=None):
        self.a, self.b, self.val = a, b, val

    def __enter__(self):
        self.a()
        return self.val

    def __exit__(self, *a):
        self.b()


class Cache(F.FileCache):
    def __init__(self):
        self._touch_files_thread = Thread1()
        self.cache_directory = "/cache"

    def __del__(self):
        pass

    def __repr__(self):
        return "cache"


# ---------------------------------------------------------------- copies


class Content:
    """content of a file: the source as of version v, complete or not (source changed while it was copied, or copied only partly)"""

    def __init__(self, v, clean, size):
        self.v, self.clean, self.size = v, clean, size


class Info:
    def __init__(self, mtime_ns):
        self.mtime_ns = mtime_ns


class Disk:
    """
    ghost file system. The source has a version which may grow at any time (mtime = version; the size is a function of the version).
    After every operation (crash point): if there is a copy with an info file, and the source is still the version of the info file,
    the copy is that version
    """

    SRC, DST, TMP = "/src", "/cache/src", "/cache/src.copy"
    INFO = "/cache/src.returnn-info"

    def __init__(self):
        self.v = S.int("v", lo=0)
        self.sz = S.func("size", z3.IntSort(), z3.IntSort())
        self.files = {}
        self.faults = True
        self.failed = False
        self.wrote_tmp = False

    def tick(self):
        v = S.int("v", lo=0)
        S.assume(v >= self.v)
        self.v = v

    def size(self, v):
        t = self.sz(_t(v))
        S.assume(t >= 0)
        return SymNum(t)

    def ok(self):
        d, i = self.files.get(self.DST), self.files.get(self.INFO)
        if isinstance(d, Content) and isinstance(i, Info):
            return Implies(And(eq(self.v, i.mtime_ns), eq(d.size, self.size(self.v))), And(eq(d.v, i.mtime_ns), d.clean))
        if d is not None and not isinstance(d, Content):
            return False
        if d is not None and i is not None:
            return False  # not readable, so the copy can never be used or replaced again
        return True

    def change(self, what):
        S.attr_log.append((self, "files"))
        S.prove(self.ok(), "at every crash point an existing copy with current info file is the current content")
        self.tick()
        S.prove(self.ok(), "also when the source changes")

    def may_fail(self, what):
        if self.faults and S.choose(2, "fault"):
            self.faults = False
            self.failed = True
            raise OSError(ERR.ENOSPC if S.choose(2, "errno") else ERR.EIO, what)

    # operations
    def put(self, name, x, what):
        self.files[name] = x
        self.change(what)

    def exists(self, name):
        self.tick()
        return name in self.files

    def stat(self, name):
        self.tick()
        if name == self.SRC:
            return Stat(st_size=self.size(self.v), st_mtime_ns=self.v, st_mtime=self.v)
        if name not in self.files:
            raise FileNotFoundError(name)
        c = self.files[name]
        if isinstance(c, Content):
            return Stat(st_size=c.size, st_mtime_ns=S.int("now"), st_mtime=S.g.old)
        return Stat(st_size=S.int("some", lo=0), st_mtime_ns=S.int("now"), st_mtime=S.g.old)

    def remove(self, name):
        self.may_fail("remove")
        if name not in self.files:
            raise FileNotFoundError(name)
        del self.files[name]
        self.change("remove")

    def rename(self, a, b):
        self.may_fail("rename")
        if a not in self.files:
            raise FileNotFoundError(a)
        self.files[b] = self.files.pop(a)
        self.change("rename")

    def copy(self, src, dst):
        """contract of _copy_with_prealloc (own unit)"""
        S.prove(src == self.SRC, "the source is copied")
        v0 = self.v
        part = S.int("part", lo=0)
        S.assume(Or(part != self.size(v0), part == 0))
        self.files[dst] = Content(v0, eq(part, self.size(v0)), part)
        self.wrote_tmp = dst == self.TMP
        self.change("copy, partially written")
        self.may_fail("copy")
        v1 = self.v
        self.put(dst, Content(v0, eq(v0, v1), self.size(v0)), "copy")


class OSD:
    name = "posix"

    def __init__(self, d):
        self.path = self
        self.d = d
        for n in ("exists", "stat", "remove", "rename"):
            setattr(self, n, getattr(d, n))
        self.unlink, self.replace = d.remove, d.rename

    def dirname(self, p):
        return "/cache"

    def basename(self, p):
        return "src"

    def makedirs(self, p, exist_ok=False):
        pass

    def utime(self, p, t=None):
        S.g.touched.append(p)

    def getmtime(self, p):
        return self.d.stat(p).st_mtime

    isfile = exists = None


def copy_state(dst, info, tmp):
    g = S.g
    d = g.d = Disk()
    g.now = S.int("time", lo=100)
    g.old = S.int("tmp_mtime", lo=0)
    F.os = OSD(d)
    F.time = Stat(time=lambda: g.now, sleep=lambda t: None)
    g.touched = []
    if dst:
        v = S.int("v_dst", lo=0)
        S.assume(v <= d.v)
        d.files[d.DST] = Content(v, S.bool("clean"), S.int("dst_size", lo=0))
    if info == "partial":
        d.files[d.INFO] = "incomplete"
    elif info:
        i = S.int("v_info", lo=0)
        S.assume(i <= d.v)
        d.files[d.INFO] = Info(i)
    if tmp:
        d.files[d.TMP] = Content(S.int("v_tmp", lo=0), False, S.int("tmp_size", lo=0))
        S.assume(g.now - g.old > 20)  # left over from a crashed process: its lock had to time out
    S.assume(d.ok())

    class FI:
        def __init__(self, mtime_ns):
            self.mtime_ns = mtime_ns

        def save(self, name):
            d.files[name] = "incomplete"
            d.change("info, partially written")
            d.may_fail("info")
            d.put(name, Info(self.mtime_ns), "info")

        @classmethod
        def load(cls, name):
            x = d.files.get(name)
            if x is None:
                raise FileNotFoundError(name)
            if not isinstance(x, Info):
                raise ValueError("incomplete info file")
            return cls(x.mtime_ns)

    F.FileInfo = FI
    F._copy_with_prealloc = d.copy
    return d


def u_check(dst, info):
    def un():
        d = copy_state(dst, info, False)
        d.faults = False
        v0 = d.v
        S.reachable()
        r = F.FileCache._check_existing_copied_file_maybe_cleanup(d.SRC, d.DST)
        if S.decide(r):
            S.prove(dst and info is True, "a copy is used only if it exists, with info file")
            c = d.files[d.DST]
            S.prove(Implies(eq(d.v, v0), And(eq(c.v, v0), c.clean)), "a copy is used only if it is the current content")
        else:
            S.prove(d.DST not in d.files, "an outdated copy is removed")

    return un


def u_exact():
    """exactly the documented condition: same size, source not newer than recorded"""
    g = S.g
    a, b, m, r = (S.int(x, lo=0) for x in ("src_size", "dst_size", "src_mtime", "recorded"))
    removed = []
    st = {"/src": Stat(st_size=a, st_mtime_ns=m, st_mtime=m), "/cache/src": Stat(st_size=b, st_mtime_ns=S.int("now", lo=0), st_mtime=S.int("now", lo=0))}
    F.os = Stat(path=Stat(exists=lambda p: p in st, getsize=lambda p: st[p].st_size), stat=lambda p: st[p], remove=removed.append, unlink=removed.append)
    F.FileInfo = Stat(load=lambda n: Info(r))
    S.inputs.update(src_size=a, dst_size=b, src_mtime=m, recorded=r)
    S.reachable()
    x = F.FileCache._check_existing_copied_file_maybe_cleanup("/src", "/cache/src")
    S.prove(mkbool(z3.BoolVal(S.decide(x))) == And(eq(a, b), m <= r), "a copy is used if and only if sizes agree and the source is not newer than recorded")
    S.prove(removed == ([] if S.decide(x) else ["/cache/src"]), "otherwise it is removed")


def u_copy(dst, info, tmp):
    def un():
        g = S.g
        d = copy_state(dst, info, tmp)
        c = Cache()
        g.locked = False

        def acquire():
            S.prove(not g.locked, "lock is taken once")
            g.locked = True

        def release():
            g.locked = False

        F.LockFile = lambda directory, name, lock_timeout: Ctx(acquire, release, Stat(lockfile="/cache/%s" % name))
        g.need = None

        def cleanup(*, need_at_least_free_space_size=0):
            g.need = need_at_least_free_space_size
            g.needv = d.v
            if d.TMP in d.files and S.choose(2, "clean tmp"):
                del d.files[d.TMP]
            if S.choose(2, "no space"):
                d.failed = True
                raise Exception("cannot free enough space")

        c.cleanup = cleanup
        real = OSD.rename if hasattr(OSD, "rename") else None
        for n in ("put", "remove", "rename", "copy"):
            def guarded(*a, n=n, f=getattr(d, n)):
                S.prove(g.locked, "files are changed only with the lock held")
                return f(*a)
            if n in ("remove", "rename"):
                setattr(F.os, n, guarded)
        F._copy_with_prealloc = lambda a, b, f=d.copy: (S.prove(g.locked, "files are changed only with the lock held"), f(a, b))[1]
        v0 = d.v
        S.reachable()
        try:
            F.FileCache._copy_file_if_needed(c, d.SRC, d.DST)
        except (OSError, ValueError, AssertionError) as e:
            S.prove(d.failed, "fails only if an operation failed: %s" % type(e).__name__)
            S.prove(not g.locked, "the lock is released")
            if isinstance(e, OSError):
                # the next try (get_file tries again at once) is not blocked by what this one left
                S.prove(d.TMP not in d.files or not d.wrote_tmp, "nothing of the failed try blocks the next one")
            return
        except Exception as e:
            if type(e) is not Exception:
                raise
            S.prove(d.failed, "fails only if an operation failed")
            S.prove(not g.locked, "the lock is released")
            return
        S.prove(not g.locked, "the lock is released")
        S.prove(d.DST in d.files and isinstance(d.files[d.DST], Content), "there is a copy")
        x = d.files[d.DST]
        S.prove(Implies(eq(d.v, v0), And(eq(x.v, v0), x.clean)), "the copy is the source")
        S.prove(isinstance(d.files.get(d.INFO), Info), "with info file")
        if g.need is not None:
            S.prove(g.need >= d.size(g.needv), "enough space is asked for")
        n = {}
        for s, f in c._touch_files_thread.log:
            n[f] = n.get(f, 0) + (1 if s == "+" else -1)
        S.prove(all(k == 0 for k in n.values()), "nothing is left marked as in use")

    return un


# ---------------------------------------------------------------- get_file


class Tries(LoopContract):
    name = "tries"

    def match(self, L):
        return L.kind == "for" and isinstance(L.seq, Range) and "last_error" in L.names

    def havoc(self, L):
        L.ghost("tried", "res")
        S.g.tried = SymNum(L.i)
        S.g.res = None
        if not S.decide(L.i > 0):
            return {"last_error": None}
        return {"last_error": S.g.err}

    def inv(self, L):
        g = S.g
        yield "one call per try", eq(g.tried, SymNum(L.i))
        if L.mode == "assume":
            return
        yield "goes on only after lack of space", L.i == 0 if L.mode == "entry" else g.res == "nospc"
        yield "the error is kept", L["last_error"] is None if L.mode == "entry" else L["last_error"] is g.err


def u_get():
    g = S.g
    c = Cache()
    n = c._num_tries = S.int("tries", lo=1)
    S.inputs["tries"] = n
    g.err = OSError(ERR.ENOSPC, "full")
    other = OSError(ERR.EIO, "io")
    g.tried, g.res = SymNum(z3.IntVal(0)), None
    g.touched = []
    F.time = Stat(time=lambda: 0, sleep=lambda t: None)
    F.os = Stat(utime=lambda p, t=None: g.touched.append(p), path=Stat())

    def copy(a, b):
        S.prove(a == "/src" and b == "/cache/src", "source and its copy")
        g.tried = g.tried + 1
        if S.choose(2, "full"):
            g.res = "nospc"
            raise g.err
        if S.choose(2, "io"):
            g.res = "other"
            raise other
        g.res = "ok"

    c._copy_file_if_needed = copy
    S.reachable()
    try:
        r = F.FileCache.get_file(c, "/src")
    except OSError as e:
        S.prove(g.res != "ok", "no error after a successful try")
        S.prove(Or(e is other, eq(g.tried, n)), "other errors are passed on, lack of space only after all tries")
        return
    S.prove(g.res == "ok", "returns only after a successful try")
    S.prove(g.tried <= n, "at most the configured number of tries")
    S.prove(r == "/cache/src", "the copy is returned")
    S.prove(sorted(c._touch_files_thread.log) == [("+", "/cache/src"), ("+", "/cache/src.returnn-info")], "the copy is marked as in use, once")
    S.prove(set(g.touched) >= {"/cache/src", "/cache/src.returnn-info"}, "and touched at once")


def u_names():
    g = S.g
    c = Cache()
    F.os = __import__("os")
    S.reachable()
    a, b = F.FileCache._get_dst_filename(c, "/a/b"), F.FileCache._get_dst_filename(c, "/a/c")
    S.prove(a != b and a.startswith("/cache/") and b.startswith("/cache/"), "own name in the cache per source")
    c.release_files(["/cache/x", "/cache/y"])
    c.release_files("/cache/x")
    S.prove(c._touch_files_thread.log == [("-", f + s) for f in ("/cache/x", "/cache/y", "/cache/x") for s in ("", ".returnn-info")], "release of a file and its info file, once")


# ---------------------------------------------------------------- prealloc copy


def u_prealloc(change):
    def un():
        g = S.g
        size = S.int("size", lo=0)
        now = S.int("size2", lo=0) if change else size  # the source may be replaced meanwhile
        g.length, g.written, g.done = SymNum(z3.IntVal(0)), False, False

        def check():
            S.prove(Implies(eq(g.length, size), Or(g.written, size == 0)), "an incomplete copy does not have the size of the source")

        class File:
            def __init__(self, name, mode):
                self.name, self.mode = name, mode

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def fileno(self):
                return self

            def seek(self, n):
                self.pos = n

            def write(self, b):
                g.length = If(g.length > self.pos + 1, g.length, self.pos + 1)
                check()

            def truncate(self, n):
                S.prove("w" in self.mode, "the copy is truncated")
                g.length = SymNum(_t(n))
                if not change:
                    check()

        def opn(name, mode="r"):
            S.prove(("w" in mode) == (name == "/dst"), "only the copy is written")
            if "w" in mode:
                g.length = SymNum(z3.IntVal(0))
            return File(name, mode)

        S.fs = Stat(open=opn)

        def falloc(fd, off, n):
            S.prove(fd.name == "/dst" and eq(off, 0), "space for the copy is reserved")
            e = SymNum(_t(off)) + n
            g.length = If(g.length > e, g.length, e)
            check()

        F.os = Stat(stat=lambda p: Stat(st_size=size), posix_fallocate=falloc, posix_fadvise=lambda *a: None, POSIX_FADV_SEQUENTIAL=1, name="posix" if S.choose(2, "posix") else "nt")

        def copyfileobj(a, b):
            S.prove(a.name == "/src" and b.name == "/dst", "the source is copied")
            if not change:
                check()
            g.length = If(g.length > now, g.length, now)
            g.written = True

        F.shutil = Stat(copyfileobj=copyfileobj)
        S.reachable()
        F._copy_with_prealloc("/src", "/dst")
        S.prove(g.written, "the content is copied")
        S.prove(eq(g.length, size), "the copy has the size of the source")

    return un


# ---------------------------------------------------------------- clean-up


class Name:
    """file number k below the cache directory"""

    def __init__(self, k):
        self.k = SymNum(_simp(_t(k)))

    def __radd__(self, a):
        return self

    def __eq__(self, o):
        if isinstance(o, Name):
            return eq(self.k, o.k)
        if isinstance(o, str) and o.endswith("/.recent_full_cleanup"):
            return SymBool(S.g.stamp(_t(self.k)))
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return 1

    def endswith(self, s):
        return SymBool(S.g.isinfo(_t(self.k)))

    def __repr__(self):
        return "file"

    def __format__(self, spec):
        return "file"

    def __lt__(self, o):
        return self.k < o.k

    def __le__(self, o):
        return self.k <= o.k

    def __gt__(self, o):
        return self.k > o.k


def rec(k):
    g = S.g
    k = _t(k)
    S.assume(g.blocks(k) >= 0)
    return (SymNum(g.mt(k)), SymNum(_simp(-(g.blocks(k) * 512))), Name(k))


class Collect(LoopContract):
    name = "collect"

    def match(self, L):
        return L.kind == "for" and isinstance(L.pre.get("all_files"), PList) and L.seq is S.g.names

    def havoc(self, L):
        g = S.g
        a = L.pre["all_files"]
        L.modifies(a)
        idx = S.func("idx", z3.IntSort(), z3.IntSort())
        m = S.int("m", lo=0)
        S.assume(m.t <= L.i)
        g.m, g.idx = m, idx
        L.ghost("m", "idx")

        def at(j):
            j = _simp(_t(j))
            k = idx(j)
            S.assume(z3.Implies(z3.And(j >= 0, j < m.t), z3.And(k >= j, k < L.i, z3.Not(g.isinfo(k)), z3.Not(g.stamp(k)))))
            return rec(k)

        a.v = Fn(m.t, at, "files")
        return {k: L.pre[k] for k in L.names if k in L.pre and k not in L.tnames}

    def inv(self, L):
        g = S.g
        a = L["all_files"]
        if L.mode == "assume":
            return
        n = SymNum(a.v.n)
        if L.mode == "entry":
            yield "nothing yet", eq(n, 0)
            return
        k = _simp(L.i - 1)
        skip = Or(SymBool(g.isinfo(k)), SymBool(g.stamp(k)), SymBool(g.nostat(k)))
        yield "every file of the cache is considered, except info files", eq(n, g.m + If(skip, 0, 1))
        if S.decide(n > g.m):
            e = a.v.at(_simp(n.t - 1))
            want = rec(k)
            yield "with its own age and size", And(eq(e[0], want[0]), eq(e[1], want[1]), e[2] == want[2])


class Delete(LoopContract):
    name = "delete"

    def match(self, L):
        return L.kind == "for" and "cur_expected_free" in L.names

    def havoc(self, L):
        g = S.g
        g.sorted = L.seq
        L.ghost("free", "attempt", "sorted", "pos")
        g.attempt = None
        g.pos = L.i
        g.free = S.int("free", lo=0)
        S.inputs["free"] = g.free
        out = {"cur_expected_free": g.free}
        if "reached_more_recent_files" in L.names:
            out["reached_more_recent_files"] = S.bool("recent")
        return out

    def inv(self, L):
        g = S.g
        yield "the expected free space is what was free and freed", eq(L["cur_expected_free"], g.free)
        yield "free space does not shrink", g.free >= g.free0
        if "reached_more_recent_files" in L.names and L.n is not None:
            r = L["reached_more_recent_files"]
            if S.decide(L.i > 0):
                e = L.seq.at(_simp(L.i - 1))
                yield "recent files are reached as soon as one of them was seen", SymBool(r.t if isinstance(r, SymBool) else z3.BoolVal(bool(r))) == (g.now - e[0] <= g.always)
            else:
                yield "initially: no recent file yet", Not(r)
            if L.mode != "assume" and S.decide(L.i > 0):
                e = L.seq.at(_simp(L.i - 1))
                # the file just seen and kept
                if g.attempt is None and L.mode == "prove":
                    yield "outdated files are removed", g.now - e[0] <= g.always
                    yield "old files are removed while more space is wanted", Or(g.want <= g.free, g.now - e[0] <= g.wanted)
                    yield "files not in use are removed while space is needed", Or(g.need <= g.free)


def u_clean(exists, recent):
    def un():
        g = S.g
        c = Cache()
        isb = z3.BoolSort()
        g.stamp, g.isinfo, g.nostat = (S.func(n, z3.IntSort(), isb) for n in ("stamp", "isinfo", "nostat"))
        g.mt, g.blocks = S.func("mtime", z3.IntSort(), z3.RealSort()), S.func("blocks", z3.IntSort(), z3.IntSort())
        g.names = Fn(S.int("n", lo=0).t, lambda k: Name(k), "names")
        g.now = S.real("now")
        total, g.free0 = S.int("total", lo=0), S.int("free0", lo=0)
        g.free = g.free0
        need = g.need = S.int("need", lo=0)
        S.inputs.update(need=need, free0=g.free0, total=total)
        ad, wd, ratio, mult = (S.real(x) for x in ("always", "wanted", "ratio", "mult"))
        c._cleanup_files_always_older_than_days, c._cleanup_files_wanted_older_than_days = ad, wd
        c._cleanup_disk_usage_wanted_free_ratio, c._cleanup_disk_usage_wanted_multiplier = ratio, mult
        S.assume(And(mult >= 1, ratio >= 0, ratio <= 1))
        g.always, g.wanted = ad * 86400, wd * 86400
        S.assume(And(g.always >= 10, g.wanted >= 10))  # configured ages are above the 10 seconds that mark a file as in use
        F.human_bytes_size = lambda x: "size"
        F.time = Stat(time=lambda: g.now)
        F.pathlib = Stat(Path=lambda p: Stat(touch=lambda exist_ok=False: None))
        last = S.real("last")
        g.attempt = None
        g.removed_info = []

        def stat(p):
            if isinstance(p, Name):
                if S.decide(SymBool(g.nostat(_t(p.k)))):
                    raise FileNotFoundError
                S.assume(g.blocks(_t(p.k)) >= 0)
                return Stat(st_mtime=SymNum(g.mt(_t(p.k))), st_blocks=SymNum(g.blocks(_t(p.k))), st_size=S.int("size", lo=0))
            if not recent:
                raise FileNotFoundError
            return Stat(st_mtime=last)

        def remove(p):
            if isinstance(p, tuple):
                S.prove(p[0] == "info" and g.attempt is not None and S.entails(p[1] == g.attempt), "info file of the file that is removed")
                if S.choose(2, "no info"):
                    raise FileNotFoundError
                return
            S.prove(isinstance(p, Name), "only files of the cache are removed")
            k = _t(p.k)
            age = g.now - SymNum(g.mt(k))
            S.prove(age > 10, "a file in use (touched in the last 10 seconds) is never removed")
            S.prove(Or(age > g.always, g.need > g.free, And(g.want > g.free, age > g.wanted)), "a file is removed only if outdated, or space is needed, or it is old and space is wanted")
            g.attempt = p
            if S.choose(2, "remove fails"):
                raise PermissionError
            g.free = g.free + SymNum(g.blocks(k)) * 512

        def walk(d, topdown=True):
            S.prove(d == "/cache", "the cache directory")
            return [("/cache", [], PList(g.names))] if topdown else []

        F.os = Stat(stat=stat, remove=remove, unlink=remove, walk=walk, path=Stat(exists=lambda p: exists), rmdir=lambda p: None)
        F.shutil = Stat(disk_usage=lambda p: Stat(total=total, free=g.free0))
        c._get_info_filename = lambda f: ("info", f)
        c._is_info_filename = lambda f: f.endswith(".returnn-info")
        a, b = SymNum(z3.ToInt(_t(mult) * z3.ToReal(_t(need)))), SymNum(z3.ToInt(_t(ratio) * z3.ToReal(_t(total))))
        g.want = If(a > b, a, b)
        g.sorted = None
        S.reachable()
        try:
            F.FileCache.cleanup(c, need_at_least_free_space_size=need)
        except Exception as e:
            if type(e) is not Exception:
                raise
            S.prove(g.need > g.free, "fails only if the space needed is not free")
            if g.sorted is not None:
                j = S.int("skj", lo=0)
                if S.decide(z3.And(j.t >= g.pos, j.t < g.sorted.n)):
                    if S.decide(g.pos < g.sorted.n):
                        g.sorted.at(g.pos)
                    e = g.sorted.at(j.t)
                    S.prove(g.now - e[0] <= 10, "fails only if all files left are in use")
            return
        if not exists:
            S.prove(g.attempt is None, "nothing is removed")
        else:
            S.prove(g.need <= g.free, "the space needed is free afterwards")
            if g.sorted is not None:
                j = S.int("skj", lo=0)
                if S.decide(z3.And(j.t > g.pos, j.t < g.sorted.n)):
                    if S.decide(g.pos < g.sorted.n):
                        g.sorted.at(g.pos)
                    e = g.sorted.at(j.t)
                    S.prove(g.now - e[0] <= g.always, "no outdated file is left")
                    S.prove(Or(g.want <= g.free, g.now - e[0] <= g.wanted), "no old file is left while more space is wanted")

    return un


# ---------------------------------------------------------------- files in use


def u_count(op):
    def un():
        from collections import defaultdict

        t = F._TouchFilesThread.__new__(F._TouchFilesThread)
        t.start_once = lambda: None
        n = {f: S.int("n" + f, lo=0) for f in "ab"}
        t.files = defaultdict(int)
        for f in "ab":
            if S.decide(n[f] > 0):
                t.files[f] = n[f]
        arg = [["a"], ["a", "b"], ["a", "a"], "a", ("b", "a", "b"), []][S.choose(6, "files")]
        cnt = {f: sum(1 for x in arg if x == f) for f in "ab"}
        if op != "extend":
            for f in "ab":
                S.assume(n[f] >= cnt[f])
        S.reachable()
        if op == "extend":
            t.files_extend(arg)
            want = {f: n[f] + cnt[f] for f in "ab"}
        elif op == "remove":
            t.files_remove(arg)
            want = {f: n[f] - cnt[f] for f in "ab"}
        for f in "ab":
            if S.decide(want[f] > 0):
                S.prove(f in t.files and eq(t.files[f], want[f]), "times in use")
            else:
                S.prove(f not in t.files, "not in use anymore")

    return un


def u_touch(names, base):
    """one round of the touch thread; files are released (and then removed by others) and obtained at any time"""

    def un():
        g = S.g
        t = F._TouchFilesThread.__new__(F._TouchFilesThread)
        t.cache_base_dir = base
        t.interval = 1.0
        g.use = set()
        for f in names:
            if S.choose(2, "in use"):
                g.use.add(f)
        steady = set(g.use)
        gone = set()
        touched = set()
        rounds = [0]

        def meanwhile():
            for f in sorted(g.use):
                if S.choose(2, "released"):
                    g.use.discard(f)
                    steady.discard(f)
                    if S.choose(2, "removed"):
                        gone.add(f)

        class Files:
            def copy(self):
                return {f: 1 for f in names if f in g.use}

            def __contains__(self, f):
                return f in g.use

            def __iter__(self):
                return iter([f for f in names if f in g.use])

            def keys(self):
                return list(self)

            def __len__(self):
                return len(g.use)

            def get(self, f, d=None):
                return 1 if f in g.use else d

            def items(self):
                return [(f, 1) for f in self]

        t.files = Files()
        real = __import__("os").path

        def utime(p, x=None):
            meanwhile()
            if p in gone:
                raise FileNotFoundError(p)
            touched.add(p)

        F.os = Stat(utime=utime, path=Stat(dirname=real.dirname, exists=lambda p: p not in gone))

        def wait(x):
            rounds[0] += 1
            for f in steady:
                S.prove(f in touched, "every file in use is touched")
                p = real.dirname(f)
                while p != base and len(p) > 1:
                    S.prove(p in touched, "and its directories")
                    p = real.dirname(p)
            return True

        t.stop = Stat(wait=wait, is_set=lambda: rounds[0] > 0)
        S.reachable()
        try:
            F._TouchFilesThread.run(t)
        except Exception as e:
            if isinstance(e, (Unsupported,)):
                raise
            S.prove(False, "the thread goes on (%s)" % type(e).__name__)
        S.prove(rounds[0] == 1, "the thread goes on until it is stopped")

    return un


def units(tier):
    S.assumptions += [
        "LockFile gives mutual exclusion (two processes that break the same left-over lock at the same moment are not covered)",
        "a changed source file has a newer mtime (documented); a copy torn by a change of the source while it is copied counts as outdated, and it is",
        "left-over temporary files are older than the lock timeout when the lock could be taken again",
        "rename is atomic; os.stat, os.walk, shutil.disk_usage as documented; file sizes on disk as st_blocks * 512",
        "configured ages for the clean-up are above the 10 seconds that mark a file as in use; times over the reals",
        "removal of empty directories dropped (os.rmdir removes only empty ones); bounded check only",
        "round of the touch thread: up to 2 files, every interleaving with release and removal; a file released in a round is not obtained again in it",
    ]
    for dst in (False, True):
        for info in (False, True) + (("partial",) if not dst else ()):
            yield "check existing, copy=%s info=%s" % (dst, info), u_check(dst, info), dict(functions=[FC + "FileCache._check_existing_copied_file_maybe_cleanup"])
            for tmp in (False, True):
                yield "copy if needed, copy=%s info=%s left-over=%s" % (dst, info, tmp), u_copy(dst, info, tmp), dict(functions=[FC + "FileCache._copy_file_if_needed", FC + "FileCache._check_existing_copied_file_maybe_cleanup"], max_paths=3000)
    yield "check existing, exact", u_exact, dict(functions=[FC + "FileCache._check_existing_copied_file_maybe_cleanup"])
    yield "get, tries", u_get, dict(functions=[FC + "FileCache.get_file"], loops=[Tries()])
    yield "names and release", u_names, dict(functions=[FC + "FileCache._get_dst_filename", FC + "FileCache.release_files"])
    for ch in (False, True):
        yield "prealloc copy, source changes=%s" % ch, u_prealloc(ch), dict(functions=[FC + "_copy_with_prealloc"])
    yield "clean-up, no cache", u_clean(False, False), dict(functions=[FC + "FileCache.cleanup"])
    for recent in (False, True):
        yield "clean-up, recent=%s" % recent, u_clean(True, recent), dict(functions=[FC + "FileCache.cleanup"], loops=[Collect(), Delete()])
    for op in ("extend", "remove"):
        yield "use count, %s" % op, u_count(op), dict(functions=[FC + "_TouchFilesThread.files_" + op])
    for names, base in ((["/c/a"], "/c"), (["/c/d/a", "/c/d/e/b"], "/c"), (["/c", "/c/b"], "/c")):
        yield "touch round, %s" % " ".join(names), u_touch(names, base), dict(functions=[FC + "_TouchFilesThread.run", FC + "_all_parent_dirs"], unroll=12, max_paths=3000)
