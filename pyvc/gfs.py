"""ghost file system: contract of the file operations, with a check after every change (every crash point)"""
from __future__ import annotations
from .core import S, Unsupported
from .seqs import SymStr


class Old:
    """complete content from before"""

    def __repr__(self):
        return "old"


class Partial:
    def __repr__(self):
        return "partial"


class Data:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "data"


def same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return bool(a == b)


class Handle:
    def __init__(self, fs, name):
        self.fs, self.name, self.parts, self.closed = fs, name, [], False

    def write(self, x):
        self.parts.append(x)
        self.fs.change("write")

    def flush(self):
        pass

    def fileno(self):
        return 3

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.put(self.name, Data(list(self.parts)), "close")

    def __enter__(self):
        return self

    def __exit__(self, et, *a):
        if et is None:
            self.close()
        else:
            self.closed = True


class GhostFS:
    def __init__(self, inv, faults=True):
        self.files = []  # [name, content]
        self.inv = inv
        self.trace = []
        self.fault = faults
        self.faulted = False

    # state
    def find(self, name):
        for f in self.files:
            if same(f[0], name):
                return f
        return None

    def content(self, name):
        f = self.find(name)
        return f[1] if f else None

    def init(self, name, content):
        self.files.append([name, content])

    def put(self, name, content, op):
        f = self.find(name)
        if f:
            f[1] = content
        else:
            self.files.append([name, content])
        self.change(op)

    def drop(self, name):
        self.files = [f for f in self.files if not same(f[0], name)]

    def change(self, op):
        """crash point: the state must satisfy the invariant if the process dies here"""
        self.trace.append(op)
        S.attr_log.append((self, "files"))
        self.inv(self, op)

    def may_fail(self):
        if self.fault and not self.faulted and S.choose(2, "fault"):
            self.faulted = True
            raise OSError("injected")

    # operations
    def exists(self, name):
        if same_dir(name):
            return True
        return self.find(name) is not None

    isfile = lexists = exists

    def isdir(self, name):
        return True

    def dirname(self, name):
        return "<dir>"

    def basename(self, name):
        return name

    def makedirs(self, name, *a, **k):
        pass

    def unlink(self, name, *a, **k):
        self.may_fail()
        if self.find(name) is None:
            raise FileNotFoundError(name)
        self.drop(name)
        self.change("unlink")

    remove = unlink

    def rename(self, a, b, *x, **k):
        self.may_fail()
        f = self.find(a)
        if f is None:
            raise FileNotFoundError(a)
        c = f[1]
        self.drop(a)
        g = self.find(b)
        if g:
            g[1] = c
        else:
            self.files.append([b, c])
        self.change("rename")

    replace = move = rename

    def open(self, name, mode="r", *a, **k):
        if mode[0] in "wx":
            self.may_fail()
            self.put(name, Partial(), "open")
            return Handle(self, name)
        raise Unsupported("open for " + mode)

    def fsync(self, fd):
        pass

    def copyfile(self, a, b, *x, **k):
        f = self.find(a)
        if f is None:
            raise FileNotFoundError(a)
        self.put(b, Partial(), "copy, partially written")
        self.may_fail()
        self.put(b, f[1], "copy")

    copy = copy2 = copyfile

    def save_obj(self, obj, name, *a, **k):
        """torch.save"""
        self.may_fail()
        self.put(name, Partial(), "save, partially written")
        self.may_fail()
        self.put(name, Data(obj), "save")


def same_dir(name):
    return isinstance(name, str) and name == "<dir>"


class OS:
    """stand-in for the os and os.path modules of the code under contract"""

    def __init__(self, fs):
        self.path = fs
        for n in ("unlink", "remove", "rename", "replace", "makedirs", "fsync"):
            setattr(self, n, getattr(fs, n))
