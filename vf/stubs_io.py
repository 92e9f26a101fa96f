"""Assumed contracts of h5py (a file is a tree of groups and datasets holding a
snapshot of what was written; mode "w" truncates) and of open() in write mode,
over one file store per symbolic path."""
import os.path

import numpy as np

from . import term as T
from . import sym as S
from .sarr import SArr, asarr, F4, F8, C8, C16
from .sym import Sym, SBool, Unsupported, ctx

CWD = "/vf_cwd"


def norm(path):
    try:
        path = os.fspath(path)
    except TypeError:
        raise Unsupported("file object %r" % type(path))
    return os.path.normpath(os.path.join(CWD, path))


def store():
    c = ctx()
    if not hasattr(c, "files"):
        c.files = {}
    return c.files


# ------------------------------------------------------------------- h5py
def freeze(v):
    """value of an attribute at the time of writing"""
    if isinstance(v, (Sym, SBool, str, bytes, bool, int, float, np.generic)):
        return v
    a = asarr(v)
    return SArr(a._shape, a.dtype, fn=a.getter())


def keeps(src, dst):
    """does storing src-typed numbers as dst lose nothing"""
    if src == dst:
        return True
    return bool(np.can_cast(src, dst, "safe"))


class Dataset(SArr):
    ro = True

    def __init__(self, file, data, dtype=None):
        a = asarr(data)
        super().__init__(a._shape, a.dtype, fn=a.getter())
        if dtype is not None:
            d = np.dtype(getattr(dtype, "np_t", dtype))
            if not keeps(a.dtype, d):
                if d.kind in "iu" and a.dtype.kind == "f":
                    raise Unsupported("integer storage of reals")
                ctx().oblige("precision", "dataset stored without loss of precision", T.FALSE)
            self.dtype = d
        self.file = file
        self._attrs = {}

    def opened(self, file):
        d = Dataset(file, SArr(self._shape, self.dtype, fn=self.fn))
        d._attrs = self._attrs
        return d

    @property
    def attrs(self):
        return Attrs(self.file, self._attrs)

    def __getitem__(self, key):
        self.file.check()
        return SArr(self._shape, self.dtype, fn=self.fn)[key]

    def __setitem__(self, key, v):
        self.file.check(True)
        raise Unsupported("write into a dataset")

    def __getattr__(self, n):
        raise Unsupported("h5py Dataset.%s" % n)


class Attrs:
    def __init__(self, file, d):
        self.f, self.d = file, d

    def __getitem__(self, k):
        self.f.check()
        return self.d[k]

    def __setitem__(self, k, v):
        self.f.check(True)
        self.d[k] = freeze(v)

    def create(self, name, data, shape=None, dtype=None):
        if shape is not None or dtype is not None:
            raise Unsupported("attribute shape/dtype")
        self[name] = data

    modify = create

    def get(self, k, default=None):
        self.f.check()
        return self.d.get(k, default)

    def update(self, d):
        for k, v in dict(d).items():
            self[k] = v

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(sorted(self.d))

    def keys(self):
        return sorted(self.d)

    def items(self):
        return sorted(self.d.items())


def parts(path):
    if not isinstance(path, str):
        raise Unsupported("h5 path %r" % type(path))
    return [p for p in path.split("/") if p]


class Node:
    """group contents"""

    def __init__(self):
        self.kids = {}
        self.attrs = {}


class Group:
    def __init__(self, file, node, name):
        self.file, self._node, self.name = file, node, name

    @property
    def attrs(self):
        return Attrs(self.file, self._node.attrs)

    def _walk(self, path):
        n = self._node
        if path.startswith("/"):
            n = self.file._root
        for p in parts(path):
            if not isinstance(n, Node) or p not in n.kids:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % p)
            n = n.kids[p]
        return n

    def _wrap(self, n, path):
        return Group(self.file, n, (self.name.rstrip("/") + "/" + path)) if isinstance(n, Node) else \
            n.opened(self.file)

    def __getitem__(self, path):
        self.file.check()
        return self._wrap(self._walk(path), path)

    def get(self, path, default=None):
        return self[path] if path in self else default

    def __contains__(self, path):
        self.file.check()
        try:
            self._walk(path)
        except KeyError:
            return False
        return True

    def _put(self, path, obj):
        self.file.check(True)
        ps = parts(path)
        if not ps:
            raise ValueError("empty name")
        n = self.file._root if path.startswith("/") else self._node
        for p in ps[:-1]:
            n = n.kids.setdefault(p, Node())
            if not isinstance(n, Node):
                raise ValueError("component not found")
        if ps[-1] in n.kids:
            raise ValueError("Unable to create (name already exists)")
        n.kids[ps[-1]] = obj
        return obj

    def create_group(self, path, track_order=None):
        return self._wrap(self._put(path, Node()), path)

    def require_group(self, path):
        return self[path] if path in self else self.create_group(path)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        for k in kw:
            if k not in ("compression", "compression_opts", "chunks", "shuffle", "fletcher32", "track_order",
                         "track_times"):
                raise Unsupported("create_dataset(%s)" % k)
        if data is None or shape is not None:
            raise Unsupported("dataset without data")
        self.file.check(True)
        return self._put(name, Dataset(self.file, data, dtype))

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def __delitem__(self, path):
        self.file.check(True)
        ps = parts(path)
        n = self._walk("/".join(ps[:-1])) if len(ps) > 1 else self._node
        del n.kids[ps[-1]]

    def __iter__(self):
        self.file.check()
        return iter(sorted(self._node.kids))

    def __len__(self):
        return len(self._node.kids)

    def keys(self):
        return list(self)

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def visititems(self, cb):
        self.file.check()

        def rec(n, pre):
            for k in sorted(n.kids):
                v = n.kids[k]
                r = cb(pre + k, self._wrap(v, pre + k))
                if r is None and isinstance(v, Node):
                    r = rec(v, pre + k + "/")
                if r is not None:
                    return r
        return rec(self._node, "")

    def visit(self, cb):
        return self.visititems(lambda n, o: cb(n))

    def __getattr__(self, n):
        raise Unsupported("h5py Group.%s" % n)


class H5:
    """content of a data file"""

    def __init__(self):
        self.root = Node()
        self.open = 0


class File(Group):
    def __init__(self, name, mode="r", **kw):
        for k in kw:
            if k not in ("libver", "driver", "track_order", "locking"):
                raise Unsupported("h5py.File(%s)" % k)
        if kw.get("driver") is not None:
            raise Unsupported("h5py driver")
        fs, p = store(), norm(name)
        cur = fs.get(p)
        if mode in ("r", "r+") or (mode == "a" and cur is not None):
            if not isinstance(cur, H5):
                raise OSError("Unable to open file %r" % str(name))
        elif mode in ("w", "w-", "x", "a"):
            if mode in ("w-", "x") and cur is not None:
                raise OSError("Unable to create file (file exists)")
            if isinstance(cur, H5) and cur.open:
                raise OSError("Unable to truncate a file which is already open")
            fs[p] = cur = H5()
        else:
            raise ValueError("Invalid mode")
        self._h5 = cur
        cur.open += 1
        self._live = True
        self._w = mode != "r"
        self._root = cur.root
        self.filename = name
        Group.__init__(self, self, cur.root, "/")

    def check(self, write=False):
        if not self._live:
            raise ValueError("Not a location (file is closed)")
        if write and not self._w:
            raise ValueError("Unable to write (no write intent on file)")

    def flush(self):
        self.check()

    def close(self):
        if self._live:
            self._live = False
            self._h5.open -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __bool__(self):
        return self._live


class _H5py:
    File, Group, Dataset = File, Group, Dataset

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("h5py.%s" % k)


H5PY = _H5py()


# ------------------------------------------------------------------- open()
class TextFile:
    def __init__(self, path, mode):
        self.p, self.mode = path, mode
        fs = store()
        cur = fs.get(path)
        if mode == "w":
            fs[path] = ""
        elif mode == "x":
            if cur is not None:
                raise FileExistsError(path)
            fs[path] = ""
        elif mode == "a":
            if isinstance(cur, H5):
                raise Unsupported("append to a data file")
            fs.setdefault(path, "")
        elif mode == "r":
            if cur is None:
                raise FileNotFoundError(path)
            if isinstance(cur, H5):
                raise Unsupported("read of a data file as text")
        else:
            raise Unsupported("open mode %r" % mode)
        self.live = True

    def write(self, s):
        if not self.live or self.mode == "r":
            raise ValueError("not writable")
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        fs = store()
        if not isinstance(fs.get(self.p), str):
            raise Unsupported("file replaced while open")
        fs[self.p] += s
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def read(self):
        return store()[self.p]

    def flush(self):
        pass

    def close(self):
        self.live = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def vopen(file, mode="r", *a, **k):
    if S.CTX is None:
        return open(file, mode, *a, **k)
    if "b" in mode or "+" in mode:
        raise Unsupported("open mode %r" % mode)
    return TextFile(norm(file), mode.replace("t", "") or "r")


# ------------------------------------------------------- numbers in strings
def tokens(c):
    """from now on numbers written into strings are recognised afterwards"""
    c.tokens = {}


def number(c, word):
    """the number a word of text stands for, or None"""
    if word in c.tokens:
        return c.tokens[word]
    try:
        return T.const(int(word))
    except ValueError:
        pass
    try:
        return S.lit(float(word))
    except ValueError:
        return None
