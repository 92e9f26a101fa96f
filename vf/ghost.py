"""Process-wide state of the library: what its modules, classes and functions
hold besides the objects a caller owns (module-level containers and values,
class attributes, function attributes, mutable defaults, memo tables).

Every function under contract carries the frame condition "no process-wide
state is written": instances then cannot influence each other, and the contract
of one instance, proved for it alone, holds whatever other instances exist."""
import collections
import types

import numpy as np

CONTAINERS = (dict, list, set, bytearray, collections.deque)
PLAIN = (bool, int, float, complex, str, bytes, type(None), tuple, frozenset)
REC = {}          # path -> holder record
MODS = set()


class Rec:
    __slots__ = ("obj", "get", "set", "val", "snap", "copy")


def mine(x):
    return str(getattr(x, "__module__", "")).startswith("sopht")


def memo(x):
    """a memo table (functools.lru_cache and the like)"""
    if type(x).__module__.startswith("vf") or isinstance(x, (types.ModuleType, type)):
        return False
    return hasattr(x, "cache_info") and hasattr(x, "cache_clear")


def snap(x, seen=None, depth=0):
    from .sarr import SArr
    from . import sym as S
    seen = set() if seen is None else seen
    if isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, S.Sym):
        return ("sym", x.p)
    if id(x) in seen or depth > 8:
        return ("id", id(x))
    seen.add(id(x))
    go = lambda y: snap(y, seen, depth + 1)
    if isinstance(x, SArr):
        return ("arr", id(x), id(x.buf), x.buf.writes if x.buf is not None else 0)
    if isinstance(x, np.ndarray):
        return ("nd", id(x), x.shape, x.tobytes() if x.dtype != object else tuple(go(y) for y in x.flat))
    if isinstance(x, dict):
        return ("dict", tuple((go(k), go(v)) for k, v in list(x.items())))
    if isinstance(x, (list, tuple, collections.deque)):
        return ("seq", tuple(go(v) for v in list(x)))
    if isinstance(x, (set, frozenset)):
        return ("set", len(x), tuple(sorted(str(go(v)) for v in list(x))))
    if memo(x):
        return ("memo", id(x), tuple(x.cache_info())[-1])
    if mine(type(x)) and hasattr(x, "__dict__"):
        return ("obj", id(x), go(x.__dict__))
    return ("id", id(x))


def copy_of(x):
    if isinstance(x, dict):
        return list(x.items())
    if isinstance(x, CONTAINERS):
        return list(x)
    return None


def put_back(x, items):
    if isinstance(x, dict):
        x.clear()
        for k, v in items:
            x[k] = v
    elif isinstance(x, set):
        x.clear()
        x.update(items)
    else:
        x[:] = items if not isinstance(x, collections.deque) else []
        if isinstance(x, collections.deque):
            x.clear()
            x.extend(items)


def stateful(v):
    from .sarr import SArr
    return isinstance(v, CONTAINERS + PLAIN + (np.ndarray, np.generic, SArr)) or memo(v) or \
        (mine(type(v)) and hasattr(v, "__dict__") and not isinstance(v, (type, types.FunctionType)))


def skip(k):
    from . import install
    return k.startswith("__") or k in install.SHADOW or k == "open"


def note(path, v, setter):
    r = Rec()
    r.obj, r.set, r.snap, r.copy = v, setter, snap(v), copy_of(v)
    REC[path] = r


def visit_fn(path, f):
    for i, v in enumerate(f.__defaults__ or ()):
        if isinstance(v, CONTAINERS + (np.ndarray,)):
            note(path + ("default", i), v, None)
    for k, v in (f.__kwdefaults__ or {}).items():
        if isinstance(v, CONTAINERS + (np.ndarray,)):
            note(path + ("default", k), v, None)
    note(path + ("attributes",), f.__dict__, None)
    for i, c in enumerate(f.__closure__ or ()):
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if isinstance(v, CONTAINERS + (np.ndarray,)):
            note(path + ("cell", i), v, None)


def entries(ns):
    """(name, value) pairs of a namespace that hold state"""
    return [(k, v) for k, v in list(ns.items()) if not skip(k) and stateful(v)]


def record():
    """pristine state, taken right after import"""
    from . import install
    done = set()
    for m in install.sopht_modules():
        if m.__name__ in MODS:
            continue
        MODS.add(m.__name__)
        for k, v in list(m.__dict__.items()):
            if skip(k):
                continue
            if stateful(v):
                note((m.__name__, k), v, ("mod", m, k))
            if isinstance(v, types.FunctionType) and mine(v) and id(v) not in done:
                done.add(id(v))
                visit_fn((m.__name__, k), v)
            if isinstance(v, type) and mine(v) and id(v) not in done:
                done.add(id(v))
                for a, b in list(v.__dict__.items()):
                    f = getattr(b, "__func__", b)
                    f = getattr(b, "fget", f) or f
                    if isinstance(f, types.FunctionType):
                        visit_fn((m.__name__, k, a), f)
                    elif not a.startswith("__") and stateful(b):
                        note((m.__name__, k, a), b, ("cls", v, a))
                REC[(m.__name__, k, "class")] = v


def changes():
    """paths of the process-wide state that differs from the pristine state"""
    from . import install
    out = []
    for path, r in REC.items():
        if isinstance(r, type):
            for a, b in entries(r.__dict__):
                if path[:2] + (a,) not in REC and not isinstance(getattr(b, "__func__", b), types.FunctionType):
                    out.append(path[:2] + (a,))
            continue
        v = r.obj
        if r.set is not None:
            kind, holder, k = r.set
            v = holder.__dict__.get(k, REC)
            if v is not r.obj and type(v).__name__ == "Stub":
                continue
        if v is REC or snap(v) != r.snap:
            out.append(path)
    for m in install.sopht_modules():
        if m.__name__ in MODS:
            for k, v in entries(m.__dict__):
                if (m.__name__, k) not in REC:
                    out.append((m.__name__, k))
    return out


def restore():
    for path in changes():
        r = REC.get(path)
        if r is None:
            import sys
            m = sys.modules.get(path[0])
            if len(path) == 2:
                m.__dict__.pop(path[1], None)
            else:
                try:
                    delattr(m.__dict__[path[1]], path[2])
                except AttributeError:
                    pass
            continue
        if r.set is not None:
            kind, holder, k = r.set
            if holder.__dict__.get(k) is not r.obj:
                setattr(holder, k, r.obj)
        if memo(r.obj):
            r.obj.cache_clear()
        elif r.copy is not None and snap(r.obj) != r.snap:
            put_back(r.obj, r.copy)


def guard(c):
    """frame condition at the end of a path"""
    from .sym import Unsupported
    from . import term as T
    ch = changes()
    if ch:
        restore()
        raise Unsupported("process-wide state is written: %s" % ", ".join(".".join(map(str, p)) for p in ch[:4]))
    c.oblige("frame", "no process-wide state is written", T.TRUE)
