"""numpy / builtins stand-ins seen by the code under verification."""
import builtins
import contextlib
import numpy as np
import types

from . import term as T
from . import sym as S
from .sym import Sym, SBool, Unsupported, pt, bt, ctx, _isnum
from .sarr import (SArr, RealT, CastT, Buffer, full_view, asarr, elementwise, call_ufunc, np_sum, npdt, stack,
                   broadcast_shapes, broadcast_getter, memo_content, unwrap, decide_eq, simp_len, I8, F8, F4,
                   C8, C16, B1, trunc, ncomp, uf_content)


def is_symbolic(x, depth=0):
    if isinstance(x, (Sym, SBool, SArr)):
        return True
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(is_symbolic(e, depth + 1) for e in x)
    return False


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(pt(x) for x in s)
    return (pt(s),)


def new_array(shape, dtype, value=None, name="arr"):
    c = ctx()
    dt = npdt(dtype)
    content = None
    if value is not None:
        p = pt(value)
        if dt.kind in "fc":
            p = T.to_real(p)
        z = T.const(0, "R")
        content = lambda idx, comp=0: p if comp == 0 else z
    for s in _shape(shape):
        if T.is_const(s) and T.const_val(s) < 0:
            raise ValueError("negative dimensions are not allowed")
    return full_view(Buffer(c.fresh(name), _shape(shape), dt, content=content))


def zeros(shape, dtype=float, order="C", **kw):
    return new_array(shape, dtype, 0)


def ones(shape, dtype=float, order="C", **kw):
    return new_array(shape, dtype, 1)


def empty(shape, dtype=float, order="C", **kw):
    return new_array(shape, dtype, None, "uninit")


def full(shape, fill_value, dtype=None, order="C", **kw):
    if dtype is None:
        dtype = asarr(fill_value).dtype
    return new_array(shape, dtype, fill_value)


def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    a = asarr(a)
    return new_array(shape if shape is not None else a._shape, a.dtype if dtype is None else dtype, 0)


def ones_like(a, dtype=None, **kw):
    a = asarr(a)
    return new_array(a._shape, a.dtype if dtype is None else dtype, 1)


def empty_like(a, dtype=None, **kw):
    a = asarr(a)
    return new_array(a._shape, a.dtype if dtype is None else dtype, None, "uninit")


def full_like(a, fill_value, dtype=None, **kw):
    a = asarr(a)
    return new_array(a._shape, a.dtype if dtype is None else dtype, fill_value)


def mat(a):
    """value array -> buffered copy (so later writes work)"""
    a = asarr(a)
    if a.buf is not None:
        return a
    a.materialise()
    return a


def array(x, dtype=None, copy=True, **kw):
    a = asarr(x)
    if a.buf is not None and copy:
        a = a.copy()
    if dtype is not None and npdt(dtype) != a.dtype:
        a = a.astype(dtype)
    if a.buf is None:
        a = SArr(a._shape, a.dtype, fn=a.fn)
        if a.ndim:
            a.materialise()
    return a


def asarray(x, dtype=None, order=None, **kw):
    a = asarr(x)
    if dtype is not None and npdt(dtype) != a.dtype:
        return a.astype(dtype)
    return a


def ascontiguousarray(x, dtype=None):
    from .ckern import contiguous
    a = asarr(x)
    if dtype is not None and npdt(dtype) != a.dtype:
        return a.astype(dtype)
    if a.buf is None:
        return a
    if getattr(ctx(), "loop_level", 0):
        # view or copy is not decided here: a read-only value serves for both
        r = SArr(a._shape, a.dtype, fn=a.getter())
        r.ro = True
        return r
    if contiguous(a):
        return a
    return a.copy()


def arange(*args, dtype=None, **kw):
    if len(args) == 1:
        a, b, st = 0, args[0], 1
    elif len(args) == 2:
        a, b, st = args[0], args[1], 1
    else:
        a, b, st = args
    a, b, st = pt(a), pt(b), pt(st)
    isint = a.sort == b.sort == st.sort == "I"
    if not isint:
        raise Unsupported("float arange")
    if T.is_const(st) and T.const_val(st) == 1:
        n = simp_len(T.sub(b, a))
    else:
        raise Unsupported("arange step")
    dt = npdt(dtype) if dtype is not None else I8
    return mat(SArr((n,), dt, fn=lambda idx, comp=0: T.add(a, T.mul(st, idx[0]))))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    a, b, n = pt(start), pt(stop), pt(num)
    if retstep is not False:
        raise Unsupported("linspace retstep")
    d = T.to_real(T.sub(n, T.const(1)) if endpoint else n)
    if T.is_const(d) and T.const_val(d) == 0:
        step = T.const(0, "R")
    elif ctx().implied(T.bnot(T.eq0(d))):
        step = T.div(T.sub(b, a), d)
    else:
        raise Unsupported("linspace with one point")
    dt = npdt(dtype) if dtype is not None else F8
    return mat(SArr((n,), dt, fn=lambda idx, comp=0: T.add(T.to_real(a), T.mul(step, T.to_real(idx[0])))))


def meshgrid(*xs, indexing="xy", copy=True, sparse=False):
    xs = [asarr(x) for x in xs]
    if sparse:
        raise Unsupported("sparse meshgrid")
    order = list(range(len(xs)))
    if indexing == "xy" and len(xs) >= 2:
        order[0], order[1] = 1, 0
    # output axis k carries input order[k]
    shape = [xs[o]._shape[0] for o in order]
    out = []
    for i, x in enumerate(xs):
        ax = order.index(i)
        g = x.getter()
        out.append(mat(SArr(shape, x.dtype, fn=(lambda g, ax: lambda idx, comp=0: g((idx[ax],), comp))(g, ax))))
    return out


def tile(a, reps):
    a = asarr(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [pt(r) for r in reps]
    nd = max(len(reps), a.ndim)
    reps = [T.const(1)] * (nd - len(reps)) + reps
    ash = [T.const(1)] * (nd - a.ndim) + list(a._shape)
    g = a.getter()
    shape, maps = [], []
    one = lambda p: T.is_const(p) and T.const_val(p) == 1
    for n, r in zip(ash, reps):
        if one(r):
            shape.append(n)
            maps.append("id")
        elif one(n):
            shape.append(r)
            maps.append("zero")
        else:
            shape.append(T.mul(n, r))
            maps.append(n)
    k = nd - a.ndim

    def fn(idx, comp=0):
        full = []
        for i, m in zip(idx, maps):
            full.append(i if m == "id" else T.const(0) if m == "zero" else T.imod(i, m))
        return g(tuple(full[k:]), comp)
    return mat(SArr(shape, a.dtype, fn=memo_content(fn)))


def np_stack(arrays, axis=0, out=None):
    if out is not None:
        raise Unsupported("stack out")
    return mat(stack(list(arrays), axis))


def transpose(a, axes=None):
    return asarr(a).transpose(axes) if axes is not None else asarr(a).transpose()


def reshape(a, shape, order="C"):
    return asarr(a).reshape(shape)


def expand_dims(a, axis):
    a = asarr(a)
    axs = [x % (a.ndim + 1) for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    if len(axs) != 1:
        raise Unsupported("expand_dims")
    key = [slice(None)] * a.ndim
    key.insert(axs[0], None)
    return a[tuple(key)]


def copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        raise Unsupported("copyto where")
    dst[...] = src


def broadcast_to(a, shape, subok=False):
    a = asarr(a)
    sh = _shape(shape)
    return SArr(sh, a.dtype, fn=broadcast_getter(a, sh))


def where(cond, *xy):
    if len(xy) != 2:
        raise Unsupported("where(cond)")
    x, y = xy
    arrs = [asarr(cond), asarr(x), asarr(y)]
    shape = broadcast_shapes([a._shape for a in arrs])
    gc, gx, gy = [broadcast_getter(a, shape) for a in arrs]
    from .sarr import as_bool_poly, result_dtype
    dt = result_dtype("add", (x, y), arrs[1:])
    fn = lambda idx, comp=0: T.ite(as_bool_poly(gc(idx)), gx(idx, comp), gy(idx, comp))
    if not shape:
        return unwrap(fn(()))
    return SArr(shape, dt, fn=memo_content(fn))


def clip(a, lo, hi, out=None, **kw):
    r = elementwise("minimum", (elementwise("maximum", (a, lo)), hi)) if lo is not None and hi is not None else \
        elementwise("maximum", (a, lo)) if hi is None else elementwise("minimum", (a, hi))
    if out is not None:
        out[...] = r
        return out
    return r


def moveaxis(a, s, d):
    a = asarr(a)
    s, d = s % a.ndim, d % a.ndim
    order = [x for x in range(a.ndim) if x != s]
    order.insert(d, s)
    return a.transpose(order)


def swapaxes(a, x, y):
    a = asarr(a)
    order = list(range(a.ndim))
    order[x % a.ndim], order[y % a.ndim] = order[y % a.ndim], order[x % a.ndim]
    return a.transpose(order)


def flip(a, axis=None):
    a = asarr(a)
    axs = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    return a[tuple(slice(None, None, -1) if d in axs else slice(None) for d in range(a.ndim))]


def shape_of(a):
    return asarr(a).shape


def ndim_of(a):
    return asarr(a).ndim


def prod(a, axis=None, **kw):
    if isinstance(a, (list, tuple)):
        r = 1
        for x in a:
            r = r * x
        return r
    raise Unsupported("prod")


def elements(a, limit=64):
    """indices of an array of constant (small) shape"""
    a = asarr(a)
    ns = []
    for s in a._shape:
        if not T.is_const(s):
            raise Unsupported("elements of an array of symbolic shape")
        ns.append(int(T.const_val(s)))
    if builtins.max([1] + ns) > limit or len(ns) > 2:
        raise Unsupported("large array")
    return [tuple(T.const(int(i)) for i in ix) for ix in np.ndindex(*ns)]


def same_shape(a, b):
    return len(a._shape) == len(b._shape) and all(decide_eq(m, n) for m, n in zip(a._shape, b._shape))


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if not same_shape(a, b):
        return False
    ga, gb = a.getter(), b.getter()
    return unwrap(T.band(*[T.eq(ga(i), gb(i)) for i in elements(a)]))


def _close(x, y, rtol, atol):
    x, y = T.to_real(x), T.to_real(y)
    lim = T.add(pt(atol), T.mul(pt(rtol), T.pabs(y)))
    return T.le(T.pabs(T.sub(x, y)), T.to_real(lim))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asarr(a), asarr(b)
    shape = broadcast_shapes([a._shape, b._shape])
    ga, gb = broadcast_getter(a, shape), broadcast_getter(b, shape)
    from .sarr import b2p
    if not shape:
        return unwrap(_close(ga(()), gb(()), rtol, atol))
    return SArr(shape, B1, fn=lambda i, comp=0: b2p(_close(ga(i), gb(i), rtol, atol)))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return np_all(isclose(a, b, rtol, atol))


def np_all(a, axis=None, **kw):
    if axis is not None or kw:
        raise Unsupported("all(axis)")
    if isinstance(a, (SBool, bool)):
        return a
    from .sarr import as_bool_poly
    a = asarr(a)
    g = a.getter()
    return unwrap(T.band(*[as_bool_poly(g(i)) for i in elements(a)]))


def np_any(a, axis=None, **kw):
    if axis is not None or kw:
        raise Unsupported("any(axis)")
    if isinstance(a, (SBool, bool)):
        return a
    from .sarr import as_bool_poly
    a = asarr(a)
    g = a.getter()
    return unwrap(T.bor(*[as_bool_poly(g(i)) for i in elements(a)]))


class _Testing:
    """numpy.testing"""

    def assert_allclose(self, actual, desired, rtol=1e-07, atol=0, equal_nan=True, err_msg="", verbose=True):
        if not is_symbolic((actual, desired)):
            return np.testing.assert_allclose(actual, desired, rtol, atol)
        a, b = asarr(actual), asarr(desired)
        if a.ndim and b.ndim and not same_shape(a, b):
            raise AssertionError("shapes mismatch")
        if not bool(allclose(a, b, rtol, atol)):
            raise AssertionError("Not equal to tolerance")

    def assert_array_equal(self, actual, desired, *a, **k):
        if not is_symbolic((actual, desired)):
            return np.testing.assert_array_equal(actual, desired)
        x, y = asarr(actual), asarr(desired)
        if x.ndim and y.ndim and not same_shape(x, y):
            raise AssertionError("shapes mismatch")
        if not bool(np_all(elementwise("equal", (x, y)))):
            raise AssertionError("Arrays are not equal")

    assert_equal = assert_array_equal

    def __getattr__(self, n):
        raise Unsupported("numpy.testing.%s" % n)


def array2string(a, max_line_width=None, precision=None, suppress_small=None, separator=" ", **kw):
    from .sym import token
    t = getattr(ctx(), "tokens", None)
    a = asarr(a)
    if t is None or a.ndim != 1:
        raise Unsupported("array2string")
    g = a.getter()
    words = []
    for i in elements(a):
        p = g(i)
        # floats are printed with a limited number of digits
        words.append(token(t, p if p.sort == "I" else T.app("format", (p,), "R")) if not T.is_const(p)
                     else str(Sym(p)))
    return "[%s]" % separator.join(words)


def insert(a, obj, values, axis=None):
    a = asarr(a)
    if a.ndim != 1 or not isinstance(obj, int) or not T.is_const(a._shape[0]) or asarr(values).ndim:
        raise Unsupported("insert")
    n = int(T.const_val(a._shape[0]))
    obj = obj + n if obj < 0 else obj
    v = a.getter()
    x = asarr(values).at(())
    xs = [v((T.const(k),)) for k in builtins.range(n)]
    if a.dtype.kind in "iu":
        x = trunc(x)
    else:
        x = T.to_real(x)
    xs.insert(obj, x)
    return mat(SArr((n + 1,), a.dtype, fn=lambda idx, comp=0: pick(xs, idx[0])))


def pick(xs, i):
    if T.is_const(i):
        return xs[int(T.const_val(i))]
    r = xs[-1]
    for k in reversed(builtins.range(len(xs) - 1)):
        r = T.ite(T.eq(i, T.const(k)), xs[k], r)
    return r


def concatenate(arrs, axis=0, out=None, **kw):
    arrs = [asarr(a) for a in arrs]
    if out is not None or kw or any(a.ndim != 1 or not T.is_const(a._shape[0]) for a in arrs):
        raise Unsupported("concatenate")
    xs = []
    for a in arrs:
        g = a.getter()
        xs += [g(i) for i in elements(a)]
    from .sarr import result_dtype
    dt = result_dtype("add", tuple(arrs), arrs)
    if dt.kind in "fc":
        xs = [T.to_real(x) for x in xs]
    return mat(SArr((len(xs),), dt, fn=lambda idx, comp=0: pick(xs, idx[0])))


def np_ravel1(v):
    v = asarr(v)
    return v if v.ndim else stack([v], 0)


TABLE = {
    "zeros": zeros, "ones": ones, "empty": empty, "full": full, "zeros_like": zeros_like,
    "ones_like": ones_like, "empty_like": empty_like, "full_like": full_like, "array": array,
    "asarray": asarray, "ascontiguousarray": ascontiguousarray, "arange": arange, "linspace": linspace,
    "meshgrid": meshgrid, "tile": tile, "stack": np_stack, "transpose": transpose, "reshape": reshape,
    "expand_dims": expand_dims, "copyto": copyto, "broadcast_to": broadcast_to, "where": where,
    "clip": clip, "sum": np_sum, "moveaxis": moveaxis, "swapaxes": swapaxes, "flip": flip,
    "array_equal": array_equal, "allclose": allclose, "isclose": isclose, "all": np_all, "any": np_any,
    "array2string": array2string, "array_str": lambda a, **k: array2string(a), "insert": insert,
    "concatenate": concatenate, "append": lambda a, v, axis=None: concatenate([a, np_ravel1(v)]),
    "shape": shape_of, "ndim": ndim_of, "prod": prod,
    "real": lambda a: asarr(a).real, "imag": lambda a: asarr(a).imag,
    "squeeze": lambda a, axis=None: asarr(a).squeeze(axis),
    "ravel": lambda a, order="C": asarr(a).ravel(),
    "copy": lambda a, order="K", subok=False: asarr(a).copy(),
    "absolute": lambda *a, **k: call_ufunc("absolute", a, **k),
    "abs": lambda *a, **k: call_ufunc("absolute", a, **k),
}

CREATION = {"zeros", "ones", "empty", "full", "arange", "linspace", "meshgrid", "tile", "stack", "array",
            "asarray", "ascontiguousarray", "zeros_like", "ones_like", "empty_like", "full_like"}


class NPProxy(types.ModuleType):
    """module numpy as seen by sopht during symbolic execution"""

    def __init__(self):
        super().__init__("numpy")
        self._cache = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = self._cache.get(name)
        if v is None:
            v = self._make(name)
            self._cache[name] = v
        return v

    def _make(self, name):
        if name == "pi":
            return Sym(T.pi())
        if name == "testing":
            return _Testing()
        if name == "linalg":
            from . import stubs_la
            return stubs_la.LA
        real = getattr(np, name)
        if name in ("float32", "float64", "int32", "int64", "complex64", "complex128", "bool_", "double",
                    "single", "int_", "intp"):
            return real_type(real)
        if name in TABLE:
            f = TABLE[name]
            if name in CREATION:
                return f

            def dispatch(*a, **k):
                if is_symbolic(a) or is_symbolic(list(k.values())):
                    return f(*a, **k)
                return real(*a, **k)
            return dispatch
        if isinstance(real, np.ufunc):
            return UfuncProxy(real)
        if name == "errstate":
            return real
        if callable(real) and not isinstance(real, type):
            def guard(*a, **k):
                if is_symbolic(a) or is_symbolic(list(k.values())):
                    from . import stubs_la
                    h = stubs_la.NPFUNCS.get(name)
                    if h is not None:
                        return h(*a, **k)
                    raise Unsupported("numpy function %s" % name)
                return real(*a, **k)
            return guard
        return real


class UfuncProxy:
    def __init__(self, real):
        self._real = real
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        if is_symbolic(a) or is_symbolic(list(k.values())):
            n = self._real.nin
            if len(a) > n:
                k = dict(k, out=a[n])
                a = a[:n]
            return call_ufunc(self._real.__name__, a, **k)
        return self._real(*a, **k)

    def reduce(self, a, axis=0, **k):
        if is_symbolic(a) and self._real.__name__ == "add":
            return np_sum(a, axis=axis)
        if is_symbolic(a):
            raise Unsupported("ufunc reduce")
        return self._real.reduce(a, axis=axis, **k)

    def __getattr__(self, n):
        return getattr(self._real, n)


_rt = {}


def real_type(t):
    r = _rt.get(t)
    if r is None:
        if t in (np.int32, np.int64):
            r = IntT(t)
        else:
            r = RealT(t)
        _rt[t] = r
    return r


class IntT(RealT):
    def __call__(self, x=0):
        if isinstance(x, Sym):
            return Sym(trunc(x.p))
        if isinstance(x, SArr):
            return x.astype(self)
        return self.np_t(x)


NP = NPProxy()


# ------------------------------------------------------------------ builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.p.sort == "I"
        return builtins.isinstance(x, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class VInt(metaclass=_IntMeta):
    _vf_dtype = I8

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return Sym(trunc(x.p))
        if isinstance(x, SBool):
            return Sym(pt(x))
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.p.sort == "R"
        return builtins.isinstance(x, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class VFloat(metaclass=_FloatMeta):
    _vf_dtype = F8

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return Sym(T.to_real(x.p))
        return builtins.float(x)


def visinstance(x, cls):
    classes = cls if builtins.isinstance(cls, tuple) else (cls,)
    for c in classes:
        if c is VInt or c is builtins.int:
            if builtins.isinstance(x, Sym):
                if x.p.sort == "I":
                    return True
                continue
            if builtins.isinstance(x, builtins.int):
                return True
            continue
        if c is VFloat or c is builtins.float:
            if builtins.isinstance(x, Sym):
                if x.p.sort == "R":
                    return True
                continue
            if builtins.isinstance(x, builtins.float):
                return True
            continue
        if c is np.ndarray:
            if builtins.isinstance(x, SArr) or builtins.isinstance(x, np.ndarray):
                return True
            continue
        if builtins.isinstance(c, RealT):
            if builtins.isinstance(x, c.np_t):
                return True
            continue
        if c in (np.integer, np.floating) and builtins.isinstance(x, Sym):
            if (x.p.sort == "I") == (c is np.integer):
                return True
            continue
        if builtins.isinstance(x, c):
            return True
    return False


def vlen(x):
    if builtins.isinstance(x, SArr):
        return x.shape[0]
    return builtins.len(x)


def vmax(*a, **k):
    xs = a[0] if len(a) == 1 else a
    if builtins.isinstance(xs, SArr):
        raise Unsupported("max of array")
    xs = list(xs)
    if any(builtins.isinstance(x, Sym) for x in xs) and not k:
        r = pt(xs[0])
        for x in xs[1:]:
            r = T.pmax(r, pt(x))
        return unwrap(r)
    return builtins.max(xs, **k)


def vmin(*a, **k):
    xs = list(a[0] if len(a) == 1 else a)
    if any(builtins.isinstance(x, Sym) for x in xs) and not k:
        r = pt(xs[0])
        for x in xs[1:]:
            r = T.pmin(r, pt(x))
        return unwrap(r)
    return builtins.min(xs, **k)


def vabs(x):
    return abs(x)


def vround(x, *a):
    if builtins.isinstance(x, Sym):
        raise Unsupported("round")
    return builtins.round(x, *a)
