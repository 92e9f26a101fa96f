"""Symbolic arrays: buffers with functional content, numpy-style views."""
import builtins
import numpy as np

from . import term as T
from .sym import (Sym, SBool, Unsupported, ctx, pt, bt, ppow, floordiv, mod, _isnum)

F4, F8, C8, C16, I8, B1 = (np.dtype(x) for x in ("f4", "f8", "c8", "c16", "i8", "?"))


class RealT:
    """stands for np.float32/np.float64 in the symbolic run: casting to it is
    the identity on (mathematical) reals."""

    def __init__(self, np_t):
        self.np_t = np_t
        self.__name__ = np_t.__name__
        self.dtype = np.dtype(np_t)

    def __eq__(self, o):
        if isinstance(o, RealT):
            return self.np_t is o.np_t
        return self.np_t == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.np_t)

    def __call__(self, x=0):
        if self.np_t is np.float32:
            _lossy_cast(x)
        if isinstance(x, Sym):
            if self.np_t is np.float32 and exact_copies():
                return Sym(round32(x.p))
            return x
        if isinstance(x, SArr):
            return x.astype(self)
        if isinstance(x, (list, tuple)):
            return asarr(x).astype(self)
        return self.np_t(x)

    def __repr__(self):
        return "RealT(%s)" % self.__name__


def _lossy_cast(x):
    from . import sym as S_
    c = S_.CTX
    if c is None or getattr(c, "real", None) != F8:
        return
    exact = isinstance(x, (int, float, np.integer, np.floating)) and float(np.float32(x)) == float(x)
    if isinstance(x, Sym) and T.is_const(x.p):
        v = float(T.const_val(x.p))
        exact = float(np.float32(v)) == v
    if not exact:
        c.oblige("precision", "no cast to single precision in the double-precision run", T.FALSE)


def exact_copies():
    """contracts about copying: narrowing to single precision is a function of its own"""
    from . import sym as S_
    return S_.CTX is not None and getattr(S_.CTX, "exact_copies", False)


def round32(p):
    return T.to_real(p) if T.is_const(p) else T.app("round32", (T.to_real(p),), "R")


def narrowed(g, src, dst):
    if src in (F8, C16) and dst in (F4, C8) and exact_copies():
        return lambda idx, comp=0: round32(g(idx, comp))
    return g


class CastT(RealT):
    """int/float builtin or numpy scalar type usable on symbolic values"""


def npdt(dt):
    if isinstance(dt, RealT):
        return np.dtype(dt.np_t)
    if isinstance(dt, np.dtype):
        return dt
    if dt is None:
        return F8
    if hasattr(dt, "_vf_dtype"):
        return dt._vf_dtype
    return np.dtype(dt)


def ncomp(dt):
    return 2 if dt.kind == "c" else 1


# --------------------------------------------------------------------- sizes
def simp_len(p):
    """max(p,0), decided on the current path"""
    if T.is_const(p):
        return p if T.const_val(p) > 0 else T.const(0)
    if ctx().branch(T.le(T.const(0), p)):
        return p
    return T.const(0)


def decide_le(a, b):
    return ctx().branch(T.le(a, b))


def decide_eq(a, b):
    if a is b:
        return True
    return ctx().branch(T.eq(a, b))


def norm_slice(s, n):
    """python slice semantics with symbolic bounds -> (start, length, step)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, Sym):
        step = step.__index__()
    step = int(step)
    n_ = n

    def clampv(v):
        v = pt(v)
        if T.is_const(v):
            neg = T.const_val(v) < 0
        else:
            neg = ctx().branch(T.lt0(v))
        if neg:
            v = T.add(v, n_)
            if not decide_le(T.const(0), v):
                return T.const(0)
            return v
        if decide_le(v, n_):
            return v
        return n_

    if step > 0:
        a = T.const(0) if s.start is None else clampv(s.start)
        b = n_ if s.stop is None else clampv(s.stop)
        ln = simp_len(T.sub(b, a))
        if step != 1:
            ln = T.idiv(T.add(ln, T.const(step - 1)), T.const(step))
        return a, ln, step
    if step == -1 and s.start is None and s.stop is None:
        return T.sub(n_, T.const(1)), n_, -1
    raise Unsupported("negative slice step with bounds")


def norm_index(i, n, what="index"):
    i = pt(i)
    if i.sort != "I":
        raise Unsupported("non-integer index")
    if T.is_const(i):
        if T.const_val(i) < 0:
            i = T.add(i, n)
    else:
        if ctx().implied(T.le(T.const(0), i)):
            pass
        elif ctx().implied(T.lt0(i)):
            i = T.add(i, n)
    ctx().require_now("bounds", what, T.band(T.le(T.const(0), i), T.lt(i, n)))
    return i


# ------------------------------------------------------------------- buffers
class Buffer:
    def __init__(self, name, shape, dtype, content=None):
        self.name = name
        self.shape = tuple(pt(s) for s in shape)
        self.dtype = dtype
        self.fourier = None      # abstract Fourier content, see stubs
        self.writes = 0
        self.order = "C"
        if content is None:
            content = uf_content(name, dtype)
        self.content = content
        self.initial = content
        c = ctx()
        c.buffers.append(self)
        real = getattr(c, "real", None)
        if real is not None and real == F8 and dtype in (F4, C8):
            c.oblige("precision", "array %s of the double-precision run is created in double precision" % name,
                     T.FALSE)

    def read(self, idx, comp=0):
        return self.content(idx, comp)


def uf_content(name, dtype):
    sort = "I" if dtype.kind in "iub" else "R"

    def f(idx, comp=0):
        n = name if dtype.kind != "c" else name + (".im" if comp else ".re")
        return T.app(n, idx, sort)
    return f


def memo_content(f):
    m = {}

    def g(idx, comp=0):
        k = (idx, comp)
        r = m.get(k)
        if r is None:
            r = f(idx, comp)
            m[k] = r
        return r
    return g


def layered(prev, region, value):
    """content with a write on top; region(idx)->BTerm, value(idx,comp)->Poly or None"""
    def f(idx, comp=0):
        r = region(idx)
        if r is T.FALSE:
            return prev(idx, comp)
        v = value(idx, comp)
        if v is None:
            return prev(idx, comp)
        if r is T.TRUE:
            return v
        return T.ite(r, v, prev(idx, comp))
    return memo_content(f)


def push_layer(buf, region, value):
    """a write on top of the buffer's content.  Layers hidden under newer ones
    (proved: the newer regions cover the buffer) are dropped."""
    st = getattr(buf, "stack", None)
    if st is None or st[0] is not buf.content:
        st = None
    layers = (st[1] if st else []) + [(region, value)]
    base = st[2] if st else buf.content
    buf.content = layered(buf.content, region, value)
    cx = ctx()
    full = False
    if ncomp(buf.dtype) == 1 and buf.shape:
        idx = tuple(T.var("$w%d" % d, "I") for d in range(len(buf.shape)))
        regs = [r(idx) for r, _ in layers]
        if len(regs) > 1 and any(r is regs[-1] for r in regs[:-1]):
            keep = [k for k in range(len(regs)) if k == len(regs) - 1 or regs[k] is not regs[-1]]
            layers, regs = [layers[k] for k in keep], [regs[k] for k in keep]
            content = base if base is not None else memo_content(layers[0][1])
            for r, v in (layers if base is not None else layers[1:]):
                content = layered(content, r, v)
            buf.content = content
        if regs[-1] is T.TRUE:
            full = True
            layers = layers[-1:]
        elif len(layers) > 1:
            rng = [T.le(T.const(0), i) for i in idx] + [T.lt(i, n) for i, n in zip(idx, buf.shape)]
            from . import smt
            facts = tuple(cx.facts() + rng)
            if smt.quick_check(facts, T.bor(*regs)) == "unsat":
                k = len(layers) - 1
                while k > 0 and (k == len(layers) - 1 or
                                 smt.quick_check(facts, T.bor(*regs[k:])) != "unsat"):
                    k -= 1
                layers = layers[k:]
                full = True
    if full:
        r0, v0 = layers[0]
        layers = [((lambda b: T.TRUE), v0)] + layers[1:]
        content = memo_content(v0)
        for r, v in layers[1:]:
            content = layered(content, r, v)
        buf.content = content
        base = None
    buf.stack = (buf.content, layers, base)
    buf.writes += 1
    buf.fourier = None


def pick_const(c):
    p = pt(c)
    return lambda idx, comp=0: (p if comp == 0 else T.const(0, "R"))


# -------------------------------------------------------------------- arrays
class SArr:
    """ndarray stand-in: either a view of a Buffer or a pure value"""
    __array_priority__ = 1000
    ro = False

    def __init__(self, shape, dtype, fn=None, buf=None, vmap=None, comp=None):
        self._shape = tuple(pt(s) for s in shape)
        self.dtype = dtype
        self.fn = fn
        self.buf = buf
        self.vmap = vmap      # per base dim: (off, step, axis|None)
        self.comp = comp

    # -------- basic attributes
    @property
    def shape(self):
        return tuple(unwrap(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        p = T.const(1)
        for s in self._shape:
            p = T.mul(p, s)
        return unwrap(p)

    @property
    def T(self):
        return self.transpose()

    def __str__(self):
        from .npx import array2string
        return unwrap(self.at(())).__str__() if self.ndim == 0 else array2string(self)

    def __format__(self, spec):
        if self.ndim == 0:
            return format(unwrap(self.at(())), spec)
        return self.__str__()

    def tolist(self):
        if self.ndim != 1:
            raise Unsupported("tolist")
        return list(self)

    def __len__(self):
        s = self._shape[0]
        if T.is_const(s):
            return int(T.const_val(s))
        raise Unsupported("len() of symbolic dimension")

    def __repr__(self):
        return "SArr(%s, %s%s)" % (list(map(str, self._shape)), self.dtype,
                                   ", view of " + self.buf.name if self.buf is not None else "")

    # -------- reading
    def getter(self):
        """snapshot: function idx,comp -> Poly"""
        if self.fn is not None:
            return self.fn
        content = self.buf.content
        vmap, fixed = self.vmap, self.comp

        def g(idx, comp=0):
            b = tuple(o if ax is None else (T.add(o, idx[ax]) if st == 1 else T.add(o, T.scale(idx[ax], st)))
                      for o, st, ax in vmap)
            if fixed is not None:
                if comp:
                    return T.const(0, "R")
                return content(b, fixed)
            return content(b, comp)
        return g

    def at(self, idx, comp=0):
        return self.getter()(tuple(idx), comp)

    def whole(self):
        """is this the full view of its buffer?"""
        return (self.buf is not None and self.comp is None and len(self.vmap) == self.ndim and
                all(ax == d and st == 1 and T.is_const(o) and T.const_val(o) == 0 and
                    self._shape[d] is self.buf.shape[d]
                    for d, (o, st, ax) in enumerate(self.vmap)))

    # -------- indexing
    def _resolve(self, key):
        """-> list of per-axis ops on self's axes + new shape; returns
        (new_shape, mapping) with mapping[axis]=(off,step,newaxis|None)"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        for k in key:
            if isinstance(k, SArr) or isinstance(k, np.ndarray) or isinstance(k, list):
                raise Unsupported("fancy indexing")
        nspec = builtins.sum(1 for k in key if k is not None and k is not Ellipsis)
        if nspec > self.ndim:
            raise IndexError("too many indices for array")
        if any(k is Ellipsis for k in key):
            j = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[j:j + 1] = [slice(None)] * (self.ndim - nspec)
        else:
            key += [slice(None)] * (self.ndim - nspec)
        shape, mapping, ax = [], [], 0
        for k in key:
            if k is None:
                shape.append(T.const(1))
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step in (None, 1):
                    o, ln, st = T.const(0), n, 1
                else:
                    o, ln, st = norm_slice(k, n)
                mapping.append((o, st, len(shape)))
                shape.append(ln)
            else:
                if not (_isnum(k)):
                    raise Unsupported("index type %r" % type(k))
                mapping.append((norm_index(k, n), 1, None))
            ax += 1
        return shape, mapping

    def __getitem__(self, key):
        if any(isinstance(k, (SArr, np.ndarray, list)) for k in (key if isinstance(key, tuple) else (key,))):
            from . import stubs_la
            return stubs_la.fancy(self, key)
        shape, mapping = self._resolve(key)
        if self.buf is not None:
            vm = []
            for o, st, ax in self.vmap:
                if ax is None:
                    vm.append((o, st, None))
                else:
                    o2, st2, ax2 = mapping[ax]
                    vm.append((T.add(o, T.scale(o2, st)), st * st2, ax2))
            r = SArr(shape, self.dtype, buf=self.buf, vmap=vm, comp=self.comp)
            if not shape and all(not isinstance(k, slice) and k is not Ellipsis
                                 for k in (key if isinstance(key, tuple) else (key,))):
                if ncomp(self.dtype) == 1:
                    return unwrap(r.at(()))
            return r
        fn = self.fn

        def g(idx, comp=0):
            full = tuple(o if ax is None else T.add(o, T.scale(idx[ax], st)) for o, st, ax in mapping)
            return fn(full, comp)
        if not shape and ncomp(self.dtype) == 1:
            return unwrap(g(()))
        return SArr(shape, self.dtype, fn=g)

    def __setitem__(self, key, val):
        if self.buf is None:
            # materialise: writing to a temporary
            self.materialise()
        shape, mapping = self._resolve(key)
        tgt = SArr(shape, self.dtype, buf=self.buf, comp=self.comp, vmap=[
            (o, st, None) if ax is None else
            (T.add(o, T.scale(mapping[ax][0], st)), st * mapping[ax][1], mapping[ax][2])
            for o, st, ax in self.vmap])
        assign(tgt, val)

    def materialise(self):
        if self.ro:
            raise Unsupported("write through a possible view")
        c = ctx()
        b = Buffer(c.fresh("tmp"), self._shape, self.dtype, content=memo_content(self.fn))
        self.buf, self.fn = b, None
        self.vmap = [(T.const(0), 1, d) for d in range(self.ndim)]

    # -------- shape ops
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes[0] is None:
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(int(a) % self.ndim for a in axes)
        shape = [self._shape[a] for a in axes]
        inv = {a: i for i, a in enumerate(axes)}
        if self.buf is not None:
            vm = [(o, st, None if ax is None else inv[ax]) for o, st, ax in self.vmap]
            return SArr(shape, self.dtype, buf=self.buf, vmap=vm, comp=self.comp)
        fn = self.fn
        return SArr(shape, self.dtype, fn=lambda idx, comp=0: fn(tuple(idx[inv[a]] for a in range(len(idx))), comp))

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        new = [s if _isnum(s) else s for s in shape]
        new = [pt(s) for s in new]
        # resolve -1
        if any(T.is_const(s) and T.const_val(s) == -1 for s in new):
            k = [i for i, s in enumerate(new) if T.is_const(s) and T.const_val(s) == -1][0]
            tot = self._shape_prod(self._shape)
            oth = self._shape_prod([s for i, s in enumerate(new) if i != k])
            q = T.exact_div(T.to_real(tot), T.to_real(oth)) if not T.is_const(oth) else None
            if T.is_const(oth):
                v = T.scale(tot, 1 / T.const_val(oth))
            else:
                v = q
            if v is None:
                raise Unsupported("reshape -1")
            new[k] = T.mk_poly("I", v.terms)
        # only insertion/removal of unit dims supported
        a = [s for s in self._shape if not (T.is_const(s) and T.const_val(s) == 1)]
        b = [s for s in new if not (T.is_const(s) and T.const_val(s) == 1)]
        if len(a) != len(b) or not all(decide_eq(x, y) for x, y in zip(a, b)):
            tot_a, tot_b = self._shape_prod(self._shape), self._shape_prod(new)
            if tot_a is not tot_b and ctx().implied(T.bnot(T.eq(tot_a, tot_b))):
                raise ValueError("cannot reshape array")
            raise Unsupported("general reshape")
        # map old axes -> new axes
        na = [i for i, s in enumerate(new) if not (T.is_const(s) and T.const_val(s) == 1)]
        oa = [i for i, s in enumerate(self._shape) if not (T.is_const(s) and T.const_val(s) == 1)]
        mp = dict(zip(oa, na))
        if self.buf is not None:
            vm = []
            for o, st, ax in self.vmap:
                if ax is None or ax not in mp:
                    vm.append((o, st, None))
                else:
                    vm.append((o, st, mp[ax]))
            return SArr(new, self.dtype, buf=self.buf, vmap=vm, comp=self.comp)
        fn, nd = self.fn, self.ndim
        return SArr(new, self.dtype, fn=lambda idx, comp=0: fn(
            tuple(idx[mp[d]] if d in mp else T.const(0) for d in range(nd)), comp))

    @staticmethod
    def _shape_prod(s):
        p = T.const(1)
        for x in s:
            p = T.mul(p, x)
        return p

    def view(self, *a, **k):
        if not a and not k:
            return self[...]
        raise Unsupported("view with dtype")

    def squeeze(self, axis=None):
        return self.reshape(*[unwrap(s) for i, s in enumerate(self._shape)
                              if not (T.is_const(s) and T.const_val(s) == 1)])

    def ravel(self):
        return self.reshape(-1)

    flatten = ravel

    def copy(self, order="C"):
        g = self.getter()
        b = Buffer(ctx().fresh("copy"), self._shape, self.dtype, content=memo_content(g))
        return full_view(b)

    def astype(self, dt, **kw):
        dt = npdt(dt)
        g = self.getter()
        if dt.kind in "iu" and self.dtype.kind == "f":
            g0 = g
            g = lambda idx, comp=0: trunc(g0(idx))
        g = narrowed(g, self.dtype, dt)
        b = Buffer(ctx().fresh("cast"), self._shape, dt, content=memo_content(g))
        return full_view(b)

    @property
    def real(self):
        if ncomp(self.dtype) == 1:
            return self
        return self._comp(0)

    @property
    def imag(self):
        return self._comp(1)

    def _comp(self, k):
        if ncomp(self.dtype) == 1:
            if k == 0:
                return self
            return SArr(self._shape, self.dtype, fn=lambda idx, comp=0: T.const(0, "R"))
        dt = F4 if self.dtype == C8 else F8
        if self.buf is not None:
            return SArr(self._shape, dt, buf=self.buf, vmap=self.vmap, comp=k)
        fn = self.fn
        return SArr(self._shape, dt, fn=lambda idx, comp=0: fn(idx, k) if comp == 0 else T.const(0, "R"))

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        if self.ndim == 0:
            return unwrap(self.at(()))
        raise Unsupported("item")

    def tobytes(self):
        raise Unsupported("tobytes")

    def sum(self, axis=None, **k):
        return np_sum(self, axis=axis)

    def dot(self, o, out=None):
        from . import stubs_la
        return stubs_la.dot(self, o, out)

    def argsort(self, *a, **k):
        from . import stubs_la
        return stubs_la.argsort(self, *a, **k)

    def __matmul__(self, o):
        from . import stubs_la
        return stubs_la.matmul(self, o)

    def __rmatmul__(self, o):
        from . import stubs_la
        return stubs_la.matmul(o, self)

    def min(self, *a, **k):
        raise Unsupported("min")

    max = mean = min

    def all(self, *a, **k):
        from .npx import np_all
        return np_all(self, *a, **k)

    def any(self, *a, **k):
        from .npx import np_any
        return np_any(self, *a, **k)

    # -------- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__":
            return call_ufunc(ufunc.__name__, inputs, **kw)
        if method == "reduce" and ufunc.__name__ == "add":
            return np_sum(inputs[0], axis=kw.get("axis", 0))
        raise Unsupported("ufunc %s.%s" % (ufunc.__name__, method))

    def __array_function__(self, func, types, args, kwargs):
        from . import npx
        f = npx.TABLE.get(func.__name__)
        if f is None:
            raise Unsupported("numpy function %s" % func.__name__)
        return f(*args, **kwargs)

    def __array__(self, *a, **k):
        raise Unsupported("conversion of symbolic array to ndarray")

    def __bool__(self):
        if self.ndim == 0:
            return bool(unwrap(self.at(())))
        raise Unsupported("truth value of symbolic array")

    def __iter__(self):
        for i in builtins.range(len(self)):
            yield self[i]

    def __hash__(self):
        return id(self)


def full_view(buf):
    return SArr(buf.shape, buf.dtype, buf=buf, vmap=[(T.const(0), 1, d) for d in range(len(buf.shape))])


def unwrap(p):
    """Poly -> python int when it is a constant integer, else Sym"""
    if isinstance(p, T.Poly):
        if p.sort == "I" and T.is_const(p):
            return int(T.const_val(p))
        return Sym(p)
    if isinstance(p, T.BTerm):
        if p is T.TRUE:
            return True
        if p is T.FALSE:
            return False
        return SBool(p)
    return p


def trunc(p):
    if p.sort == "I":
        return p
    f = T.floor(p)
    if T.to_real(f) is p:
        return f
    return T.ite(T.le(T.const(0, "R"), p), f, T.neg(T.floor(T.neg(p))))


def asarr(x):
    """anything -> SArr (0-d for scalars)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, (Sym, SBool)):
        p = pt(x)
        return SArr((), I8 if p.sort == "I" else F8, fn=lambda idx, comp=0: p if comp == 0 else T.const(0, "R"))
    if isinstance(x, (list, tuple)):
        subs = [asarr(e) for e in x]
        if not subs:
            raise Unsupported("empty list")
        return stack(subs, 0)
    if isinstance(x, complex):
        re, im = pt(x.real), pt(x.imag)
        return SArr((), C16, fn=lambda idx, comp=0: im if comp else re)
    if isinstance(x, np.ndarray):
        return from_np(x)
    if _isnum(x):
        p = pt(x)
        dt = I8 if p.sort == "I" else (F4 if isinstance(x, np.float32) else F8)
        return SArr((), dt, fn=lambda idx, comp=0: p if comp == 0 else T.const(0, "R"))
    if x is np.inf or x is np.nan:
        raise Unsupported("inf")
    raise Unsupported("array conversion of %r" % type(x))


def from_np(x):
    if x.size > 4096:
        raise Unsupported("large concrete array")
    if x.dtype.kind not in "iufb":
        raise Unsupported("concrete array dtype %s" % x.dtype)
    vals = {}
    for ix in np.ndindex(*x.shape):
        vals[ix] = pt(x[ix].item() if x.dtype != F4 else np.float32(x[ix]))

    def fn(idx, comp=0):
        if comp:
            return T.const(0, "R")

        def rec(prefix, rest):
            if not rest:
                return vals[prefix]
            i = rest[0]
            n = x.shape[len(prefix)]
            if T.is_const(i):
                return rec(prefix + (int(T.const_val(i)),), rest[1:])
            r = rec(prefix + (n - 1,), rest[1:])
            for k in reversed(builtins.range(n - 1)):
                r = T.ite(T.eq(i, T.const(k)), rec(prefix + (k,), rest[1:]), r)
            return r
        return rec((), tuple(idx))
    return SArr([T.const(s) for s in x.shape], x.dtype, fn=memo_content(fn))


def stack(subs, axis=0):
    subs = [asarr(s) for s in subs]
    gs = [s.getter() for s in subs]
    sh = subs[0]._shape
    for s in subs[1:]:
        if len(s._shape) != len(sh) or not all(decide_eq(a, b) for a, b in zip(sh, s._shape)):
            raise ValueError("all input arrays must have the same shape")
    axis = axis % (len(sh) + 1)
    shape = list(sh[:axis]) + [T.const(len(subs))] + list(sh[axis:])

    def fn(idx, comp=0):
        k = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        if T.is_const(k):
            return gs[int(T.const_val(k))](rest, comp)
        r = gs[-1](rest, comp)
        for j in reversed(builtins.range(len(gs) - 1)):
            r = T.ite(T.eq(k, T.const(j)), gs[j](rest, comp), r)
        return r
    dt = subs[0].dtype
    for s in subs[1:]:
        dt = np.promote_types(dt, s.dtype)
    return SArr(shape, dt, fn=fn)


# ---------------------------------------------------------------- broadcast
def broadcast_shapes(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = T.const(1)
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            n = s[k]
            if T.is_const(n) and T.const_val(n) == 1:
                continue
            if T.is_const(cur) and T.const_val(cur) == 1:
                cur = n
                continue
            if cur is n or decide_eq(cur, n):
                continue
            if T.is_const(cur) is False and decide_eq(cur, T.const(1)):
                cur = n
                continue
            if decide_eq(n, T.const(1)):
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def broadcast_getter(a, shape):
    """getter of a (SArr) as if broadcast to shape"""
    g = a.getter()
    nd, k = len(shape), a.ndim
    ones = [T.is_const(s) and T.const_val(s) == 1 for s in a._shape]
    if k == nd and not any(ones):
        return g
    z = T.const(0)

    def f(idx, comp=0):
        return g(tuple(z if ones[d] else idx[nd - k + d] for d in range(k)), comp)
    return f


def as_bool_poly(p):
    """0/1 int poly -> BTerm"""
    if T.is_const(p):
        return T.TRUE if T.const_val(p) != 0 else T.FALSE
    # ite(c,1,0) pattern
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = T._atom_list[m[0][0]]
            if a.kind == "ite" and T.is_const(a.data[1]) and T.is_const(a.data[2]):
                x, y = T.const_val(a.data[1]), T.const_val(a.data[2])
                if x == 1 and y == 0:
                    return a.data[0]
                if x == 0 and y == 1:
                    return T.bnot(a.data[0])
    return T.bnot(T.eq0(p))


def b2p(b):
    return T.ite(b, T.const(1, "I"), T.const(0, "I"))


UNARY = {
    "negative": T.neg, "positive": lambda p: p, "absolute": T.pabs, "fabs": T.pabs,
    "sqrt": T.sqrt, "sin": T.sin, "cos": T.cos, "log": T.log,
    "square": lambda p: T.mul(p, p), "reciprocal": T.inv, "floor": T.floor,

    "ceil": lambda p: T.neg(T.floor(T.neg(p))),
    "conjugate": None,
    "logical_not": lambda p: b2p(T.bnot(as_bool_poly(p))),
    "invert": lambda p: b2p(T.bnot(as_bool_poly(p))),
    "sign": lambda p: T.ite(T.lt0(T.neg(p)), T.const(1), T.ite(T.lt0(p), T.const(-1), T.const(0))),
    "exp": lambda p: T.app("exp", (T.to_real(p),)),
}


def _pow2(a, b):
    if T.is_const(b):
        return ppow(a, T.const_val(b))
    if T.is_const(a) and False:
        pass
    raise Unsupported("symbolic exponent")


BINARY = {
    "add": T.add, "subtract": T.sub, "multiply": T.mul, "divide": T.div, "true_divide": T.div,
    "floor_divide": floordiv, "remainder": mod, "fmod": mod, "power": _pow2, "float_power": _pow2,
    "minimum": T.pmin, "maximum": T.pmax, "fmin": T.pmin, "fmax": T.pmax,
    "less": lambda a, b: b2p(T.lt(a, b)), "less_equal": lambda a, b: b2p(T.le(a, b)),
    "greater": lambda a, b: b2p(T.lt(b, a)), "greater_equal": lambda a, b: b2p(T.le(b, a)),
    "equal": lambda a, b: b2p(T.eq(a, b)), "not_equal": lambda a, b: b2p(T.bnot(T.eq(a, b))),
    "logical_and": lambda a, b: b2p(T.band(as_bool_poly(a), as_bool_poly(b))),
    "logical_or": lambda a, b: b2p(T.bor(as_bool_poly(a), as_bool_poly(b))),
    "bitwise_and": lambda a, b: b2p(T.band(as_bool_poly(a), as_bool_poly(b))),
    "bitwise_or": lambda a, b: b2p(T.bor(as_bool_poly(a), as_bool_poly(b))),
    "hypot": lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b))),
}
COMPARE = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal",
           "logical_and", "logical_or", "logical_not"}
BOOLKEEP = {"bitwise_and", "bitwise_or", "invert"}


def result_dtype(name, xs, arrs):
    if name in COMPARE:
        return B1
    strong = [a.dtype for x, a in zip(xs, arrs) if isinstance(x, (SArr, np.ndarray)) and a.ndim > 0]
    weak = [a.dtype for x, a in zip(xs, arrs) if not (isinstance(x, (SArr, np.ndarray)) and a.ndim > 0)]
    if not strong:
        dt = weak[0]
        for w in weak[1:]:
            dt = np.promote_types(dt, w)
    else:
        dt = strong[0]
        for w in strong[1:]:
            dt = np.promote_types(dt, w)
        order = "?iufc"
        for w in weak:
            if order.index("i" if w.kind == "u" else w.kind) > order.index(dt.kind):
                dt = np.promote_types(dt, F4) if (w.kind == "f" and dt.kind == "c") else \
                    (C8 if dt == F4 and w.kind == "c" else np.promote_types(dt, w))
    if name in BOOLKEEP:
        return dt
    if dt.kind == "b" and name not in BOOLKEEP:
        dt = I8 if name in ("add", "subtract", "multiply") else F8
    if name in ("divide", "true_divide", "sqrt", "sin", "cos", "log", "exp", "reciprocal", "hypot", "float_power") \
            and dt.kind in "iub":
        dt = F8
    if name == "fabs" and dt.kind in "iub":
        dt = F8
    return dt


def elementwise(name, xs):
    arrs = [asarr(x) for x in xs]
    dt = result_dtype(name, xs, arrs)
    shape = broadcast_shapes([a._shape for a in arrs])
    gs = [broadcast_getter(a, shape) for a in arrs]
    cpx = [ncomp(a.dtype) == 2 for a in arrs]
    if name in ("real", "imag"):
        return arrs[0]._comp(0 if name == "real" else 1)
    if any(cpx):
        fn = complex_fn(name, gs, cpx)
    elif len(gs) == 1:
        op = UNARY.get(name)
        if op is None:
            if name == "conjugate":
                return arrs[0]
            raise Unsupported("ufunc " + name)
        g0 = gs[0]
        fn = lambda idx, comp=0: op(g0(idx)) if comp == 0 else T.const(0, "R")
    else:
        op = BINARY.get(name)
        if op is None:
            raise Unsupported("ufunc " + name)
        g0, g1 = gs
        if name in ("bitwise_and", "bitwise_or") and dt.kind != "b":
            raise Unsupported("bitwise on ints")
        fn = lambda idx, comp=0: op(g0(idx), g1(idx)) if comp == 0 else T.const(0, "R")
    if not shape:
        if not any(cpx):
            p = fn(())
            return unwrap(as_bool_poly(p)) if dt.kind == "b" else unwrap(p)
    r = SArr(shape, dt, fn=memo_content(fn))
    return r


def complex_fn(name, gs, cpx):
    if name in ("add", "subtract", "negative", "positive"):
        op = {"add": T.add, "subtract": T.sub, "negative": T.neg, "positive": lambda p: p}[name]
        return lambda idx, comp=0: op(*[g(idx, comp) for g in gs])
    if name == "conjugate":
        return lambda idx, comp=0: T.neg(gs[0](idx, 1)) if comp else gs[0](idx, 0)
    if name == "multiply":
        a, b = gs

        def f(idx, comp=0):
            if not cpx[0]:
                return T.mul(a(idx), b(idx, comp))
            if not cpx[1]:
                return T.mul(a(idx, comp), b(idx))
            if comp == 0:
                return T.sub(T.mul(a(idx, 0), b(idx, 0)), T.mul(a(idx, 1), b(idx, 1)))
            return T.add(T.mul(a(idx, 0), b(idx, 1)), T.mul(a(idx, 1), b(idx, 0)))
        return f
    if name in ("divide", "true_divide") and not cpx[1]:
        a, b = gs
        return lambda idx, comp=0: T.div(a(idx, comp), b(idx))
    raise Unsupported("complex ufunc " + name)


def call_ufunc(name, inputs, out=None, where=True, casting=None, dtype=None, **kw):
    if where is not True:
        raise Unsupported("ufunc where=")
    if name == "matmul":
        from . import stubs_la
        return stubs_la.matmul(*inputs, out=out[0] if isinstance(out, tuple) else out, **kw)
    r = elementwise(name, inputs)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            ra = asarr(r)
            bs = broadcast_shapes([ra._shape, o._shape])
            if len(bs) != o.ndim or not all(a is b or decide_eq(a, b) for a, b in zip(bs, o._shape)):
                raise ValueError("non-broadcastable output operand")
            if o.dtype.kind in "iu" and ra.dtype.kind == "f":
                raise TypeError("Cannot cast ufunc output")
            assign(o, r)
            return o
    return r


def _binop(name):
    def f(self, o):
        if not (_isnum(o) or isinstance(o, (SArr, np.ndarray, complex, list))):
            return NotImplemented
        return elementwise(name, (self, o))

    def r(self, o):
        if not (_isnum(o) or isinstance(o, (SArr, np.ndarray, complex, list))):
            return NotImplemented
        return elementwise(name, (o, self))

    def i(self, o):
        res = elementwise(name, (self, o))
        ra = asarr(res)
        bs = broadcast_shapes([ra._shape, self._shape])
        if len(bs) != self.ndim or not all(a is b or decide_eq(a, b) for a, b in zip(bs, self._shape)):
            raise ValueError("non-broadcastable output operand")
        if self.dtype.kind in "iu" and ra.dtype.kind == "f":
            raise TypeError("Cannot cast ufunc output")
        if self.buf is None:
            self.materialise()
        assign(self, res)
        return self
    return f, r, i


for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"),
               ("floordiv", "floor_divide"), ("mod", "remainder"), ("pow", "power"),
               ("and", "bitwise_and"), ("or", "bitwise_or")):
    _f, _r, _i = _binop(_u)
    setattr(SArr, "__%s__" % _n, _f)
    setattr(SArr, "__r%s__" % _n, _r)
    setattr(SArr, "__i%s__" % _n, _i)
for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"),
               ("eq", "equal"), ("ne", "not_equal")):
    setattr(SArr, "__%s__" % _n, _binop(_u)[0])
SArr.__neg__ = lambda self: elementwise("negative", (self,))
SArr.__pos__ = lambda self: self.copy()
SArr.__abs__ = lambda self: elementwise("absolute", (self,))
SArr.__invert__ = lambda self: elementwise("invert", (self,))


# ------------------------------------------------------------------ writing
def region_of(tgt):
    """(region(baseidx)->BTerm, inverse(baseidx)->view idx)"""
    vmap, shape = tgt.vmap, tgt._shape
    used = {}
    for d, (o, st, ax) in enumerate(vmap):
        if ax is not None:
            if ax in used:
                raise Unsupported("write through diagonal view")
            used[ax] = d
    for ax, n in enumerate(shape):
        if ax not in used and not (T.is_const(n) and T.const_val(n) == 1):
            raise Unsupported("write through broadcast view")
    bshape = tgt.buf.shape

    def region(b):
        cs = []
        for d, (o, st, ax) in enumerate(vmap):
            if ax is None:
                cs.append(T.eq(b[d], o))
            else:
                n = shape[ax]
                zero_off = T.is_const(o) and T.const_val(o) == 0
                if st == 1 and zero_off and n is bshape[d]:
                    continue
                if st == 1:
                    if not zero_off:
                        cs.append(T.le(o, b[d]))
                    if T.add(o, n) is not bshape[d]:
                        cs.append(T.lt(b[d], T.add(o, n)))
                elif st == -1:
                    cs.append(T.le(b[d], o))
                    cs.append(T.lt(T.sub(o, b[d]), n))
                else:
                    q = T.sub(b[d], o)
                    cs.append(T.eq(T.imod(q, T.const(st)), T.const(0)))
                    k = T.idiv(q, T.const(st))
                    cs.append(T.le(T.const(0), k))
                    cs.append(T.lt(k, n))
        return T.band(*cs)

    def inverse(b):
        idx = []
        for ax in range(len(shape)):
            d = used.get(ax)
            if d is None:
                idx.append(T.const(0))
                continue
            o, st, _ = vmap[d]
            q = T.sub(b[d], o)
            if st == 1:
                idx.append(q)
            elif st == -1:
                idx.append(T.neg(q))
            else:
                idx.append(T.idiv(q, T.const(st)))
        return tuple(idx)
    return region, inverse


def assign(tgt, val):
    """tgt[...] = val (numpy semantics: rhs read before the write)"""
    if tgt.buf is None:
        raise Unsupported("assignment to a temporary")
    v = asarr(val)
    vs = v._shape
    # leading unit dims of the value may be dropped
    while len(vs) > tgt.ndim:
        if not decide_eq(vs[0], T.const(1)):
            raise ValueError("could not broadcast input array")
        v = v[0]
        v = asarr(v)
        vs = v._shape
    k = tgt.ndim - len(vs)
    stretched = set()
    for d, n in enumerate(vs):
        m = tgt._shape[k + d]
        if n is m or (T.is_const(n) and T.const_val(n) == 1):
            continue
        if decide_eq(n, m):
            continue
        if decide_eq(n, T.const(1)):
            stretched.add(d)
            continue
        raise ValueError("could not broadcast input array from shape %s into shape %s" % (
            v.shape, tgt.shape))
    if stretched:
        g1, z1 = v.getter(), T.const(0)
        v = SArr([T.const(1) if d in stretched else n for d, n in enumerate(vs)], v.dtype,
                 fn=lambda idx, comp=0: g1(tuple(z1 if d in stretched else i for d, i in enumerate(idx)), comp))
    g = broadcast_getter(v, tgt._shape)
    write(tgt, g, vdtype=v.dtype)


def write(tgt, g, vdtype=None):
    buf = tgt.buf
    dt = buf.dtype
    if dt.kind in "iu" and vdtype is not None and vdtype.kind == "f":
        g0 = g
        g = lambda idx, comp=0: trunc(g0(idx))
    if dt.kind == "f" and vdtype is not None and vdtype.kind == "c":
        raise Unsupported("complex into real")
    if vdtype is not None:
        g = narrowed(g, vdtype, dt)
    region, inverse = region_of(tgt)
    fixed = tgt.comp

    def value(b, comp=0):
        if fixed is not None:
            return g(inverse(b), 0) if comp == fixed else None
        v = g(inverse(b), comp)
        if dt.kind in "fc":
            v = T.to_real(v)
        return v
    push_layer(buf, region, value)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if out is not None or keepdims:
        raise Unsupported("sum options")
    a = asarr(a)
    axes = tuple(range(a.ndim)) if axis is None else tuple(
        x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    ns = []
    for ax in axes:
        n = a._shape[ax]
        if not T.is_const(n):
            raise Unsupported("sum over symbolic extent")
        ns.append(int(T.const_val(n)))
    tot = 1
    for n in ns:
        tot *= n
    if tot > 256:
        raise Unsupported("large sum")
    g = a.getter()
    rest = [d for d in range(a.ndim) if d not in axes]

    def fn(idx, comp=0):
        s = T.const(0, "R" if a.dtype.kind in "fc" else "I")
        for ks in np.ndindex(*ns):
            full = [None] * a.ndim
            for ax, k in zip(axes, ks):
                full[ax] = T.const(int(k))
            for d, i in zip(rest, idx):
                full[d] = i
            s = T.add(s, g(tuple(full), comp))
        return s
    if not rest and ncomp(a.dtype) == 1:
        return unwrap(fn(()))
    return SArr([a._shape[d] for d in rest], a.dtype if a.dtype.kind != "b" else I8, fn=memo_content(fn))


def same_view(a, b):
    return (a.buf is b.buf and a.comp == b.comp and len(a.vmap) == len(b.vmap) and
            all(x == y for x, y in zip(a.vmap, b.vmap)) and a._shape == b._shape)


def disjoint(a, b):
    """goal BTerm or True: the two views share no element"""
    if a.buf is not b.buf:
        return T.TRUE
    if a.comp is not None and b.comp is not None and a.comp != b.comp:
        return T.TRUE
    cs = []
    for (o1, s1, x1), (o2, s2, x2) in zip(a.vmap, b.vmap):
        if abs(s1) == 1 and abs(s2) == 1:
            def rng(o, s, x, v):
                if x is None:
                    return o, o
                n = v._shape[x]
                e = T.add(o, T.scale(T.sub(n, T.const(1)), s))
                return (o, e) if s > 0 else (e, o)
            l1, h1 = rng(o1, s1, x1, a)
            l2, h2 = rng(o2, s2, x2, b)
            cs.append(T.bor(T.lt(h1, l2), T.lt(h2, l1)))
    for v in (a, b):
        for n in v._shape:
            cs.append(T.le(n, T.const(0)))
    return T.bor(*cs)
