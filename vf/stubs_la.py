"""Assumed contracts of numpy.linalg / scipy.sparse / numpy contractions on
abstract matrices.

eig(A): real A with records (A, eigval!k, eigvec!k, eiginv!k): A V = V diag(w),
V invertible with inverse eiginv!k.  argsort(w): a permutation perm!k of the
index range with w o perm increasing.  Contractions are (symbolic) sums."""
import numpy as np

from . import term as T
from .sym import Unsupported, Sym, pt, ctx, _isnum
from .sarr import SArr, Buffer, full_view, asarr, uf_content, memo_content, decide_eq, npdt, F4, F8, I8, write

EIGS = {}      # record name -> dict(n, get, hermitian)
PERMS = {}     # perm name -> dict(n, get)
LEVEL = [100]


def reset():
    EIGS.clear()
    PERMS.clear()
    LEVEL[0] = 100


def trust(s):
    ctx().trusted.add(s)


def lazy(shape, dtype, fn):
    return SArr(list(shape), dtype, fn=memo_content(fn))


def buffered(name, shape, dtype, fn):
    return full_view(Buffer(ctx().fresh(name), tuple(shape), dtype, content=fn))


# ----------------------------------------------------------------- contraction
def common(*xs):
    ds = [x.dtype for x in xs]
    if any(d.kind == "c" for d in ds):
        raise Unsupported("complex contraction")
    return npdt(np.result_type(*ds))


def contract(operands, labels, out):
    """sum over the labels not in out of the product of the operands"""
    ext = {}
    for a, ls in zip(operands, labels):
        if a.ndim != len(ls):
            raise ValueError("einsum: operand has another number of dimensions")
        if len(set(ls)) != len(ls):
            raise Unsupported("repeated subscript")
        for n, l in zip(a._shape, ls):
            if l in ext:
                if not decide_eq(ext[l], n):
                    raise ValueError("shapes not aligned: dimension mismatch in a contraction")
            else:
                ext[l] = n
    inner = [l for l in ext if l not in out]
    lev = {}
    for l in inner:
        LEVEL[0] += 1
        lev[l] = LEVEL[0]
    gs = [a.getter() for a in operands]

    def fn(idx, comp=0):
        env = dict(zip(out, idx))
        for l in inner:
            env[l] = T.bound_var(lev[l])
        body = T.const(1, "R")
        for g, ls in zip(gs, labels):
            body = T.mul(body, T.to_real(g(tuple(env[l] for l in ls))))
        for l in inner:
            body = T.fsum(ext[l], body, lev[l])
        return body
    return lazy([ext[l] for l in out], common(*operands), fn)


def deliver(r, out):
    if out is None:
        return r
    if not isinstance(out, SArr) or out.ndim != r.ndim:
        raise ValueError("output array has wrong dimensions")
    for m, n in zip(out._shape, r._shape):
        if not decide_eq(m, n):
            raise ValueError("output array has wrong dimensions")
    if out.dtype != r.dtype:
        raise ValueError("output array is not acceptable (must have the right datatype)")
    write(out, r.getter())
    return out


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if _isnum(axes):
        n = int(axes)
        xa, xb = list(range(a.ndim - n, a.ndim)), list(range(n))
    else:
        xa, xb = axes
        xa = [xa] if _isnum(xa) else list(xa)
        xb = [xb] if _isnum(xb) else list(xb)
    xa, xb = [int(x) % a.ndim for x in xa], [int(x) % b.ndim for x in xb]
    if len(xa) != len(xb):
        raise ValueError("shape-mismatch for sum")
    la_ = ["a%d" % d for d in range(a.ndim)]
    lb = ["b%d" % d for d in range(b.ndim)]
    for p, q in zip(xa, xb):
        lb[q] = la_[p]
    out = [l for d, l in enumerate(la_) if d not in xa] + [l for d, l in enumerate(lb) if d not in xb]
    return contract([a, b], [la_, lb], out)


def dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return deliver(a * b, out)
    r = tensordot(a, b, ((a.ndim - 1,), (0,) if b.ndim == 1 else (b.ndim - 2,)))
    if not r.ndim:
        from .sarr import unwrap
        return unwrap(r.at(()))
    return deliver(r, out)


def matmul(a, b, out=None, **kw):
    if kw:
        raise Unsupported("matmul options")
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b, out)
    if a.ndim == 1 or b.ndim == 1:
        raise Unsupported("matmul of a vector and a stack")
    # stacks of matrices: leading axes aligned from the right
    nb = max(a.ndim, b.ndim) - 2
    names = ["s%d" % d for d in range(nb)]
    la_ = names[nb - (a.ndim - 2):] + ["i", "j"]
    lb = names[nb - (b.ndim - 2):] + ["j", "k"]
    return deliver(contract([a, b], [la_, lb], names + ["i", "k"]), out)


def einsum(spec, *ops, out=None, **kw):
    kw.pop("optimize", None)
    if kw or not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum form")
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        rhs = "".join(sorted(l for l in set(lhs) - {","} if lhs.count(l) == 1))
    return deliver(contract([asarr(o) for o in ops], [list(s) for s in lhs.split(",")], list(rhs)), out)


def multi_dot(arrays, out=None):
    arrays = [asarr(a) for a in arrays]
    if len(arrays) < 2:
        raise ValueError("Expecting at least two arrays.")
    if any(a.ndim != 2 for a in arrays):
        raise Unsupported("multi_dot of vectors")
    r = arrays[0]
    for b in arrays[1:]:
        r = dot(r, b)
    return deliver(r, out)


# ------------------------------------------------------------------ spectral
def _square(a):
    if a.ndim != 2:
        raise np.linalg.LinAlgError("array must be two-dimensional")
    if not decide_eq(a._shape[0], a._shape[1]):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if a.dtype not in (F4, F8):
        raise Unsupported("eigendecomposition of %s" % a.dtype)
    return a._shape[0]


def eig(a, hermitian=False):
    a = asarr(a)
    n = _square(a)
    k = ctx().fresh("eig")
    EIGS[k] = dict(n=n, get=a.getter(), hermitian=hermitian)
    trust("numpy.linalg.eig: A V = V diag(w), V invertible, real spectrum of a real symmetric matrix (LAPACK)")
    w = buffered("eigval", (n,), a.dtype, uf_content(k + ".w", a.dtype))
    v = buffered("eigvec", (n, n), a.dtype, uf_content(k + ".v", a.dtype))
    return w, v


def eigh(a, UPLO="L"):
    trust("numpy.linalg.eigh: ascending eigenvalues, orthonormal eigenvectors (LAPACK)")
    return eig(a, hermitian=True)


def inverse_entry(k, i, j):
    if EIGS[k]["hermitian"]:
        return T.app(k + ".v", (j, i), "R")
    return T.app(k + ".i", (i, j), "R")


def perm_of(p):
    """the poly p is one application perm(arg): (name, arg)"""
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = T._atom_list[m[0][0]]
            if a.kind == "app" and a.data[0] in PERMS:
                return a.data[0], a.data[1]
    return None


def bijective(p, v, n):
    """p (a poly of the variable v in [0,n)) runs through [0,n) exactly once"""
    if p == v or p == T.sub(T.sub(n, T.const(1)), v):
        return True
    q = perm_of(p)
    return q is not None and decide_eq(PERMS[q[0]]["n"], n) and bijective(q[1], v, n)


def inv(a):
    a = asarr(a)
    n = _square(a)
    x, y = T.var("$m0", "I"), T.var("$m1", "I")
    p = a.getter()((x, y))
    trust("numpy.linalg.inv: exact inverse (LAPACK)")
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = T._atom_list[m[0][0]]
            if at.kind == "app" and at.data[0][-2:] == ".v" and at.data[0][:-2] in EIGS:
                k = at.data[0][:-2]
                r, s = at.data[1:]
                yid, xid = (next(iter(q.terms))[0][0] for q in (y, x))
                if decide_eq(EIGS[k]["n"], n):
                    if r == x and bijective(s, y, n):
                        def fn(idx, comp=0):
                            return inverse_entry(k, T.subst_poly(s, {yid: idx[0]}), idx[1])
                        return buffered("inverse", (n, n), a.dtype, fn)
                    if r == y and bijective(s, x, n):
                        def fn(idx, comp=0):
                            return inverse_entry(k, T.subst_poly(s, {xid: idx[1]}), idx[0])
                        return buffered("inverse", (n, n), a.dtype, fn)
    raise Unsupported("inverse of a general matrix")


def solve(a, b):
    return tensordot(inv(a), b, ((1,), (0,)))


def argsort(a, axis=-1, kind=None, order=None, **kw):
    a = asarr(a)
    if a.ndim != 1 or order is not None or kw:
        raise Unsupported("argsort form")
    n = a._shape[0]
    x = T.var("$m0", "I")
    p = a.getter()((x,))
    for k, r in EIGS.items():
        if r["hermitian"] and p == T.app(k + ".w", (x,), "R"):
            return buffered("order", (n,), I8, lambda idx, comp=0: idx[0])
    k = ctx().fresh("perm")
    PERMS[k] = dict(n=n, get=a.getter())
    trust("numpy argsort: a permutation that sorts increasingly")
    return buffered("order", (n,), I8, lambda idx, comp=0: T.app(k, (idx[0],), "I"))


def sort(a, axis=-1, **kw):
    a = asarr(a)
    return a[argsort(a, axis, **kw)]


def extreme(k, which):
    """index of the smallest/largest eigenvalue of record k"""
    r = EIGS[k]
    if r["hermitian"]:
        return T.const(0) if which == "min" else T.sub(r["n"], T.const(1))
    return T.app("arg%s!%s" % (which, k), (), "I")


def perm_value(name, arg):
    """perm(arg), with the first and last positions of a sorted spectrum named"""
    q = PERMS[name]
    x = T.var("$m0", "I")
    p = q["get"]((x,))
    for sign in (1, -1):
        for k, r in EIGS.items():
            if p == T.scale(T.app(k + ".w", (x,), "R"), sign) and decide_eq(r["n"], q["n"]):
                if arg == T.const(0):
                    return extreme(k, "min" if sign == 1 else "max")
                if arg == T.sub(q["n"], T.const(1)):
                    return extreme(k, "max" if sign == 1 else "min")
    return T.app(name, (arg,), "I")


def fancy(arr, key):
    """arr[..., idx, ...] with one integer vector among full slices"""
    key = key if isinstance(key, tuple) else (key,)
    if any(k is None or k is Ellipsis for k in key):
        raise Unsupported("fancy indexing")
    key = list(key) + [slice(None)] * (arr.ndim - len(key))
    pos = [d for d, k in enumerate(key) if isinstance(k, (SArr, np.ndarray, list))]
    if len(pos) != 1 or any(not (isinstance(k, slice) and k == slice(None)) for d, k in enumerate(key) if d != pos[0]):
        raise Unsupported("fancy indexing")
    d = pos[0]
    ix = asarr(key[d])
    if ix.ndim != 1 or ix.dtype.kind not in "iu":
        raise Unsupported("fancy indexing")
    g, h = arr.getter(), ix.getter()
    n = arr._shape[d]
    c = ctx()
    x = c.fresh("at")
    x = T.var(x, "I")
    v = h((x,))
    old = list(c.assumps)
    c.assumps = old + [T.le(T.const(0), x), T.lt(x, ix._shape[0])]
    for a in T.atoms_of_poly(v, set()):
        if a.kind == "app" and a.data[0] in PERMS:
            me = T.from_atom(a)
            c.oblige("bounds", "index into a permutation", T.band(
                T.le(T.const(0), a.data[1]), T.lt(a.data[1], PERMS[a.data[0]]["n"])))
            c.assumps += [T.le(T.const(0), me), T.lt(me, PERMS[a.data[0]]["n"])]
    c.oblige("bounds", "gather index", T.band(T.le(T.const(0), v), T.lt(v, n)))
    c.assumps = old

    def fn(idx, comp=0):
        full = list(idx)
        full[d] = h((idx[d],))
        return g(tuple(full), comp)
    shape = list(arr._shape)
    shape[d] = ix._shape[0]
    return SArr(shape, arr.dtype, fn=memo_content(fn))


class _LA:
    eig = staticmethod(eig)
    eigh = staticmethod(eigh)
    inv = staticmethod(inv)
    solve = staticmethod(solve)
    multi_dot = staticmethod(multi_dot)
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def f(*a, **kw):
            raise Unsupported("linalg.%s" % k)
        return f


LA = _LA()


# ---------------------------------------------------------------- scipy.sparse
class SpMat:
    """a sparse matrix: its entries"""

    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, arr):
        self.arr = arr

    @property
    def shape(self):
        return self.arr.shape

    def _scaled(self, o):
        if not _isnum(o):
            raise Unsupported("sparse product")
        return SpMat(self.arr * o)

    __mul__ = __rmul__ = _scaled

    def __truediv__(self, o):
        if not _isnum(o):
            raise Unsupported("sparse division")
        return SpMat(self.arr / o)

    def __neg__(self):
        return SpMat(self.arr * -1)

    def __add__(self, o):
        if not isinstance(o, SpMat):
            raise Unsupported("sparse sum")
        return SpMat(self.arr + o.arr)

    def __sub__(self, o):
        if not isinstance(o, SpMat):
            raise Unsupported("sparse difference")
        return SpMat(self.arr - o.arr)

    def toarray(self, order=None, out=None):
        g = self.arr.getter()
        return buffered("dense", self.arr._shape, self.arr.dtype, g)

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    @property
    def T(self):
        return SpMat(self.arr.transpose())

    def tocsr(self, copy=False):
        return self

    tocsc = tolil = tocoo = todia = asformat = lambda self, *a, **k: self

    def astype(self, dt, **k):
        return SpMat(self.arr.astype(dt))


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if _isnum(offsets):
        offsets, diagonals = [offsets], [diagonals]
    offsets = [int(o) for o in offsets]
    diagonals = list(diagonals)
    if len(offsets) != len(diagonals):
        raise ValueError("Different number of diagonals and offsets.")
    if len(set(offsets)) != len(offsets):
        raise ValueError("repeated offset")
    vals = []
    for d in diagonals:
        if _isnum(d):
            vals.append(pt(d))
        elif isinstance(d, (list, tuple)) and len(d) == 1:
            vals.append(pt(d[0]))
        else:
            raise Unsupported("diags of a vector")
    if shape is None:
        raise Unsupported("diags without a shape")
    m, n = (pt(s) for s in shape)
    for o in offsets:
        # scipy rejects a diagonal of length <= 0
        ln = T.pmin(T.add(m, T.const(min(o, 0))), T.sub(n, T.const(max(o, 0))))
        if not ctx().branch(T.le(T.const(1), ln)):
            raise ValueError("Offset %d (index) out of bounds" % o)

    def fn(idx, comp=0):
        r = T.const(0, "R")
        off = T.sub(idx[1], idx[0])
        for o, v in zip(offsets, vals):
            r = T.ite(T.eq(off, T.const(o)), T.to_real(v), r)
        return r
    return SpMat(SArr([m, n], npdt(dtype) if dtype is not None else F8, fn=fn))


def eye(m, n=None, k=0, dtype=float, format=None):
    return diags([1], [int(k)], shape=(m, m if n is None else n), dtype=dtype)


class _SPP:
    diags = staticmethod(diags)
    eye = staticmethod(eye)
    identity = staticmethod(lambda n, dtype=None, format=None: eye(n))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def f(*a, **kw):
            raise Unsupported("scipy.sparse.%s" % k)
        return f


SPP = _SPP()


def np_eye(N, M=None, k=0, dtype=float, order="C"):
    return diags([1], [int(k)], shape=(N, N if M is None else M)).astype(dtype).toarray()


NPFUNCS = {"tensordot": tensordot, "dot": dot, "matmul": matmul, "einsum": einsum, "argsort": argsort, "sort": sort,
           "eye": np_eye, "identity": lambda n, dtype=float: np_eye(n, dtype=dtype)}
