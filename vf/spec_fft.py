"""C19 FFT wrappers, C17 unbounded Poisson solver: contracts over the assumed
contract of the FFT library (vf/stubs_fft.py)."""
import inspect
import sys

from . import special as X
from . import stubs_fft as F
from . import sym as S
from . import term as T
from . import verify as V
from .sarr import SArr, write, C8, C16
from .sym import Unsupported

CONC = "vf.concrete_special"


def cls(name):
    from . import install
    for m in install.sopht_modules():
        v = m.__dict__.get(name)
        if v is not None and getattr(v, "__name__", "") == name:
            return v
    raise Unsupported("%s not found" % name)


def fil(obj):
    return V.source_of(obj)


def sizes_kw(dim, sizes):
    return dict(zip(("grid_size_y", "grid_size_x") if dim == 2 else ("grid_size_z", "grid_size_y", "grid_size_x"),
                    sizes))


def spectrum_of(arr):
    """name of the transform held by a whole complex buffer, or None"""
    nd = arr.ndim
    sk = tuple(T.var("$q%d" % d, "I") for d in range(nd))
    re = arr.getter()(sk, 0)
    acc = set()
    T.atoms_of_poly(re, acc)
    ns = {a.data[0][:-3] for a in acc if a.kind == "app" and a.data[0].endswith(".re")}
    if len(ns) == 1:
        n = ns.pop()
        if arr.getter()(sk, 0) == T.app(n + ".re", sk, "R") and arr.getter()(sk, 1) == T.app(n + ".im", sk, "R"):
            return n
    return None


def is_transform_of(c, name, arr, src, shape):
    """the complex array holds the unnormalised transform of src (getter) over shape"""
    n = spectrum_of(arr)
    if n is None or n not in F.FTS:
        c.oblige("post", "%s: holds the forward transform" % name, T.FALSE)
        return
    sh, g = F.FTS[n]
    for a, b in zip(sh, shape):
        c.oblige("post", "%s: transform over the whole grid" % name, T.eq(a, S.pt(b)))
    X.forall(c, "post", "%s: is the transform of the input" % name, shape, lambda i: T.eq(g(i), src(i)))


def shape_is(c, name, arr, shape):
    if not isinstance(arr, SArr) or arr.ndim != len(shape):
        c.oblige("post", "%s: rank %d array" % (name, len(shape)), T.FALSE)
        return False
    for a, b in zip(arr._shape, shape):
        c.oblige("post", "%s: shape" % name, T.eq(a, S.pt(b)))
    return True


# ------------------------------------------------------------------------ C19
def pyfftw_wrapper(dim, real="f64", threads=1, modular=True):
    name = "FFTPyFFTW%dD" % dim
    K = cls(name)
    cdt = V.DT[real][2]

    def build(c):
        F.reset()
        sz = [S.ivar(n) for n in V.AX[dim]]
        for s in sz:
            c.assume(s >= 1)
        ok, o = X.vacuous_total(c, lambda: K(num_threads=V.nthreads(threads), real_t=X.rt(real), **sizes_kw(dim, sz)),
                                "constructor returns normally")
        if not ok:
            return
        spec = F.spectrum_shape(tuple(s.p for s in sz))
        for q in ("field_pyfftw_buffer",):
            if shape_is(c, q, getattr(o, q, None), sz):
                c.oblige("post", "%s: precision" % q, T.TRUE if getattr(o, q).dtype == V.DT[real][1] else T.FALSE)
        q = "fourier_field_pyfftw_buffer"
        if shape_is(c, q, getattr(o, q, None), spec):
            c.oblige("post", "%s: precision" % q, T.TRUE if getattr(o, q).dtype == cdt else T.FALSE)
        # one plan used repeatedly: every call from arbitrary buffer contents
        for rep in range(2):
            f = X.field("field%d" % rep, sz, real)
            h = X.field("spectrum%d" % rep, spec, real, "complex")
            g = X.field("back%d" % rep, sz, real)
            ok, _ = X.vacuous_total(c, lambda: o.fft_plan(input_array=f, output_array=h), "forward transform")
            if not ok:
                return
            is_transform_of(c, "forward transform (use %d)" % rep, h, f.buf.initial, sz)
            X.unchanged(c, "transformed field", f)
            ok, _ = X.vacuous_total(c, lambda: o.ifft_plan(input_array=h, output_array=g), "backward transform")
            if not ok:
                return
            X.forall(c, "post", "round trip (use %d)" % rep, sz, lambda i: T.eq(g.buf.content(i), f.buf.initial(i)))
            X.unchanged(c, "transformed field", f)
            f2 = X.field("kfield%d" % rep, sz, real)
            h2 = X.field("kspectrum%d" % rep, spec, real, "complex")
            g2 = X.field("kback%d" % rep, sz, real)
            ok, _ = X.vacuous_total(c, lambda: o.fft_ifft_plan_kernel(fourier_field=h2, inv_fourier_field=g2,
                                                                      field=f2), "fft_ifft_plan_kernel")
            if not ok:
                return
            X.forall(c, "post", "fft_ifft_plan_kernel round trip (use %d)" % rep, sz,
                     lambda i: T.eq(g2.buf.content(i), f2.buf.initial(i)))
            X.unchanged(c, "transformed field", f2)
            X.unchanged(c, "first field", f)
            # transforming the plan's own buffers
            a, b = o.field_pyfftw_buffer, o.fourier_field_pyfftw_buffer
            n = c.fresh("own")
            write(a, lambda i, comp=0, n=n: T.app(n, i, "R"))
            ok, _ = X.vacuous_total(c, lambda: o.fft_plan(input_array=a, output_array=b), "forward, own buffers")
            if not ok:
                return
            is_transform_of(c, "forward transform of the plan's buffer (use %d)" % rep, b,
                            lambda i, n=n: T.app(n, i, "R"), sz)
            ok, _ = X.vacuous_total(c, lambda: o.ifft_plan(input_array=b, output_array=a), "backward, own buffers")
            if not ok:
                return
            X.forall(c, "post", "round trip in the plan's buffers (use %d)" % rep, sz,
                     lambda i, n=n: T.eq(a.getter()(i), T.app(n, i, "R")))
    return X.run(name, build, real, "%s, %s threads, any grid" % (real, threads), modular=modular, file=fil(K),
                 replay=dict(type="special", module=CONC, func="fft", dim=dim, real=real, threads=threads,
                             which="pyfftw"))


def scipy_wrapper(dim, real="f64", threads=1, modular=True):
    name = "fft_ifft_via_scipy_kernel_%dd" % dim
    fn = cls(name)

    def build(c):
        F.reset()
        sz = [S.ivar(n) for n in V.AX[dim]]
        for s in sz:
            c.assume(s >= 1)
        f = X.field("field", sz, real)
        h = X.field("fourier_field", F.spectrum_shape(tuple(s.p for s in sz)), real, "complex")
        g = X.field("inv_fourier_field", sz, real)
        ok, _ = X.vacuous_total(c, lambda: fn(fourier_field=h, inv_fourier_field=g, field=f, num_threads=V.nthreads(threads)),
                                "returns normally")
        if not ok:
            return
        is_transform_of(c, "fourier_field", h, f.buf.initial, sz)
        X.forall(c, "post", "round trip", sz, lambda i: T.eq(g.buf.content(i), f.buf.initial(i)))
        X.unchanged(c, "field", f)
    return X.run(name, build, real, "%s, %s threads, any grid" % (real, threads), modular=modular, file=fil(fn),
                 replay=dict(type="special", module=CONC, func="fft", dim=dim, real=real, threads=threads,
                             which="scipy"))


# ------------------------------------------------------------------------ C17
def attr_arrays(o, depth=0):
    """SArr attributes of an object (and of its sub-objects)"""
    out = []
    for k, v in sorted(getattr(o, "__dict__", {}).items()):
        if isinstance(v, SArr):
            if v.buf is None and v.ndim:
                v.materialise()
            if v.buf is None:
                continue
            out.append((k, v))
        elif type(v).__module__.startswith("sopht") and depth < 2:
            out += [(k + "." + a, b) for a, b in attr_arrays(v, depth + 1)]
    return out


def attr_scalars(o):
    return {k: v for k, v in getattr(o, "__dict__", {}).items()
            if isinstance(v, (int, float, str, bool, S.Sym, type(None)))}


def check_convolution(c, tag, dim, sol, rhs, N, dx, greens):
    """sol(i) == dx^dim * sum_j rhs(j) G(i-j) for every i in the grid N"""
    dbl = tuple(T.scale(S.pt(n), 2) for n in N)
    ii, rng = X.idx_vars(N)
    idx = tuple(i.p for i in ii)
    base = list(c.assumps)
    c.assumps = base + [rng]
    try:
        val = sol(idx)
        convs = [a for a in atoms(val) if a.kind == "opq" and a.data[0] == "conv"]
        if len(convs) != 1 or len(convs[0].data) != 3 + dim:
            c.oblige("post", "%s: solution is one convolution" % tag, T.FALSE)
            return
        a = convs[0]
        at = a.data[3:]
        vol = T.power(S.pt(dx), dim)
        c.oblige("post", "%s: cell volume times the convolution at the same cell" % tag,
                 T.eq(val, T.mul(vol, T.from_atom(T.mk_atom("opq", "R", a.data[:3] + idx)))))
        for p, q in zip(at, idx):
            c.oblige("post", "%s: convolution is read at the output cell" % tag, T.eq(p, q))
        names = a.data[1:3]
        for n in names:
            for x, y in zip(F.FTS[n][0], dbl):
                c.oblige("post", "%s: transforms on the doubled domain" % tag, T.eq(x, y))
        # which factor is the right-hand side
        jj, jr = X.idx_vars(N, "j")
        j = tuple(x.p for x in jj)
        order = None
        for o in (names, names[::-1]):
            g = F.FTS[o[0]][1]
            c.assumps = base + [jr]
            if T.eq(g(j), rhs(j)) is T.TRUE or c.implied(T.eq(g(j), rhs(j))):
                order = o
                break
        if order is None:
            c.assumps = base + [jr]
            c.oblige("post", "%s: one factor is the right-hand side on the grid" % tag,
                     T.eq(F.FTS[names[0]][1](j), rhs(j)))
            return
        g, h = F.FTS[order[0]][1], F.FTS[order[1]][1]
        c.assumps = base + [jr]
        c.oblige("post", "%s: right-hand side on the grid" % tag, T.eq(g(j), rhs(j)))
        kk, kr = X.idx_vars(dbl, "k")
        k = tuple(x.p for x in kk)
        outside = T.bor(*[T.le(S.pt(n), x) for x, n in zip(k, N)])
        c.assumps = base + [kr, outside]
        c.oblige("post", "%s: zero padding outside the grid" % tag, T.eq(g(k), T.const(0, "R")))
        # the other factor: Green's function at every offset that can occur; the
        # offset is i - j, read circularly on the doubled domain
        for signs in range(2 ** dim):
            m, fact = [], []
            for d in range(dim):
                off = S.ivar("d%d" % d).p
                n = S.pt(N[d])
                if signs >> d & 1:
                    # i - j = -off, off in 1..n-1; read at 2n - off
                    fact += [T.le(T.const(1), off), T.lt(off, n)]
                    m.append(T.sub(T.scale(n, 2), off))
                else:
                    fact += [T.le(T.const(0), off), T.lt(off, n)]
                    m.append(off)
            offs = [S.ivar("d%d" % d) for d in range(dim)]
            c.assumps = base + fact
            zero = T.band(*[T.eq(x.p, T.const(0)) for x in offs])
            lab = "".join("-" if signs >> d & 1 else "+" for d in range(dim))
            v = h(tuple(m))
            if signs == 0:
                c.assumps = base + fact + [zero]
                c.oblige("post", "%s: regularised Green's function at the origin" % tag,
                         T.eq(h(tuple(T.const(0) for _ in range(dim))), S.pt(greens(None, dx))))
                c.assumps = base + fact + [T.bnot(zero)]
            c.oblige("post", "%s: free-space Green's function, offsets %s" % (tag, lab),
                     T.eq(v, S.pt(greens(offs, dx))))
    finally:
        c.assumps = base


def atoms(p):
    acc = set()
    T.atoms_of_poly(p, acc)
    return acc


def greens2(offs, dx):
    if offs is None:
        # cell average over the disc of equal area
        return -(2 * S.Sym(T.log(S.pt(dx / S.Sym(T.sqrt(T.pi()))))) - 1) / (4 * S.Sym(T.pi()))
    r2 = (dx * offs[0]) ** 2 + (dx * offs[1]) ** 2
    return -S.Sym(T.log(T.sqrt(S.pt(r2)))) / (2 * S.Sym(T.pi()))


def greens3(offs, dx):
    pi = S.Sym(T.pi())
    if offs is None:
        return 1 / (4 * pi * dx)
    r2 = (dx * offs[0]) ** 2 + (dx * offs[1]) ** 2 + (dx * offs[2]) ** 2
    return 1 / (4 * pi * S.Sym(T.sqrt(S.pt(r2))))


def poisson(dim, real="f64", threads=1, vector=False, modular=True, size=None):
    name = "UnboundedPoissonSolverPYFFTW%dD" % dim
    K = cls(name)
    greens = greens2 if dim == 2 else greens3

    def build(c):
        F.reset()
        if size is None and modular:
            N = [S.ivar(n) for n in V.AX[dim]]
            for s in N:
                c.assume(s >= 1)
        else:
            N = [S.Sym(T.const(n)) for n in (size or ((3, 2) if dim == 2 else (2, 3, 2)))]
        L = S.rvar("x_range")
        c.assume(L > 0)
        ok, o = X.vacuous_total(c, lambda: K(x_range=L, num_threads=V.nthreads(threads), real_t=X.rt(real), **sizes_kw(dim, N)),
                                "constructor returns normally")
        if not ok:
            return
        dx = L / N[-1]
        scal0 = attr_scalars(o)
        arrays = attr_arrays(o)
        method = "vector_field_solve" if vector else "solve"
        n = dim if vector else 1

        def one(tag):
            shape = ([S.Sym(T.const(dim))] if vector else []) + N
            rhs, sol = X.field("rhs_" + tag, shape, real), X.field("sol_" + tag, shape, real)
            fn = getattr(o, method)
            kw = dict(solution_vector_field=sol, rhs_vector_field=rhs) if vector else \
                dict(solution_field=sol, rhs_field=rhs)
            ok, _ = X.vacuous_total(c, lambda: fn(**kw), "%s returns normally" % tag)
            if not ok:
                return False
            X.unchanged(c, "%s: right-hand side" % tag, rhs)
            for q in range(n):
                pre = (T.const(q),) if vector else ()
                check_convolution(c, tag + ("[%d]" % q if vector else ""), dim,
                                  lambda i, pre=pre: sol.buf.content(pre + i),
                                  lambda i, pre=pre: rhs.buf.initial(pre + i), N, dx, greens)
            return True
        before = {k: (a.buf, a.buf.writes) for k, a in arrays}
        if not one("first solve"):
            return
        mutable = {id(b): b for k, (b, w) in before.items() if b.writes != w}
        # arbitrary contents of every array a solve writes: the state after any history of solves
        for b in mutable.values():
            from .sarr import uf_content
            b.content = uf_content(c.fresh("hist_" + b.name), b.dtype)
        before = {k: (a.buf, a.buf.writes) for k, a in attr_arrays(o)}
        if not one("solve after any history"):
            return
        for k, (b, w) in before.items():
            if id(b) not in mutable:
                if b.writes != w:
                    raise Unsupported("solver state %s is written by some solves only" % k)
                c.oblige("frame", "solver state %s is not written by a solve" % k, T.TRUE)
        for k, v in attr_scalars(o).items():
            same = k in scal0 and (v is scal0[k] or (not isinstance(v, S.Sym) and v == scal0[k]) or
                                   (isinstance(v, S.Sym) and T.eq(S.pt(v), S.pt(scal0[k])) is T.TRUE))
            if not same:
                raise Unsupported("solver attribute %s changes between solves" % k)
            c.oblige("frame", "solver attribute %s unchanged" % k, T.TRUE)
    return X.run("%s.%s" % (name, "vector_field_solve" if vector else "solve"), build, real,
                 "%s, %s threads, %s" % (real, threads, "any grid" if modular and size is None else "fixed grid"),
                 modular=modular, fallback=False, file=fil(K),
                 replay=dict(type="special", module=CONC, func="poisson", dim=dim, real=real, threads=threads,
                             vector=vector))
