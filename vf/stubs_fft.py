"""Assumed contract of pyfftw / scipy.fft on abstract Fourier contents.

rfftn(f) is an uninterpreted complex array; irfftn of a linear combination of
such arrays is the same combination of the originals, irfftn of a pointwise
product of two of them is the circular convolution (convolution theorem)."""
from . import term as T
from .sym import Unsupported, Sym, pt, ctx
from .sarr import (SArr, Buffer, full_view, asarr, npdt, decide_eq, uf_content, memo_content, write, assign,
                   broadcast_shapes, F4, F8, C8, C16)

FTS = {}      # uf name -> (shape, getter)


def reset():
    FTS.clear()


def new_ft(shape, getter):
    n = ctx().fresh("fft")
    FTS[n] = (tuple(shape), getter)
    ctx().trusted.add("FFT: irfftn(rfftn(f)) = f, linearity and the circular convolution theorem (pyfftw/FFTW)")
    return n


CONVS = {}


def invert(shape, content):
    """getter of the inverse real transform (normalised) of complex content"""
    c = ctx()
    nd = len(shape)
    sk = tuple(T.var("$f%d" % d, "I") for d in range(nd))
    re, im = content(sk, 0), content(sk, 1)

    def fts_in(p):
        acc = set()
        T.atoms_of_poly(p, acc)
        return {a.data[0][:-3] for a in acc if a.kind == "app" and a.data[0][-3:] in (".re", ".im")}
    names = sorted(fts_in(re) | fts_in(im))

    def part(n, k):
        return T.app(n + (".im" if k else ".re"), sk, "R")

    def aid(n, k):
        return next(iter(part(n, k).terms))[0][0]
    ids = {aid(n, k): (n, k) for n in names for k in (0, 1)}
    terms = []          # (coef Poly, names tuple)
    rest_re, rest_im = re, im
    guard = 0
    while rest_re.terms or rest_im.terms:
        guard += 1
        if guard > 50:
            raise Unsupported("inverse transform of a general spectrum")
        src = rest_re if rest_re.terms else rest_im
        # pick a monomial containing real parts
        pick = None
        for m, k in src.terms.items():
            fa = [(i, e) for i, e in m if i in ids]
            if not fa:
                raise Unsupported("inverse transform of a general spectrum")
            fs = []
            for i, e in fa:
                fs += [ids[i]] * e
            if src is rest_re and all(x[1] == 0 for x in fs):
                pick = (m, k, fs)
                break
        if pick is None:
            raise Unsupported("inverse transform of a general spectrum")
        m, k, fs = pick
        coef = T.mk_poly("R", {tuple(x for x in m if x[0] not in ids): k})
        if any(v in T.poly_vars(coef) for v in {next(iter(s.terms))[0][0] for s in sk}):
            raise Unsupported("spectral multiplier")
        ns = sorted(x[0] for x in fs)
        if len(ns) == 1:
            pr, pi_ = part(ns[0], 0), part(ns[0], 1)
        elif len(ns) == 2:
            a, b = ns
            pr = T.sub(T.mul(part(a, 0), part(b, 0)), T.mul(part(a, 1), part(b, 1)))
            pi_ = T.add(T.mul(part(a, 0), part(b, 1)), T.mul(part(a, 1), part(b, 0)))
        else:
            raise Unsupported("product of three spectra")
        rest_re = T.sub(rest_re, T.mul(coef, pr))
        rest_im = T.sub(rest_im, T.mul(coef, pi_))
        terms.append((coef, tuple(ns)))
    for _, ns in terms:
        for n in ns:
            if n not in FTS:
                raise Unsupported("inverse transform of an unknown spectrum")
            if len(FTS[n][0]) != nd or not all(decide_eq(x, y) for x, y in zip(FTS[n][0], shape)):
                raise Unsupported("inverse transform with a different grid shape")

    def g(idx, comp=0):
        r = T.const(0, "R")
        for coef, ns in terms:
            if len(ns) == 1:
                v = FTS[ns[0]][1](idx)
            else:
                v = T.from_atom(T.mk_atom("opq", "R", ("conv",) + ns + tuple(idx)))
                CONVS[ns] = tuple(shape)
            r = T.add(r, T.mul(coef, T.to_real(v)))
        return r
    return memo_content(g)


def spectrum_shape(shape):
    return tuple(shape[:-1]) + (T.add(T.idiv(shape[-1], T.const(2)), T.const(1)),)


def havoc(arr):
    if arr.buf is not None:
        n = ctx().fresh("havoc_" + arr.buf.name)
        dt = arr.buf.dtype
        f = uf_content(n, dt)
        if arr.whole():
            arr.buf.content = f
        else:
            write(arr, arr_getter_fresh(n, arr))
        arr.buf.writes += 1


def arr_getter_fresh(n, arr):
    return uf_content(n, arr.dtype)


class FFTW:
    def __init__(self, input_array, output_array, axes=(-1,), direction="FFTW_FORWARD", flags=("FFTW_MEASURE",),
                 threads=1, planning_timelimit=None, normalise_idft=True, ortho=False):
        a, b = asarr(input_array), asarr(output_array)
        axes = tuple(int(x) % a.ndim for x in axes)
        if a.ndim != b.ndim:
            raise ValueError("Invalid shapes: dimensions differ")
        if sorted(axes) != list(range(a.ndim)):
            raise Unsupported("transform over a subset of axes")
        if axes[-1] != a.ndim - 1:
            raise Unsupported("transform axis order")
        if direction not in ("FFTW_FORWARD", "FFTW_BACKWARD"):
            raise ValueError("Invalid direction")
        fwd = direction == "FFTW_FORWARD"
        real, spec = (a, b) if fwd else (b, a)
        if (real.dtype, spec.dtype) not in ((F4, C8), (F8, C16)):
            raise ValueError("Invalid scheme: dtypes %s %s" % (a.dtype, b.dtype))
        for x, y in zip(spectrum_shape(real._shape), spec._shape):
            if not decide_eq(x, y):
                raise ValueError("Invalid shapes: The input and output arrays have incompatible shapes")
        self.inp, self.out, self.fwd = a, b, fwd
        self.real_shape, self.spec_shape = real._shape, spec._shape
        self.normalise = normalise_idft
        # planning with FFTW_MEASURE overwrites both arrays
        havoc(a)
        havoc(b)

    @property
    def input_array(self):
        return self.inp

    @property
    def output_array(self):
        return self.out

    def __call__(self, input_array=None, output_array=None, normalise_idft=None, ortho=None):
        a = self.inp if input_array is None else asarr(input_array)
        b = self.out if output_array is None else output_array
        want = self.real_shape if self.fwd else self.spec_shape
        if a.ndim != len(want) or not all(decide_eq(x, y) for x, y in zip(a._shape, want)):
            raise ValueError("Invalid input shape")
        wout = self.spec_shape if self.fwd else self.real_shape
        if not isinstance(b, SArr) or b.ndim != len(wout) or not all(decide_eq(x, y) for x, y in zip(b._shape, wout)):
            raise ValueError("Invalid output shape")
        if b.dtype != self.out.dtype:
            raise ValueError("Invalid output dtype")
        if ortho:
            raise Unsupported("ortho")
        g = a.getter()
        same_in = a.buf is not None and a.buf is self.inp.buf
        if not same_in:
            # pyfftw copies into the planned input array when alignment/dtype/strides differ
            havoc(self.inp)
        if self.fwd:
            n = new_ft(self.real_shape, g)
            write(b, uf_content(n, b.dtype))
        else:
            norm = self.normalise if normalise_idft is None else normalise_idft
            inv = invert(self.real_shape, g)
            if not norm:
                tot = T.const(1, "R")
                for s in self.real_shape:
                    tot = T.mul(tot, T.to_real(s))
                inv0 = inv
                inv = lambda idx, comp=0: T.mul(tot, inv0(idx))
            # multi-dimensional complex-to-real transforms destroy their input
            if a.buf is not None:
                havoc(a)
            write(b, inv)
        return b


class _Builder:
    def __init__(self, kind, a):
        self.kind, self.a = kind, a

    def __call__(self, *a, **k):
        raise Unsupported("pyfftw.builders object call")


class _Builders:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda a, *x, **k: _Builder(n, a)


class _PyFFTW:
    FFTW = FFTW
    builders = _Builders()

    @staticmethod
    def empty_aligned(shape, dtype="float64", order="C", n=None):
        from . import npx
        return npx.new_array(shape, dtype, None, "fftwbuf")

    @staticmethod
    def zeros_aligned(shape, dtype="float64", order="C", n=None):
        from . import npx
        return npx.new_array(shape, dtype, 0, "fftwbuf")

    simd_alignment = 32

    def __getattr__(self, n):
        raise Unsupported("pyfftw." + n)


PYFFTW = _PyFFTW()


def s_rfftn(x, s=None, axes=None, norm=None, overwrite_x=False, workers=None, **kw):
    a = asarr(x)
    if s is not None or axes is not None or norm is not None:
        if axes is not None and sorted(int(q) % a.ndim for q in axes) == list(range(a.ndim)) and \
                int(axes[-1]) % a.ndim == a.ndim - 1 and s is None and norm is None:
            pass
        elif s is not None and axes is None and norm is None and len(s) == a.ndim and all(
                decide_eq(pt(p), q) for p, q in zip(s, a._shape)):
            pass
        else:
            raise Unsupported("rfftn options")
    n = new_ft(a._shape, a.getter())
    dt = C8 if a.dtype == F4 else C16
    return full_view(Buffer(ctx().fresh("spec"), spectrum_shape(a._shape), dt, content=uf_content(n, dt)))


def s_irfftn(x, s=None, axes=None, norm=None, overwrite_x=False, workers=None, **kw):
    a = asarr(x)
    if norm is not None:
        raise Unsupported("irfftn norm")
    if s is None:
        if axes is not None and [int(q) % a.ndim for q in axes] != list(range(a.ndim)):
            raise Unsupported("irfftn axes")
        last = T.scale(T.sub(a._shape[-1], T.const(1)), 2)
        shape = tuple(a._shape[:-1]) + (last,)
    else:
        shape = tuple(pt(q) for q in s)
        if len(shape) != a.ndim:
            raise Unsupported("irfftn s")
        for p, q in zip(spectrum_shape(shape), a._shape):
            if not decide_eq(p, q):
                raise Unsupported("irfftn with cropping/padding")
    dt = F4 if a.dtype == C8 else F8
    inv = invert(shape, a.getter())
    return full_view(Buffer(ctx().fresh("ispec"), shape, dt, content=inv))
