"""Contract framework.

A contract states, for a kernel generator of the library and one variant of
its options, what the generated callable does to its arguments: a closed form
for every cell of every output (partitioned into named regions), the frame
(everything else is unchanged), scratch arguments (unspecified afterwards, and
the result must not depend on their previous contents) and preconditions
(minimum grid size, admissible aliasing).  The same contract object serves to
 (1) generate the proof obligations for the real function,
 (2) stand for the function when a caller is verified (callee stub),
 (3) run the real compiled kernel on concrete data and compare (replay)."""
import numpy as np

from . import term as T

REG = {}          # generator name -> factory(opts) -> Contract | None


class Fld:
    def __init__(self, name, kind="scalar", gen=False):
        self.name, self.kind, self.gen = name, kind, gen


def S(name):
    return Fld(name, "scalar")


def V(name):
    return Fld(name, "vector")


class Contract:
    def __init__(self, gen, dim, opts=None, fields=(), scalars=(), vscalars=(), genscalars=(), outputs=(),
                 havoc=(), spec=None, min_size=1, aliases=(), pre=None, threads=True, fixed=True, gen_args=None,
                 pos_scalars=(), known=None, nan_scratch=False, sample=None, covers=None):
        self.gen, self.dim, self.opts = gen, dim, dict(opts or {})
        self.fields = list(fields)
        self.scalars, self.vscalars, self.genscalars = list(scalars), list(vscalars), list(genscalars)
        self.outputs, self.havoc = list(outputs), list(havoc)
        self.spec = spec              # spec(E) -> {output: fn(c, idx) -> [(piece, cond|None, value)]}
        self.min_size = min_size
        self.aliases = list(aliases)  # list of {field: other field}
        self.pre = pre                # pre(E) -> list of boolean preconditions
        self.threads, self.fixed = threads, fixed
        self.pos_scalars = set(pos_scalars)
        self.known = known
        self.sample = sample
        self.covers = covers

    @property
    def label(self):
        o = ",".join("%s=%s" % kv for kv in sorted(self.opts.items()))
        return self.gen + ("[%s]" % o if o else "")

    def field(self, n):
        for f in self.fields:
            if f.name == n:
                return f
        raise KeyError(n)

    def ncomp(self, n):
        return self.dim if self.field(n).kind == "vector" else (2 if self.field(n).kind == "complex" else 1)


def contract(gen):
    def deco(factory):
        REG[gen] = factory
        return factory
    return deco


def get(gen, opts):
    f = REG.get(gen)
    if f is None:
        return None
    try:
        return f(dict(opts))
    except KeyError:
        return None


# ------------------------------------------------------------ spec environment
class SymEnv:
    """spec environment over symbolic values"""
    symbolic = True

    def __init__(self, dim, sizes, acc, scal):
        from . import sym
        self.dim, self.n, self._acc, self.s = dim, [sym.sym(x) for x in sizes], acc, scal
        self.pi = sym.Sym(T.pi())

    def __getitem__(self, name):
        return self._acc[name]

    def ite(self, c, a, b):
        from . import sym
        return sym.Sym(T.ite(sym.bt(c), T.to_real(sym.pt(a)), T.to_real(sym.pt(b))))

    def iite(self, c, a, b):
        from . import sym
        return sym.Sym(T.ite(sym.bt(c), sym.pt(a), sym.pt(b)))

    def sin(self, x):
        from . import sym
        return sym.Sym(T.sin(sym.pt(x)))

    def all(self, *bs):
        from . import sym
        return sym.SBool(T.band(*[sym.bt(b) for b in bs]))

    def any(self, *bs):
        from . import sym
        return sym.SBool(T.bor(*[sym.bt(b) for b in bs]))

    def no(self, b):
        from . import sym
        return sym.SBool(T.bnot(sym.bt(b)))

    def real(self, x):
        from . import sym
        return sym.Sym(T.to_real(sym.pt(x)))


class NumEnv:
    """spec environment over numpy arrays of indices (vectorised)"""
    symbolic = False

    def __init__(self, dim, sizes, acc, scal):
        self.dim, self.n, self._acc, self.s = dim, list(sizes), acc, scal
        self.pi = np.pi

    def __getitem__(self, name):
        return self._acc[name]

    def ite(self, c, a, b):
        return np.where(c, a, b)

    iite = ite

    def sin(self, x):
        return np.sin(x)

    def all(self, *bs):
        r = bs[0]
        for b in bs[1:]:
            r = np.logical_and(r, b)
        return r

    def any(self, *bs):
        r = bs[0]
        for b in bs[1:]:
            r = np.logical_or(r, b)
        return r

    def no(self, b):
        return np.logical_not(b)

    def real(self, x):
        return x


class NumAcc:
    def __init__(self, arr, kind):
        self.a, self.kind = arr, kind

    def __call__(self, *idx):
        a = self.a
        if self.kind == "vector":
            a = a[idx[0]]
            idx = idx[1:]
        ix = tuple(np.clip(i, 0, n - 1) for i, n in zip(idx, a.shape))
        r = a[ix]
        return r.astype(np.complex128) if r.dtype.kind == "c" else r.astype(np.float64)

    def re(self, *idx):
        return self(*idx).real

    def im(self, *idx):
        return self(*idx).imag


class SymAcc:
    def __init__(self, getter, kind):
        self.g, self.kind = getter, kind

    def _v(self, idx, comp):
        from . import sym
        return sym.Sym(self.g(tuple(sym.pt(i) for i in idx), comp))

    def __call__(self, *idx):
        return self._v(idx, 0)

    def re(self, *idx):
        return self._v(idx, 0)

    def im(self, *idx):
        return self._v(idx, 1)


# ------------------------------------------------------------ spec vocabulary
def sh(idx, dim, axis, k):
    """idx shifted by k along the physical axis (0=x,1=y,2=z)"""
    a = dim - 1 - axis
    return idx[:a] + (idx[a] + k,) + idx[a + 1:]


def inside(E, idx, w):
    return E.all(*([i >= w for i in idx] + [i < n - w for i, n in zip(idx, E.n)]))


def ring_pieces(E, idx, w, inner, outer):
    c = inside(E, idx, w)
    return [("interior", c, inner), ("ring", E.no(c), outer)]
