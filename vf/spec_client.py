"""Client programs (vf/identities.py) proved over the kernels' contracts: every
grid, every field, every scalar."""
from . import contracts as C
from . import identities as ID
from . import special as X
from . import sym as S
from . import term as T
from . import verify as V
from .sarr import Buffer, full_view
from .sym import Unsupported


class Handle:
    def __init__(self, arr, kind):
        self.arr, self.kind = arr, kind
        self._init = V.buf_acc(arr.buf, kind)

    def __call__(self, *i):
        return self._init(*i)

    @property
    def now(self):
        return V.getter_acc(self.arr, self.kind)


class World:
    def __init__(self, c, dim, real, threads, least):
        self.c, self.dim, self.real, self.threads = c, dim, real, threads
        self.n = [S.ivar(x) for x in V.AX[dim]]
        for s in self.n:
            c.assume(s >= least)
        self.E = C.SymEnv(dim, [s.p for s in self.n], {}, {})
        self.pi, self.sin, self.all, self.any, self.ite = self.E.pi, self.E.sin, self.E.all, self.E.any, self.E.ite
        self.no = self.E.no
        self.dead = False

    def field(self, name, vec=False, data=None, sample=None):
        b = Buffer(name, ((self.dim,) if vec else ()) + tuple(s.p for s in self.n), V.DT[self.real][1])
        if data is not None:
            def content(idx, comp=0):
                if not vec:
                    return T.to_real(S.pt(data(0, tuple(S.Sym(i) for i in idx))))
                k, rest = idx[0], tuple(S.Sym(i) for i in idx[1:])
                if T.is_const(k):
                    return T.to_real(S.pt(data(int(T.const_val(k)), rest)))
                r = None
                for q in reversed(range(self.dim)):
                    v = T.to_real(S.pt(data(q, rest)))
                    r = v if r is None else T.ite(T.eq(k, T.const(q)), v, r)
                return r
            b.content = b.initial = content
        return Handle(full_view(b), "vector" if vec else "scalar")

    def scalar(self, name, positive=False, nonneg=False):
        v = S.rvar(name)
        if nonneg:
            self.c.assume(v >= 0)
        if positive:
            self.c.assume(v > 0)
        return v

    def gen(self, name, **opts):
        f = None
        from . import install
        for m in install.sopht_modules():
            f = m.__dict__.get(name) or f
        if f is None:
            raise Unsupported("generator %s not found" % name)
        import inspect
        sig = f.sig if isinstance(f, V.Stub) else inspect.signature(f)
        if "num_threads" in sig.parameters:
            opts["num_threads"] = V.nthreads(self.threads)
        ok, k = X.vacuous_total(self.c, lambda: f(real_t=X.rt(self.real), **opts), "%s returns normally" % name)
        if not ok:
            raise Stop()

        def call(**kw):
            for a, v in kw.items():
                if hasattr(v, "dtype") and isinstance(v, (list, tuple)):
                    kw[a] = list(v)
            if not isinstance(f, V.Stub):
                self.earlier(k, kw)
            ok, _ = X.vacuous_total(self.c, lambda: k(**kw), "the kernel of %s returns normally" % name)
            if not ok:
                raise Stop()
        return call

    def earlier(self, k, kw):
        """an earlier use of the same kernel on the same arrays with arbitrary
        other contents: what it leaves behind must not show in the next use"""
        from .sarr import SArr
        bufs = {id(v.arr.buf if isinstance(v, Handle) else v.buf): (v.arr.buf if isinstance(v, Handle) else v.buf)
                for v in kw.values() if isinstance(v, (Handle, SArr))}.values()
        keep = [(b, b.content, b.initial, b.writes, getattr(b, "stack", None), getattr(b, "fourier", None))
                for b in bufs]
        self.uses = getattr(self, "uses", 0) + 1
        for b in bufs:
            b.content = b.initial = V.uf_content("%s'e%d" % (b.name, self.uses), b.dtype)
            b.writes, b.stack, b.fourier = 0, None, None
        n, d = len(self.c.obls), dict(self.c.divisors)
        try:
            k(**kw)
        finally:
            del self.c.obls[n:]
            self.c.divisors.clear()
            self.c.divisors.update(d)
            for b, b.content, b.initial, b.writes, b.stack, b.fourier in keep:
                pass

    def le(self, a, b):
        return S.SBool(T.le(T.to_real(S.pt(a)), T.to_real(S.pt(b))))

    def eq(self, a, b):
        return S.SBool(T.eq(T.to_real(S.pt(a)), T.to_real(S.pt(b))))

    def _where(self, i, margin, ring, given):
        w = margin if ring is None else ring
        cond = T.band(*[T.band(S.bt(x >= w), S.bt(x < n - w)) for x, n in zip(i, self.n)])
        if ring is not None:
            cond = T.bnot(cond)
        if given is not None:
            cond = T.band(cond, S.bt(given(*i)))
        return cond

    def _claim(self, name, margin, ring, given, goal):
        c = self.c
        i, rng = X.idx_vars(self.n)
        old = list(c.assumps)
        c.assumps = old + [rng, self._where(i, margin, ring, given)]
        try:
            c.oblige("post", name, goal(*i))
        finally:
            c.assumps = old

    def equal(self, name, margin, lhs, rhs, ring=None, given=None):
        self._claim(name, margin, ring, given,
                    lambda *i: T.eq(T.to_real(S.pt(lhs(*i))), T.to_real(S.pt(rhs(*i)))))

    def kept(self, name, h):
        X.unchanged(self.c, name, h.arr)

    def holds(self, name, margin, pred, ring=None, given=None):
        self._claim(name, margin, ring, given, lambda *i: S.bt(pred(*i)))


class Stop(Exception):
    pass


LEAST = {"advection": 5, "brinkmann": 1, "heaviside": 1}


def identity(name, dim=3, real="f64", threads=False, modular=True, **kw):
    least = [v for k, v in LEAST.items() if name.startswith(k)] or [3]

    def build(c):
        W = World(c, dim, real, threads, least[0])
        try:
            getattr(ID, name)(W, **kw)
        except Stop:
            pass
    cfg = "%s, %s threads, %dD%s" % (real, threads or 1, dim, "".join(", %s=%s" % x for x in sorted(kw.items())))
    return X.run("client %s" % name, build, real, cfg, modular=modular, file="/verif/vf/identities.py",
                 replay=dict(type="special", module="vf.concrete_client", func="identity", name=name, dim=dim,
                             real=real, threads=threads, least=least[0], kw=kw))
