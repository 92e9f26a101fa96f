"""C13: the Laplacian filter for EVERY order.

The order is a symbolic integer N >= 0.  The specification defines families of
fields P(0), P(1), ... by recursion: P(0) a given field, P(k+1) one pass (the
quarter second difference along each of the family's axes in turn, zero on the
ring) of P(k).  A loop over range(N) carries the invariant "after k passes this
array holds P(k)", established on entry, preserved by one arbitrary iteration
and used after the loop.  Which of the specified families and which of the
arrays take part is found by trying (a wrong guess proves nothing)."""
import sys

from . import contracts as C
from . import loops
from . import special as X
from . import spec_grid as G
from . import sym as S
from . import term as T
from . import verify as V
from .sarr import Buffer, full_view, uf_content
from .sym import Sym, Unsupported

GEN = "gen_laplacian_filter_kernel_3d"


class Family:
    """P(k) for k >= 0; at(k, i) = P(k)(i)"""

    def __init__(self, E, name, start, axes):
        self.E, self.name, self.start, self.axes = E, name, G.memo(start), axes

    def at(self, k, i):
        """k: Poly, i: tuple of Sym"""
        later = S.Sym(T.ite(S.bt(G.inside(self.E, i, 1)),
                            T.app("P_" + self.name, (k,) + tuple(x.p for x in i), "R"), T.const(0)))
        if T.is_const(k) and T.const_val(k) == 0:
            return self.start(*i)
        return S.Sym(T.ite(T.le(k, T.const(0)), T.to_real(S.pt(self.start(*i))), later.p))

    def step(self, k):
        """one pass of P(k): the definition of P(k + 1)"""
        h = G.memo(lambda *i: self.at(k, i))
        for a in self.axes:
            h = G.filt1(self.E, h, a)
        return h


def holds(c, shape, goal):
    """goal(i) follows from the facts for every index i (asked of the solver now)"""
    ii, rng = X.idx_vars(shape, "w")
    n = len(c.assumps)
    c.assumps.append(rng)
    try:
        return c.implied(goal(ii))
    finally:
        del c.assumps[n:]


class Passes:
    """for _ in range(N): the loop rule with the families' invariants"""

    def __init__(self, c, N, fams):
        self.c, self.N, self.fams = c, N, fams

    def __iter__(self):
        return self.run()

    def run(self):
        c, N = self.c, self.N
        if c.implied(T.le(N, T.const(0))):
            return
        if not c.implied(T.le(T.const(1), N)):
            if c.branch(T.le(N, T.const(0))):
                return
        loops._check_locals(sys._getframe(1))
        if getattr(c, "loop_level", 0):
            raise Unsupported("nested symbolic loops")
        saved = [(x, x.content, x.writes) for x in c.buffers]
        nb = len(c.buffers)

        def enter():
            k = T.var(c.fresh("k"), "I")
            st = (len(c.assumps), len(c.path), len(c.obls))
            c.path += [T.le(T.const(0), k), T.lt(k, N)]
            c.loop_level, self.pos = 1, c.pos
            return k, st

        def leave(st, keep):
            if c.pos != self.pos:
                raise Unsupported("branch on symbolic data inside a loop")
            c.loop_level = 0
            if not keep:
                del c.obls[st[2]:]
            del c.assumps[st[0]:]
            del c.path[st[1]:]
            del c.buffers[nb:]

        def reset():
            for x, old, w in saved:
                x.content, x.writes = old, w
        # which arrays does the body write?
        k, st = enter()
        yield Sym(k)
        leave(st, False)
        mod = [(x, old) for x, old, w in saved if x.content is not old]
        reset()
        if any(x.dtype.kind != "f" or len(x.shape) != 3 for x, _ in mod):
            raise Unsupported("array of another kind written in a filter pass")
        for fam in self.fams:
            form = {x: "P" for x, _ in mod}
            starts = {x: (lambda i, old=old: T.eq(old(tuple(q.p for q in i), 0), T.to_real(S.pt(fam.start(*i)))))
                      for x, old in mod}
            base = {x: holds(c, x.shape, starts[x]) for x, _ in mod}

            def content(x, old, k, tag):
                if form[x] == "any":
                    return uf_content("%s~%s" % (x.name, tag), x.dtype)

                def f(idx, comp=0):
                    v = T.to_real(S.pt(fam.at(k, tuple(Sym(i) for i in idx))))
                    return v if base[x] else T.ite(T.le(k, T.const(0)), old(idx, 0), v)
                return f
            while any(v == "P" for v in form.values()):
                tag = c.fresh("any")
                for x, old in mod:
                    x.content = content(x, old, k, tag)
                k, st = enter()
                for x, old in mod:
                    x.content = content(x, old, k, tag)
                yield Sym(k)
                for x, old, w in saved:
                    if x not in form and x.content is not old:
                        raise Unsupported("loop modifies different arrays on different iterations")
                step = fam.step(k)
                goals = {x: (lambda i, x=x: T.eq(x.content(tuple(q.p for q in i), 0), T.to_real(S.pt(step(*i)))))
                         for x, _ in mod if form[x] == "P"}
                bad = [x for x in goals if not holds(c, x.shape, goals[x])]
                if not bad:
                    for x in goals:
                        X.forall(c, "post", "loop invariant: %s holds the passes done so far (%s), preserved" % (
                            x.name, fam.name), x.shape,
                            lambda i, x=x: goals[x](tuple(Sym(q) for q in i)))
                    leave(st, True)
                    for x in goals:
                        if base[x]:
                            X.forall(c, "post", "loop invariant: %s holds zero passes (%s) on entry" % (x.name, fam.name),
                                     x.shape, lambda i, x=x: starts[x](tuple(Sym(q) for q in i)))
                    for x, old in mod:
                        x.content = content(x, old, N, tag + "'")
                    return
                leave(st, False)
                reset()
                for x in bad:
                    form[x] = "any"
        raise Unsupported("no loop invariant of the filter found")


def any_order(ftype="scalar", kind="multiplicative", real="f64", threads=False, fixed=False, modular=True, kinds=None):
    vec = ftype == "vector"

    def build(c):
        n = [S.ivar(x) for x in V.AX[3]]
        for s in n:
            c.assume(s >= 3)
        N = S.ivar("order")
        c.assume(N >= 0)
        E = C.SymEnv(3, [s.p for s in n], {}, {})
        dt = V.DT[real][1]
        shape = tuple(s.p for s in n)
        F = Buffer("vector_field" if vec else "scalar_field", ((T.const(3),) if vec else ()) + shape, dt)
        fl, fb = Buffer("filter_flux_buffer", shape, dt), Buffer("field_buffer", shape, dt)
        fams, want = [], {}
        for q in range(3 if vec else 1):
            f = G.memo(lambda *i, q=q: Sym(F.initial(((T.const(q),) if vec else ()) + tuple(x.p for x in i), 0)))
            t = "%d" % q if vec else ""
            if kind == "multiplicative":
                P = Family(E, "xyz" + t, f, (0, 1, 2))
                fams.append(P)
                want[q] = G.memo(lambda *i, f=f, P=P: f(*i) - P.at(N.p, i))
            else:
                r = f
                for a in range(3):
                    P = Family(E, "xyz"[a] + t, r, (a,))
                    fams.append(P)
                    r = G.memo(lambda *i, r=r, P=P: E.ite(G.inside(E, i, 1), r(*i) - P.at(N.p, i), r(*i)))
                want[q] = r
        c.loop_hook = lambda a, b: Passes(c, b, fams) if T.is_const(a) and T.const_val(a) == 0 and b is N.p else None
        from . import install
        gen = None
        for m in install.sopht_modules():
            gen = m.__dict__.get(GEN) or gen
        if gen is None:
            raise Unsupported("generator %s not found" % GEN)
        kw = {}
        if fixed:
            c.tokens = {}
            kw["fixed_grid_size"] = tuple(n)
        ok, k = X.vacuous_total(c, lambda: gen(
            filter_order=N, filter_flux_buffer=full_view(fl), field_buffer=full_view(fb), real_t=X.rt(real),
            num_threads=V.nthreads(threads), field_type=ftype, filter_type=kind, **kw), "returns normally")
        if not ok:
            return
        for b in (fl, fb):      # anything may happen to scratch memory between creation and use
            b.content = b.initial = uf_content(b.name + "'use", b.dtype)
            b.writes = 0
        before = V.snapshot(k)
        ok, _ = X.vacuous_total(c, lambda: k(**{F.name: full_view(F)}), "the kernel returns normally")
        if not ok:
            return
        if V.snapshot(k) != before:
            raise Unsupported("the filter keeps state between calls")
        zero = c.implied(T.le(N.p, T.const(0)))
        for q in want:
            pre = (T.const(q),) if vec else ()

            def goal(i, region, q=q, pre=pre):
                ii = tuple(Sym(x) for x in i)
                init = F.initial(pre + i, 0)
                g = init if zero else T.to_real(S.pt(E.ite(G.inside(E, ii, 1), want[q](*ii), Sym(init))))
                return T.eq(F.content(pre + i, 0), g)
            X.forall(c, "post", "%s%s = field minus the passes of the given order" % (F.name, "[%d]" % q if vec else ""),
                     shape, lambda i, q=q: goal(i, None, q, ((T.const(q),) if vec else ())))
    cfg = "%s, %s threads, any %sgrid, any order, %s, %s" % (real, threads or 1, "fixed " if fixed else "", ftype, kind)
    return X.run("%s[any order]" % GEN, build, real, cfg, kinds, modular=modular,
                 file="sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py",
                 defined=True, replay=dict(type="special", module="vf.concrete_filter", func="orders", ftype=ftype, kind=kind,
                             real=real, threads=threads, fixed=fixed))
