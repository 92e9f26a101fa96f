"""C08: the boundary setters for EVERY width w >= 1 (a symbolic integer) and
every grid at least as wide."""
from . import contracts as C
from . import special as X
from . import spec_grid as G
from . import sym as S
from . import term as T
from . import verify as V
from .sarr import Buffer, full_view
from .sym import Sym, Unsupported


def find(name):
    from . import install
    gen = None
    for m in install.sopht_modules():
        gen = m.__dict__.get(name) or gen
    if gen is None:
        raise Unsupported("generator %s not found" % name)
    return gen


def any_width(dim=2, ftype="scalar", real="f64", threads=False, modular=True, kinds=None):
    vec = ftype == "vector"
    name = "gen_set_fixed_val_at_boundaries_pyst_kernel_%dd" % dim

    def build(c):
        w = S.ivar("width")
        c.assume(w >= 1)
        n = [S.ivar(x) for x in V.AX[dim]]
        for s in n:
            c.assume(s >= w)
        E = C.SymEnv(dim, [s.p for s in n], {}, {})
        shape = ((T.const(dim),) if vec else ()) + tuple(s.p for s in n)
        F = Buffer("vector_field" if vec else "field", shape, V.DT[real][1])
        gen = find(name)
        if isinstance(gen, V.Stub):
            gen = gen.fn        # the width is no constant: verified against the body
        ok, k = X.vacuous_total(c, lambda: gen(real_t=X.rt(real), width=w, num_threads=V.nthreads(threads), field_type=ftype),
                                "returns normally")
        if not ok:
            return
        before = V.snapshot(k)
        val = [S.rvar("value%d" % q) for q in range(dim)] if vec else [S.rvar("value")]
        ok, _ = X.vacuous_total(c, lambda: k(**{F.name: full_view(F), "fixed_vals" if vec else "fixed_val":
                                               list(val) if vec else val[0]}), "the kernel returns normally")
        if not ok:
            return
        if V.snapshot(k) != before:
            raise Unsupported("the kernel keeps state between calls")
        for q in range(dim if vec else 1):
            pre = (T.const(q),) if vec else ()

            def goal(i, q=q, pre=pre):
                ii = tuple(Sym(x) for x in i)
                inner = S.bt(G.inside(E, ii, w))
                return T.eq(F.content(pre + i, 0), T.ite(inner, F.initial(pre + i, 0), T.to_real(val[q].p)))
            X.forall(c, "post", "%s%s: the value on the ring of the given width, unchanged inside" % (
                F.name, "[%d]" % q if vec else ""), [s.p for s in n], goal)
    cfg = "%s, %s threads, any grid, any width, %s" % (real, threads or 1, ftype)
    return X.run(name + "[any width]", build, real, cfg, kinds, modular=modular,
                 file="sopht/numeric/eulerian_grid_ops/stencil_ops_%dd/elementwise_ops_%dd.py" % (dim, dim),
                 defined=True, replay=dict(type="special", module="vf.concrete_width", func="widths", dim=dim, ftype=ftype,
                             real=real, threads=threads))


def any_zone(dim=2, ftype=None, real="f64", threads=False, fixed=False, modular=True, kinds=None):
    """the boundary penalisation for every width of the zone"""
    vec = ftype == "vector"
    name = "gen_penalise_field_boundary_pyst_kernel_%dd" % dim
    grids = [ax + "_grid_field" for ax in "xyz"[:dim]]
    nm = "vector_field" if vec else "field"

    def build(c):
        w, dx = S.ivar("width"), S.rvar("dx")
        c.assume(w >= 1)
        c.assume(dx > 0)
        n = [S.ivar(x) for x in V.AX[dim]]
        for s in n:
            c.assume(s >= w + w)
        sh = tuple(s.p for s in n)
        rdt = V.DT[real][1]
        F = Buffer(nm, ((T.const(dim),) if vec else ()) + sh, rdt)
        M = {g: Buffer(g, sh, rdt) for g in grids}
        acc = {g: V.buf_acc(M[g], "scalar") for g in grids}
        acc[nm] = V.buf_acc(F, "vector" if vec else "scalar")
        E = C.SymEnv(dim, sh, acc, {"dx": dx})
        gen = find(name)
        if isinstance(gen, V.Stub):
            gen = gen.fn
        kw = {g: full_view(b) for g, b in M.items()}
        if ftype is not None:
            kw["field_type"] = ftype
        if fixed:
            c.tokens = {}
            kw["fixed_grid_size"] = tuple(n)
        ok, k = X.vacuous_total(c, lambda: gen(width=w, dx=dx, real_t=X.rt(real), num_threads=V.nthreads(threads), **kw),
                                "returns normally")
        if not ok:
            return
        before = V.snapshot(k)
        ok, _ = X.vacuous_total(c, lambda: k(**{nm: full_view(F)}), "the kernel returns normally")
        if not ok:
            return
        if V.snapshot(k) != before:
            raise Unsupported("the kernel keeps state between calls")
        f = G.zone_spec(dim, nm, vec, grids, w)(E)[nm]
        for q in range(dim if vec else 1):
            pre = (T.const(q),) if vec else ()
            for part in range(2):
                ii, rng = X.idx_vars(sh)
                c.in_spec = True
                tag, cond, val = f(q, ii)[part]
                c.in_spec = False
                old = list(c.assumps)
                c.assumps = old + [rng, S.bt(cond)]
                c.oblige("post", "%s%s: %s" % (nm, "[%d]" % q if vec else "", tag),
                         T.eq(F.content(pre + tuple(i.p for i in ii), 0), T.to_real(S.pt(val))))
                c.assumps = old
        for g, b in M.items():
            X.forall(c, "frame", "%s unchanged" % g, sh, lambda i, b=b: T.eq(b.content(i, 0), b.initial(i, 0)))
    cfg = "%s, %s threads, any %sgrid, any width%s" % (real, threads or 1, "fixed " if fixed else "", ", " + ftype if ftype else "")
    return X.run(name + "[any width]", build, real, cfg, kinds, modular=modular,
                 file="sopht/numeric/eulerian_grid_ops/stencil_ops_%dd/penalise_field_boundary_%dd.py" % (dim, dim),
                 defined=True, replay=dict(type="special", module="vf.concrete_width", func="zones", dim=dim, ftype=ftype,
                                           real=real, threads=threads, fixed=fixed))
