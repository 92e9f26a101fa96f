"""C20-C24 immersed boundary: contracts of the grid communicators and of the
two Lagrangian forcing classes."""
import contextlib
import inspect

from . import special as X
from . import sym as S
from . import term as T
from . import verify as V
from .sarr import Buffer, SArr, full_view, write, I8
from .spec_fft import attr_arrays, attr_scalars, cls, fil
from .sym import Unsupported

CONC = "vf.concrete_ib"
LET = "xyz"


def replay(func, **kw):
    return dict(type="special", module=CONC, func=func, **kw)


def ints(name, shape, content=None):
    b = Buffer(name, tuple(S.pt(s) for s in shape), I8, content=content)
    return full_view(b)


def gen(name, dim):
    return cls("generate_%s_kernel_%dd" % (name, dim))


def params(c, n_pos=True):
    dx, sh, n = S.rvar("dx"), S.rvar("shift"), S.ivar("n")
    c.assume(dx > 0)
    c.assume(n >= 0)
    return dx, sh, n


def off_of(dim, axis, idx, w):
    """node offset along axis (0=x) at window index idx (last window index is x)"""
    return T.sub(idx[dim - 1 - axis], T.const(w - 1))


def near_spec(pos, dx, sh, axis, i):
    """the cell whose left node is the last node not beyond the marker"""
    return T.floor(T.div(T.sub(pos((T.const(axis), i)), sh.p), dx.p))


def support_spec(pos, near, dx, sh, dim, w, axis, idx, i):
    return T.sub(T.add(T.mul(T.to_real(T.add(near((T.const(axis), i)), off_of(dim, axis, idx, w))), dx.p), sh.p),
                 pos((T.const(axis), i)))


# ------------------------------------------------------------------------ C20
def support(dim, width=2, real="f64", kind="cosine"):
    name = "local_eulerian_grid_support_of_lagrangian_grid"

    def build(c):
        dx, sh, n = params(c)
        g = gen(name, dim)
        ok, k = X.vacuous_total(c, lambda: g(dx=dx, eul_grid_coord_shift=sh, num_lag_nodes=n,
                                             interp_kernel_width=width), "generator returns normally")
        if not ok:
            return
        near = ints("nearest", (dim, n))
        sup = X.field("support", (dim,) + (2 * width,) * dim + (n,), real)
        pos = X.field("positions", (dim, n), real)
        ok, _ = X.vacuous_total(c, lambda: k(local_eul_grid_support_of_lag_grid=sup,
                                             nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos),
                                "kernel returns normally")
        if not ok:
            return
        P = pos.buf.initial
        for d in range(dim):
            X.forall(c, "post", "nearest index along %s" % LET[d], (n,),
                     lambda i: T.eq(near.buf.content((T.const(d),) + i), near_spec(P, dx, sh, d, i[0])))

            def cell(i):
                N = T.to_real(near.buf.content((T.const(d),) + i))
                p = T.sub(P((T.const(d),) + i), sh.p)
                return T.band(T.le(T.mul(N, dx.p), p), T.lt(p, T.mul(T.add(N, T.const(1)), dx.p)))
            X.forall(c, "post", "node N not beyond the marker, node N+1 beyond it, along %s" % LET[d], (n,), cell)
            X.forall(c, "post", "signed distances along %s" % LET[d], (2 * width,) * dim + (n,),
                     lambda i: T.eq(sup.buf.content((T.const(d),) + i),
                                    support_spec(P, lambda q: near_spec(P, dx, sh, d, q[1]), dx, sh, dim, width, d,
                                                 i[:-1], i[-1])))
        X.unchanged(c, "lag_positions", pos)
    return X.run("%s_kernel_%dd" % (name, dim), build, real, "%s, width %d, any number of markers" % (real, width),
                 modular=False, file=fil(gen(name, dim)), defined=True, replay=replay("support", dim=dim, width=width, real=real))


# ------------------------------------------------------------------------ C21
def phi(kind, r):
    """one-dimensional delta function, r in cells, |r| <= 2"""
    if kind == "cosine":
        return T.scale(T.add(T.const(1, "R"), T.cos(T.scale(T.mul(T.pi(), r), T.Fr(1, 2)))), T.Fr(1, 4))
    a = T.pabs(r)
    a2 = T.mul(a, a)
    c1 = T.add(T.sub(T.const(3, "R"), T.scale(a, 2)),
               T.sqrt(T.sub(T.add(T.const(1, "R"), T.scale(a, 4)), T.scale(a2, 4))))
    c2 = T.sub(T.sub(T.const(5, "R"), T.scale(a, 2)),
               T.sqrt(T.sub(T.add(T.const(-7, "R"), T.scale(a, 12)), T.scale(a2, 4))))
    return T.scale(T.ite(T.lt(a, T.const(1)), c1, T.ite(T.lt(a, T.const(2)), c2, T.const(0, "R"))), T.Fr(1, 8))


def peskin_regions(r, dx):
    """(facts, consequences, label): the pieces of the Peskin function"""
    a, na = r, T.neg(r)
    out = []
    for x, lab in ((a, "+"), (na, "-")):
        z = T.le(T.const(0), x) if lab == "+" else T.lt(T.const(0), x)
        zd = (T.le if lab == "+" else T.lt)(T.const(0), T.mul(x, dx))
        x2 = T.scale(T.mul(x, x), 4)
        r1 = T.sub(T.add(T.const(1, "R"), T.scale(x, 4)), x2)
        r2 = T.sub(T.add(T.const(-7, "R"), T.scale(x, 12)), x2)
        out += [([z, T.lt(x, T.const(1))], [zd, T.le(T.const(0), r1)], lab + "in"),
                ([T.le(T.const(1), x), T.lt(x, T.const(2))], [zd, T.le(T.const(0), r2)], lab + "out"),
                ([T.eq(x, T.const(2))], [zd, T.le(T.const(0), r2)], lab + "end")]
    return out


def prod(xs):
    r = T.const(1, "R")
    for x in xs:
        r = T.mul(r, x)
    return r


def weights(dim, kind, real="f64"):
    name = "%s_interpolation_weights" % kind
    width = 2

    def build(c):
        dx, sh, n = params(c)
        g = gen(name, dim)
        ok, k = X.vacuous_total(c, lambda: g(dx=dx, interp_kernel_width=width, real_t=X.rt(real)),
                                "generator returns normally")
        if not ok:
            return
        W = X.field("weights", (4,) * dim + (n,), real)
        # precondition: distances r * dx with |r| <= 2
        b = Buffer("support", (dim,) + tuple(T.const(4) for _ in range(dim)) + (n.p,), V.DT[real][1],
                   content=lambda idx, comp=0: T.mul(T.app("r", idx, "R"), dx.p))
        sup = full_view(b)
        ok, _ = X.vacuous_total(c, lambda: k(interp_weights=W, local_eul_grid_support_of_lag_grid=sup),
                                "kernel returns normally")
        if not ok:
            return
        sk = tuple(S.ivar("i%d" % d).p for d in range(dim + 1))
        rs = [T.app("r", (T.const(d),) + sk, "R") for d in range(dim)]

        def goal(i):
            return T.eq(X.resolve(c, W.buf.content(i)), X.resolve(c, prod([T.div(phi(kind, r), dx.p) for r in rs])))
        nm = "tensor product of the delta function over the cell volume"
        if kind == "cosine":
            pre = [f for r in rs for f in (T.le(T.const(-2), r), T.le(r, T.const(2)))]
            X.forall(c, "post", nm, (4,) * dim + (n,), goal, extra=pre)
        else:
            q = T.var("r", "R")
            regs = peskin_regions(q, dx.p)
            c.oblige("lemma", "the regions cover the support", T.implies(
                T.band(T.le(T.const(-2), q), T.le(q, T.const(2))), T.bor(*[T.band(*f) for f, _, _ in regs])))
            for f, l, _ in regs:
                for g1 in l:
                    X.forall(c, "lemma", "sign of the distance and of the radicand", (), lambda i: g1, extra=f)
            import itertools
            for ks in itertools.product(range(len(regs)), repeat=dim):
                pre = []
                for r, kk in zip(rs, ks):
                    f, l, _ = peskin_regions(r, dx.p)[kk]
                    pre += f + l
                X.forall(c, "post", nm + ", " + " ".join(regs[kk][2] for kk in ks), (4,) * dim + (n,), goal, extra=pre)
        for w in (1, 3):
            X.rejects(c, lambda: g(dx=dx, interp_kernel_width=w, real_t=X.rt(real)), "width %d" % w)
    return X.run("%s_kernel_%dd" % (name, dim), build, real, "%s, any number of markers" % real, modular=False,
                 file=fil(gen(name, dim)), replay=replay("weights", dim=dim, kind=kind, real=real))


def delta_lemma(kind):
    """the one-dimensional kernel on the four surrounding nodes"""
    def build(c):
        th = S.rvar("theta")        # marker position in its cell
        c.assume(th >= 0)
        c.assume(th < 1)
        ws = [phi(kind, T.sub(T.const(k, "R"), th.p)) for k in (-1, 0, 1, 2)]
        tot = T.const(0, "R")
        mom = T.const(0, "R")
        for k, w in zip((-1, 0, 1, 2), ws):
            c.oblige("lemma", "weight at node %+d is non-negative" % k, T.le(T.const(0), w))
            tot = T.add(tot, w)
            mom = T.add(mom, T.mul(T.sub(T.const(k, "R"), th.p), w))
        c.oblige("lemma", "weights sum to one", T.eq(tot, T.const(1)))
        if kind == "peskin":
            c.oblige("lemma", "zero first moment", T.eq(mom, T.const(0)))
        for dim in (2, 3):
            v = [[T.var("p%d_%d" % (d, k), "R") for k in range(4)] for d in range(dim)]
            lhs = T.const(0, "R")
            import itertools
            for ks in itertools.product(range(4), repeat=dim):
                lhs = T.add(lhs, prod([v[d][k] for d, k in enumerate(ks)]))
            rhs = T.const(1, "R")
            for d in range(dim):
                s = T.const(0, "R")
                for k in range(4):
                    s = T.add(s, v[d][k])
                rhs = T.mul(rhs, s)
            c.oblige("lemma", "sum of the tensor product is the product of the sums (%dD)" % dim, T.eq(lhs, rhs))
    return X.run("delta function %s" % kind, build, "f64", "any marker position", modular=False)


def communicator(dim, kind, real="f64", ncomp=1):
    """the class wires the kernels; the weights at the marker's own support are
    the delta function at (node - marker), |.| within the support"""
    name = "EulerianLagrangianGridCommunicator%dD" % dim

    def build(c):
        dx, sh, n = params(c)
        K = cls(name)
        kw = dict(dx=dx, eul_grid_coord_shift=sh, num_lag_nodes=n, interp_kernel_width=2, real_t=X.rt(real),
                  n_components=ncomp)
        ok, o = X.vacuous_total(c, lambda: K(interp_kernel_type=kind, **kw) if kind != "default" else K(**kw),
                                "constructor returns normally")
        if not ok:
            return
        kd = "cosine" if kind == "default" else kind
        near = ints("nearest", (dim, n))
        sup = X.field("support", (dim,) + (4,) * dim + (n,), real)
        # every position is shift + dx * (integer + fraction), fraction in [0, 1)
        pos = full_view(Buffer("positions", (T.const(dim), n.p), V.DT[real][1], content=lambda idx, comp=0: T.add(
            sh.p, T.mul(dx.p, T.add(T.to_real(T.app("m", idx, "I")), T.app("theta", idx, "R"))))))
        W = X.field("weights", (4,) * dim + (n,), real)

        def go():
            o.local_eulerian_grid_support_of_lagrangian_grid_kernel(
                local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos)
            o.interpolation_weights_kernel(interp_weights=W, local_eul_grid_support_of_lag_grid=sup)
        ok, _ = X.vacuous_total(c, go, "kernels return normally")
        if not ok:
            return
        i = S.ivar("i").p
        base = list(c.assumps)
        fac = [T.le(T.const(0), i), T.lt(i, n.p)]
        th = [T.app("theta", (T.const(d), i), "R") for d in range(dim)]
        for r in th:
            fac += [T.le(T.const(0), r), T.lt(r, T.const(1))]
        c.assumps = base + fac
        for d in range(dim):
            c.oblige("post", "nearest index along %s" % LET[d],
                     T.eq(X.resolve(c, near.buf.content((T.const(d), i))), T.app("m", (T.const(d), i), "I")))
        import itertools
        c.assumps = base + fac
        ex = []
        if kd == "peskin":
            for d in range(dim):
                ex.append(T.le(T.const(0), T.add(T.const(1, "R"), T.scale(T.mul(th[d], T.sub(T.const(1), th[d])), 4))))
                for k in (-1, 0, 1, 2):
                    r = T.mul(T.sub(T.const(k, "R"), th[d]), dx.p)
                    ex.append(T.lt(T.const(0), r) if k > 0 else T.lt(r, T.const(0)) if k < 0 else T.le(r, T.const(0)))
            for f in ex:
                c.oblige("lemma", "sign of a distance or radicand", f)
        c.assumps = base + fac + ex
        for ks in itertools.product(range(4), repeat=dim):
            idx = tuple(T.const(k) for k in ks) + (i,)
            want = [T.div(phi(kd, T.sub(T.const(ks[dim - 1 - d] - 1, "R"), th[d])), dx.p) for d in range(dim)]
            c.oblige("post", "weight at window cell %s" % (ks,),
                     T.eq(X.resolve(c, W.buf.content(idx)), X.resolve(c, prod(want))))
        c.assumps = base
        X.unchanged(c, "lag_positions", pos)
        for bad in ("gaussian", "Cosine", None):
            X.rejects(c, lambda: K(interp_kernel_type=bad, **kw), "kernel type %r" % bad)
    return X.run("%s weights" % name, build, real, "%s, %s, any number of markers" % (real, kind), modular=False,
                 file=fil(cls(name)), replay=replay("communicator", dim=dim, kind=kind, real=real, ncomp=ncomp))


# ------------------------------------------------------------------------ C22
def inside(name, dim, N, w):
    """precondition: the window of every marker lies inside the grid (N in
    z,y,x order); name(axis, marker) is the nearest index"""
    def facts(atom, args):
        if not T.is_const(args[0]):
            return []
        v = T.from_atom(atom)
        a = int(T.const_val(args[0]))
        return [T.le(T.const(w - 1), v), T.lt(T.add(v, T.const(w)), S.pt(N[dim - 1 - a]))]
    T.APP_FACTS[name] = facts


def nearest_inside(c, dim, n, N, w):
    name = "nearest.%d.%d" % (dim, w)
    inside(name, dim, N, w)
    return ints(name, (dim, n))


def markers(c, dim, n, N, w, dx, sh, real):
    """marker positions shift + dx * (m + theta), theta in [0, 1) (every real
    number is one), with the window of every marker inside the grid"""
    m, th = "m.%d.%d" % (dim, w), "theta"
    inside(m, dim, N, w)
    T.FRACTIONS.add(th)
    T.APP_FACTS[th] = lambda atom, args: [T.le(T.const(0), T.from_atom(atom)), T.lt(T.from_atom(atom), T.const(1))]
    return full_view(Buffer("positions", (T.const(dim), n.p), V.DT[real][1], content=lambda idx, comp=0: T.add(
        sh, T.mul(dx, T.add(T.to_real(T.app(m, idx, "I")), T.app(th, idx, "R")))))), m, th


def window_origin(near, dim, w, i):
    """first node of the window, z,y,x order"""
    return [T.sub(near((T.const(dim - 1 - k), i)), T.const(w - 1)) for k in range(dim)]


def interp_spec(u, W, near, dx, dim, w, i):
    import itertools
    o = window_origin(near, dim, w, i)
    s = T.const(0, "R")
    for ks in itertools.product(range(2 * w), repeat=dim):
        s = T.add(s, T.mul(u(tuple(T.add(a, T.const(k)) for a, k in zip(o, ks))),
                           W(tuple(T.const(k) for k in ks) + (i,))))
    return T.mul(s, T.power(dx, dim))


def spread_spec(val, W, near, dim, w, cell, n, level=0):
    """sum over the markers of value times weight, where the cell is in the window"""
    b = T.bound_var(level)
    o = window_origin(near, dim, w, b)
    rel = [T.sub(x, a) for x, a in zip(cell, o)]
    inw = T.band(*[T.band(T.le(T.const(0), r), T.lt(r, T.const(2 * w))) for r in rel])
    return b, T.ite(inw, T.mul(val(b), W(tuple(rel) + (b,))), T.const(0, "R"))


def sum_eq(c, kind, name, lhs, n, b, body, rest, facts=()):
    """obligation(s): lhs == rest + Sum_{b<n} body.  Sums in lhs over the same
    range are compared term by term (sufficient)."""
    d = T.sub(lhs, rest)
    acc = T.neg(body)
    other = T.const(0, "R")
    bid = next(iter(b.terms))[0][0]
    for m, k in d.terms.items():
        sums = [(i, e) for i, e in m if T._atom_list[i].kind == "sum"]
        coef = T.mk_poly("R", {tuple(x for x in m if x not in sums): k})
        if not sums:
            other = T.add(other, coef)
            continue
        at = T._atom_list[sums[0][0]]
        if len(sums) > 1 or sums[0][1] != 1 or T.eq(at.data[0], n) is not T.TRUE or at.data[1] is not b \
                or bid in T.poly_vars(coef):
            c.oblige(kind, name, T.eq(lhs, T.add(rest, T.fsum(n, body, int(str(T._atom_list[bid].data)[2:])))))
            return
        acc = T.add(acc, T.mul(coef, at.data[2]))
    base = list(c.assumps)
    c.assumps = base + list(facts)
    try:
        c.oblige(kind, name + " (outside the sum)", T.eq(other, T.const(0)))
        at = None
        for m in body.terms:
            for i, e in m:
                if T._atom_list[i].kind == "ite":
                    at = T._atom_list[i].data[0]
        rng = [T.le(T.const(0), b), T.lt(b, n)]
        for cond, nm in ([(T.TRUE, "term of each marker")] if at is None else [
                (at, "marker whose window has the cell"), (T.bnot(at), "marker whose window does not")]):
            c.assumps = base + list(facts) + rng + [cond]
            c.oblige(kind, "%s (%s)" % (name, nm), T.eq(X.resolve(c, acc), T.const(0)))
    finally:
        c.assumps = base


def grid_vars(c, dim, w):
    N = [S.ivar(a) for a in V.AX[dim]]
    for s in N:
        c.assume(s >= 2 * w)
    return N


def interpolation(dim, ncomp=1, width=2, real="f64"):
    name = "eulerian_to_lagrangian_grid_interpolation"

    def build(c):
        dx, sh, n = params(c)
        N = grid_vars(c, dim, width)
        g = gen(name, dim)
        ok, k = X.vacuous_total(c, lambda: g(dx=dx, num_lag_nodes=n, interp_kernel_width=width, n_components=ncomp),
                                "generator returns normally")
        if not ok:
            return
        pre = (ncomp,) if ncomp > 1 else ()
        L = X.field("lag_field", pre + (n,), real)
        U = X.field("eul_field", pre + tuple(N), real)
        W = X.field("weights", (2 * width,) * dim + (n,), real)
        near = nearest_inside(c, dim, n, N, width)
        ok, _ = X.vacuous_total(c, lambda: k(lag_grid_field=L, eul_grid_field=U, interp_weights=W,
                                             nearest_eul_grid_index_to_lag_grid=near), "kernel returns normally")
        if not ok:
            return
        for q in range(ncomp):
            p = (T.const(q),) if ncomp > 1 else ()
            X.forall(c, "post", "weighted sum over the window times the cell volume%s" % ("[%d]" % q if p else ""),
                     (n,), lambda i: T.eq(L.buf.content(p + i), interp_spec(lambda x: U.buf.initial(p + x),
                                                                           W.buf.initial, near.buf.initial, dx.p, dim,
                                                                           width, i[0])))
        for nm, a in (("eul_grid_field", U), ("interp_weights", W), ("nearest index", near)):
            X.unchanged(c, nm, a)
        for bad in (0, dim + 1, 2 if dim == 3 else 3):
            X.rejects(c, lambda: g(dx=dx, num_lag_nodes=n, interp_kernel_width=width, n_components=bad),
                      "%d components" % bad)
    return X.run("%s_kernel_%dd[%d]" % (name, dim, ncomp), build, real,
                 "%s, width %d, any number of markers" % (real, width), modular=False, file=fil(gen(name, dim)),
                 defined=True, replay=replay("transfer", dim=dim, width=width, real=real, ncomp=ncomp, which="interpolation"))


def spreading(dim, ncomp=1, width=2, real="f64"):
    name = "lagrangian_to_eulerian_grid_interpolation"

    def build(c):
        dx, sh, n = params(c)
        N = grid_vars(c, dim, width)
        g = gen(name, dim)
        kw = dict(n_components=ncomp) if ncomp > 1 else {}
        ok, k = X.vacuous_total(c, lambda: g(num_lag_nodes=n, interp_kernel_width=width, **kw),
                                "generator returns normally")
        if not ok:
            return
        pre = (ncomp,) if ncomp > 1 else ()
        L = X.field("lag_field", pre + (n,), real)
        U = X.field("eul_field", pre + tuple(N), real)
        W = X.field("weights", (2 * width,) * dim + (n,), real)
        near = nearest_inside(c, dim, n, N, width)
        ok, _ = X.vacuous_total(c, lambda: k(lag_grid_field=L, eul_grid_field=U, interp_weights=W,
                                             nearest_eul_grid_index_to_lag_grid=near), "kernel returns normally")
        if not ok:
            return
        for q in range(ncomp):
            p = (T.const(q),) if ncomp > 1 else ()
            ii, rng = X.idx_vars(N)
            cell = tuple(i.p for i in ii)
            b, body = spread_spec(lambda i: L.buf.initial(p + (i,)), W.buf.initial, near.buf.initial, dim, width,
                                  cell, n.p)
            sum_eq(c, "post", "value times weight added over every marker's window%s" % ("[%d]" % q if p else ""),
                   U.buf.content(p + cell), n.p, b, body, U.buf.initial(p + cell), facts=[rng])
        for nm, a in (("lag_grid_field", L), ("interp_weights", W), ("nearest index", near)):
            X.unchanged(c, nm, a)
        for bad in (0, dim + 1, 2 if dim == 3 else 3):
            X.rejects(c, lambda: g(num_lag_nodes=n, interp_kernel_width=width, n_components=bad),
                      "%d components" % bad)
    return X.run("%s_kernel_%dd[%d]" % (name, dim, ncomp), build, real,
                 "%s, width %d, any number of markers" % (real, width), modular=False, file=fil(gen(name, dim)),
                 defined=True, replay=replay("transfer", dim=dim, width=width, real=real, ncomp=ncomp, which="spreading"))


# ------------------------------------------------------------- C23, C24
def arrays_of(o):
    return [v for _, v in attr_arrays(o)]


class State:
    """the arrays of the object that some method writes (found by running every
    method once); havoc() gives them arbitrary contents = any history"""

    def __init__(self, o):
        self.o = o
        self.before = {id(v.buf): v.buf.writes for v in arrays_of(o)}
        self.scal = attr_scalars(o)

    def probed(self):
        self.mut = {id(v.buf) for v in arrays_of(self.o)
                    if id(v.buf) not in self.before or v.buf.writes != self.before[id(v.buf)]}
        self.changing = {k for k, v in attr_scalars(self.o).items()
                         if k not in self.scal or not self.same(v, self.scal[k])}

    @staticmethod
    def same(a, b):
        if isinstance(a, S.Sym) or isinstance(b, S.Sym):
            return T.eq(S.pt(a), S.pt(b)) is T.TRUE
        return a is b or a == b

    def havoc(self, c, only_scalar=("time",)):
        if self.changing - set(only_scalar):
            raise Unsupported("attributes %s change between calls" % sorted(self.changing))
        for k, v in attr_arrays(self.o):
            if id(v.buf) in self.mut:
                nm = c.fresh("old_" + k)
                sort = "I" if v.dtype.kind in "iu" else "R"
                v.buf.content = v.buf.initial = (lambda idx, comp=0, nm=nm, sort=sort: T.app(nm, tuple(idx), sort))
                v.buf.writes = 0


OPAQUE = [False]


class WeightsStub:
    """contract of the cosine weights kernel: each weight is the tensor product
    of the delta function at the distances (precondition: at most two cells),
    kept as an uninterpreted function of them (its value is verified by C21)"""

    def __init__(self, fn, dim):
        self.fn, self.dim = fn, dim
        self.__name__ = fn.__name__

    def __call__(self, *a, **k):
        kern = self.fn(*a, **k)
        args = inspect.signature(self.fn).bind(*a, **k).arguments
        sig = inspect.signature(kern)
        dim, dx = self.dim, S.pt(args["dx"])

        def kernel(*ka, **kk):
            b = sig.bind(*ka, **kk).arguments
            W, sup = b["interp_weights"], b["local_eul_grid_support_of_lag_grid"]
            c = S.ctx()
            g = sup.getter()
            OPAQUE[0] = True
            old = list(c.assumps)
            for d in range(dim):
                X.forall(c, "pre", "distance at most two cells along %s" % LET[d], W._shape, lambda i: T.band(
                    T.le(T.const(-2), T.div(g((T.const(d),) + i), dx)),
                    T.le(T.div(g((T.const(d),) + i), dx), T.const(2))))
            c.assumps = old
            write(W, lambda i, comp=0: opaque(dim, [T.div(g((T.const(d),) + tuple(i)), dx) for d in range(dim)], dx))
        return kernel


def opaque(dim, rs, dx):
    return T.app("cosine_weight_%dd" % dim, tuple(rs) + (dx,), "R")


@contextlib.contextmanager
def weights_contract(dim, on):
    from . import install
    OPAQUE[0] = False
    if not on:
        yield
        return
    f = gen("cosine_interpolation_weights", dim)
    st, saved = WeightsStub(f, dim), []
    for m in install.sopht_modules():
        for k, v in list(m.__dict__.items()):
            if v is f:
                saved.append((m, k, v))
                m.__dict__[k] = st
    try:
        yield
    finally:
        for m, k, v in saved:
            m.__dict__[k] = v


def weight_at(dim, dx, th, rel, i):
    r = [T.sub(T.to_real(T.sub(rel[dim - 1 - d], T.const(1))), T.app(th, (T.const(d), i), "R")) for d in range(dim)]
    if OPAQUE[0]:
        return opaque(dim, r, dx)
    return prod([T.div(phi("cosine", x), dx) for x in r])


def forcing_setup(c, dim, real):
    dx, n = S.rvar("dx"), S.ivar("n")
    c.assume(dx > 0)
    c.assume(n >= 0)
    N = grid_vars(c, dim, 2)
    return dx, n, N


class Step:
    """one call of a forcing method from an arbitrary state"""

    def __init__(self, c, dim, real, dx, n, N, shift, tag, like=None):
        """like: reuse the array objects of that step, with new contents"""
        self.c, self.dim, self.dx, self.n, self.N = c, dim, dx, n, N
        self.eul = X.field("eul_out" + tag, (dim,) + tuple(N), real)
        self.flow = X.field("eul_velocity" + tag, (dim,) + tuple(N), real)
        self.body = X.field("body_velocity" + tag, (dim, n), real)
        self.pos, self.m, self.th = markers(c, dim, n, N, 2, dx.p, shift, real)
        if like is not None:
            for a in ("eul", "flow", "body", "pos"):
                old, new = getattr(like, a), getattr(self, a).buf
                old.buf.content = old.buf.initial = new.initial
                old.buf.writes = 0
                setattr(self, a, old)

    def near(self, ix):
        return T.app(self.m, ix, "I")

    def flow_at(self, q, i):
        """interpolated flow velocity, component q, marker i"""
        u = self.flow.buf.initial
        return interp_spec(lambda x: u((q,) + x), lambda ix: weight_at(self.dim, self.dx.p, self.th, ix[:-1], ix[-1]),
                           self.near, self.dx.p, self.dim, 2, i)

    def spread(self, name, q, val, reset, scale=None):
        """eul_out[q] = (0 | old) + sum over markers of value times weight"""
        c, dim, n = self.c, self.dim, self.n
        ii, rng = X.idx_vars(self.N)
        cell = tuple(i.p for i in ii)

        def wt(ix):
            w = weight_at(dim, self.dx.p, self.th, ix[:-1], ix[-1])
            return T.mul(w, scale) if scale is not None else w
        b, body = spread_spec(val, wt, self.near, dim, 2, cell, n.p)
        rest = T.const(0, "R") if reset else self.eul.buf.initial((T.const(q),) + cell)
        sum_eq(c, "post", name, self.eul.buf.content((T.const(q),) + cell), n.p, b, body, rest, facts=[rng])

    def frame(self):
        for nm, a in (("eul_grid_velocity_field", self.flow), ("lag_grid_velocity_field", self.body),
                      ("lag_grid_position_field", self.pos)):
            X.unchanged(self.c, nm, a)


def get(o, name, n, dim):
    v = getattr(o, name, None)
    if not isinstance(v, SArr) or v._shape != (T.const(dim), n.p):
        raise Unsupported("attribute %s" % name)
    return v


def virtual_boundary(dim, real="f64", opaque_weights=True, modular=True, shift=True, reset=True):
    K = cls("VirtualBoundaryForcing")

    def build(c):
        dx, n, N = forcing_setup(c, dim, real)
        k, dmp, dt, t0 = S.rvar("stiffness"), S.rvar("damping"), S.rvar("dt"), S.rvar("t0")
        kw = dict(virtual_boundary_stiffness_coeff=k, virtual_boundary_damping_coeff=dmp, grid_dim=dim, dx=dx,
                  num_lag_nodes=n, real_t=X.rt(real))
        if shift:
            sh = S.rvar("shift")
            kw.update(eul_grid_coord_shift=sh, interp_kernel_width=2)
            sh = sh.p
        else:
            sh = T.scale(dx.p, T.Fr(1, 2))
        if not reset:
            kw["enable_eul_grid_forcing_reset"] = False
        if shift:
            kw["start_time"] = t0
        ok, o = X.vacuous_total(c, lambda: K(**kw), "constructor returns normally")
        if not ok:
            return
        q, (i,), rng = None, (S.ivar("i"),), None
        P, M, F, L = (("lag_grid_%s_field" % s) for s in ("position_mismatch", "velocity_mismatch", "forcing",
                                                            "flow_velocity"))
        X.forall(c, "post", "initial position mismatch is zero", (dim, n),
                 lambda ix: T.eq(get(o, P, n, dim).getter()(ix), T.const(0)))
        c.oblige("post", "initial time", T.eq(S.pt(o.time), t0.p if shift else T.const(0)))
        for wrong in (1, 4):
            X.rejects(c, lambda: K(**dict(kw, grid_dim=wrong)), "grid_dim %d" % wrong)
        calls = [("compute_interaction_force_on_lag_grid", None),
                 ("compute_interaction_force_on_eul_and_lag_grid", False)]
        if reset:
            calls.append(("compute_interaction_force_on_eul_and_lag_grid_with_eul_grid_forcing_reset", True))
        calls.append(("compute_interaction_forcing", reset))
        st, nob = State(o), len(c.obls)
        for meth, rs in calls:
            s = Step(c, dim, real, dx, n, N, sh, "")
            args = dict(eul_grid_velocity_field=s.flow, lag_grid_position_field=s.pos, lag_grid_velocity_field=s.body)
            if rs is not None:
                args["eul_grid_forcing_field"] = s.eul
            ok, _ = X.vacuous_total(c, lambda: getattr(o, meth)(**args), "%s returns normally" % meth)
            if not ok:
                return
        ok, _ = X.vacuous_total(c, lambda: o.time_step(dt), "time_step returns normally")
        if not ok:
            return
        st.probed()
        del c.obls[nob:]
        last = None
        for meth, rs in calls:
            for kwcall in (True, False):
                st.havoc(c)
                tm = S.rvar("time_" + meth[-8:])
                o.time = tm
                p0 = get(o, P, n, dim).buf.initial
                s = last = Step(c, dim, real, dx, n, N, sh, "", None if kwcall else last)
                args = dict(eul_grid_velocity_field=s.flow, lag_grid_position_field=s.pos,
                            lag_grid_velocity_field=s.body)
                if rs is not None:
                    args = dict(eul_grid_forcing_field=s.eul, **args)
                f = getattr(o, meth)
                if kwcall:
                    ok, _ = X.vacuous_total(c, lambda: f(**args), "%s returns normally" % meth)
                else:
                    ok, _ = X.vacuous_total(c, lambda: f(*args.values()), "%s returns normally" % meth)
                if not ok:
                    return
                tag = meth + (" (keywords)" if kwcall else "")
                for d in range(dim):
                    q = T.const(d)
                    mis = lambda j: T.sub(s.flow_at(q, j), s.body.buf.initial((q, j)))
                    frc = lambda j: T.add(T.mul(k.p, p0((q, j))), T.mul(dmp.p, mis(j)))
                    X.forall(c, "post", "%s: velocity mismatch[%d] is interpolated flow minus body" % (tag, d), (n,),
                             lambda j: T.eq(get(o, M, n, dim).getter()((q,) + j), mis(j[0])))
                    X.forall(c, "post", "%s: force[%d]" % (tag, d), (n,),
                             lambda j: T.eq(get(o, F, n, dim).getter()((q,) + j), frc(j[0])))
                    if rs is not None:
                        s.spread("%s: Eulerian force[%d] is the %sspread force"
                                 % (tag, d, "" if rs else "previous content plus the "), d, frc, rs)
                X.forall(c, "frame", "%s: position mismatch unchanged" % tag, (dim, n),
                         lambda ix: T.eq(get(o, P, n, dim).getter()(ix), p0(ix)))
                c.oblige("frame", "%s: time unchanged" % tag, T.eq(S.pt(o.time), tm.p))
                s.frame()
        # time step
        st.havoc(c)
        tm = S.rvar("time_step")
        o.time = tm
        p0, m0 = get(o, P, n, dim).buf.initial, get(o, M, n, dim).buf.initial
        f0 = get(o, F, n, dim).buf.initial
        ok, _ = X.vacuous_total(c, lambda: o.time_step(dt), "time_step returns normally")
        if not ok:
            return
        X.forall(c, "post", "position mismatch advances by dt times the velocity mismatch", (dim, n),
                 lambda ix: T.eq(get(o, P, n, dim).getter()(ix), T.add(p0(ix), T.mul(dt.p, m0(ix)))))
        X.forall(c, "frame", "time_step leaves the velocity mismatch", (dim, n),
                 lambda ix: T.eq(get(o, M, n, dim).getter()(ix), m0(ix)))
        X.forall(c, "frame", "time_step leaves the force", (dim, n),
                 lambda ix: T.eq(get(o, F, n, dim).getter()(ix), f0(ix)))
        c.oblige("post", "time advances by dt", T.eq(S.pt(o.time), T.add(tm.p, dt.p)))
    def run(c):
        with weights_contract(dim, opaque_weights and modular):
            build(c)
    return X.run("VirtualBoundaryForcing %dd" % dim, run, real, "%s, %s, reset %s, any number of markers and steps" % (
        real, "explicit shift and width" if shift else "default shift and width", reset), modular=modular, fallback=False, file=fil(K),
        defined=True, replay=replay("virtual_boundary", dim=dim, real=real, shift=shift, reset=reset))


def brinkmann_forcing(dim, real="f64", opaque_weights=True, modular=True, reset=True):
    K = cls("BrinkmannBoundaryForcing")

    def build(c):
        dx, n, N = forcing_setup(c, dim, real)
        lam, dt, sh = S.rvar("coeff"), S.rvar("dt"), S.rvar("shift")
        dt0 = dt
        c.assume(lam >= 0)
        c.assume(dt > 0)
        kw = dict(brinkmann_coeff=lam, grid_dim=dim, dx=dx, eul_grid_coord_shift=sh, num_lag_nodes=n,
                  interp_kernel_width=2, real_t=X.rt(real))
        if not reset:
            kw["enable_eul_grid_flux_reset"] = False
        ok, o = X.vacuous_total(c, lambda: K(**kw), "constructor returns normally")
        if not ok:
            return
        for wrong in (1, 4):
            X.rejects(c, lambda: K(**dict(kw, grid_dim=wrong)), "grid_dim %d" % wrong)
        calls = [("compute_interaction_without_eul_grid_flux_reset", False), ("compute_interaction_forcing", reset)]
        if reset:
            calls.append(("compute_interaction_with_eul_grid_flux_reset", True))
        st, nob = State(o), len(c.obls)
        for meth, rs in calls:
            s = Step(c, dim, real, dx, n, N, sh.p, "")
            args = dict(eul_grid_penalisation_flux=s.eul, eul_grid_velocity_field=s.flow,
                        lag_grid_position_field=s.pos, lag_grid_velocity_field=s.body, dt=dt)
            ok, _ = X.vacuous_total(c, lambda: getattr(o, meth)(**args), "%s returns normally" % meth)
            if not ok:
                return
        st.probed()
        del c.obls[nob:]
        vol = T.power(dx.p, dim)
        den = T.add(T.const(1, "R"), T.mul(lam.p, dt.p))
        last = None
        for meth, rs in calls:
            for kwcall in (True, False):
                st.havoc(c)
                s = last = Step(c, dim, real, dx, n, N, sh.p, "", None if kwcall else last)
                dt = S.rvar("dt_%s_%d" % (meth[-10:], kwcall))
                c.assume(dt > 0)
                den = T.add(T.const(1, "R"), T.mul(lam.p, dt.p))
                args = dict(eul_grid_penalisation_flux=s.eul, eul_grid_velocity_field=s.flow,
                            lag_grid_position_field=s.pos, lag_grid_velocity_field=s.body, dt=dt)
                f = getattr(o, meth)
                if kwcall:
                    ok, _ = X.vacuous_total(c, lambda: f(**args), "%s returns normally" % meth)
                else:
                    ok, _ = X.vacuous_total(c, lambda: f(*args.values()), "%s returns normally" % meth)
                if not ok:
                    return
                tag = meth + (" (keywords)" if kwcall else "")
                for d in range(dim):
                    q = T.const(d)
                    ub = lambda j: s.body.buf.initial((q, j))
                    pen = lambda j: T.div(T.add(s.flow_at(q, j), T.mul(T.mul(lam.p, dt.p), ub(j))), den)
                    flx = lambda j: T.sub(pen(j), s.flow_at(q, j))
                    for nm, at, w in (
                            ("flow velocity", "lag_grid_flow_velocity_field", lambda j: s.flow_at(q, j)),
                            ("penalised velocity", "lag_grid_penalised_velocity_field", pen),
                            ("flux", "lag_grid_penalisation_flux", flx),
                            ("forcing", "lag_grid_penalisation_forcing",
                             lambda j: T.div(T.mul(vol, flx(j)), dt.p))):
                        X.forall(c, "post", "%s: %s[%d]" % (tag, nm, d), (n,),
                                 lambda j: T.eq(get(o, at, n, dim).getter()((q,) + j), w(j[0])))
                    s.spread("%s: Eulerian flux[%d] is the %sspread flux"
                             % (tag, d, "" if rs else "previous content plus the "), d, flx, rs, scale=vol)
                s.frame()
        # the blend
        dt = dt0
        den = T.add(T.const(1, "R"), T.mul(lam.p, dt.p))
        u, ub = S.rvar("u"), S.rvar("ub")
        x = T.div(T.add(u.p, T.mul(T.mul(lam.p, dt.p), ub.p)), den)
        c.oblige("lemma", "implicit relation (x - u)/dt = coeff (ub - x)",
                 T.eq(T.div(T.sub(x, u.p), dt.p), T.mul(lam.p, T.sub(ub.p, x))))
    def run(c):
        with weights_contract(dim, opaque_weights and modular):
            build(c)
    return X.run("BrinkmannBoundaryForcing %dd" % dim, run, real, "%s, reset %s, any number of markers" % (
        real, reset), modular=modular, fallback=False, file=fil(K), defined=True, replay=replay("brinkmann_forcing", dim=dim, real=real, reset=reset))


# ------------------------------------------------------------------ C15
def memory(of, **kw):
    """the memory-safety obligations of an immersed boundary kernel"""
    X.FORCE.update(kinds=("bounds", "pre"), replay=replay("memory", func_of=of, **dict(dict(real="f64"), **kw)))
    try:
        return globals()[of](**kw)
    finally:
        X.FORCE.clear()
