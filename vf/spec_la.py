"""C18 fast-diagonalisation Poisson solver: contract over the assumed contract
of numpy.linalg (vf/stubs_la.py).  The contract says that the matrices handed to
the eigensolver are the one-dimensional second-difference operators of the
selected boundary treatment, and that the solution is the spectral formula
  S = V D V^-1 R,  V = tensor product of the eigenvector matrices,
  D = 1/(sum of the eigenvalues), 0 at the null mode.
lemmas/FastDiag.lean derives from exactly this contract that the operator
applied to S reproduces R minus its mean (Neumann) resp. R (Dirichlet)."""
import itertools

from . import special as X
from . import spec_fft as SF
from . import stubs_la as L
from . import sym as S
from . import term as T
from . import verify as V
from .sarr import uf_content
from .sym import Unsupported


# ------------------------------------------------------------- sums in normal form
class Terms:
    """a polynomial with symbolic sums as a list of (coef, binders, monomial)"""

    def __init__(self):
        self.k = 0

    def fresh(self):
        self.k += 1
        return T.var("$m%d" % (1000 + self.k), "I")

    def expand(self, p):
        out = []
        for m, c in p.terms.items():
            parts = [(c, [], T.const(1, "R"))]
            for i, e in m:
                a = T._atom_list[i]
                if a.kind == "sum" and e > 0:
                    for _ in range(e):
                        n, b, body = a.data
                        v = self.fresh()
                        bid = next(iter(b.terms))[0][0]
                        sub = self.expand(T.subst_poly(body, {bid: v}))
                        parts = [(c1 * c2, b1 + [(v, n)] + b2, T.mul(m1, m2))
                                 for c1, b1, m1 in parts for c2, b2, m2 in sub]
                else:
                    f = T.power(T.from_atom(a), e)
                    parts = [(c1, b1, T.mul(m1, f)) for c1, b1, m1 in parts]
            out += parts
        return out


def vid(v):
    return next(iter(v.terms))[0][0]


def permute(p, binders):
    """sum over k of f(perm(k)) = sum over k of f(k)"""
    out = []
    for v, n in binders:
        acc = T.atoms_of_poly(p, set())
        rev = T.sub(T.sub(n, T.const(1)), v)
        hits = [(a, a.data[1]) for a in acc if a.kind == "app" and a.data[0] in L.PERMS and
                a.data[1] in (v, rev) and L.decide_eq(L.PERMS[a.data[0]]["n"], n)]
        if len(hits) != 1:
            out.append((v, n))
            continue
        a, arg = hits[0]
        name = a.data[0]
        w = T.var(T._atom_list[vid(v)].data + "p", "I")
        me = a
        memo = {}

        def cond(b):
            if b.kind in ("and", "or"):
                xs = [cond(x) for x in b.data]
                return T.band(*xs) if b.kind == "and" else T.bor(*xs)
            if b.kind == "not":
                return T.bnot(cond(b.data))
            if b.kind == "eq" and vid(v) in T.poly_vars(b.data):
                co = b.data.terms.get(((vid(v), 1),))
                rest = T.sub(b.data, T.scale(v, co)) if co is not None else None
                if co in (1, -1) and vid(v) not in T.poly_vars(rest):
                    val = T.scale(rest, -1) if co == 1 else rest
                    # v = val, i.e. arg(v) = arg(val), i.e. perm(arg(v)) = perm(arg(val))
                    at = T.subst_poly(arg, {vid(v): val})
                    return T.eq(w, L.perm_value(name, at))
            return b

        def f(x):
            if x is me:
                return w
            if x.kind == "ite":
                return T.ite(cond(x.data[0]), T.rewrite_poly(x.data[1], f, memo), T.rewrite_poly(x.data[2], f, memo))
            return None
        q = T.rewrite_poly(p, f, memo)
        if vid(v) in T.poly_vars(q):
            out.append((v, n))
            continue
        p = q
        out.append((w, n))
    return p, out


def describe(a, colour):
    """text of an atom with the binders replaced by their colours"""
    if a.id in colour:
        return "<%s>" % (colour[a.id],)
    if a.kind == "var":
        return str(a.data)
    return "%s(%s)" % (a.kind, ",".join(dpoly(x, colour) if isinstance(x, T.Poly) else
                                        dbool(x, colour) if isinstance(x, T.BTerm) else str(x) for x in a.data))


def dpoly(p, colour):
    return "+".join(sorted("%s*%s" % (c, "*".join(sorted("%s^%d" % (describe(T._atom_list[i], colour), e)
                                                         for i, e in m))) for m, c in p.terms.items()))


def dbool(b, colour):
    if b.kind in ("le", "lt", "eq"):
        # eq is symmetric
        ss = [dpoly(b.data, colour)] + ([dpoly(T.neg(b.data), colour)] if b.kind == "eq" else [])
        return "%s[%s]" % (b.kind, min(ss))
    if b.kind in ("and", "or"):
        return "%s[%s]" % (b.kind, ";".join(sorted(dbool(x, colour) for x in b.data)))
    if b.kind == "not":
        return "not[%s]" % dbool(b.data, colour)
    return str(b.data)


def key_of(p, binders):
    """canonical text of a monomial under renaming of its binders"""
    colour = {vid(v): dpoly(n, {}) for v, n in binders}
    ids = [vid(v) for v, _ in binders]
    for _ in range(3):
        new = {}
        for i in ids:
            c2 = dict(colour)
            c2[i] = "*"
            new[i] = "%s|%s" % (colour[i], dpoly(p, c2))
        ranks = {t: k for k, t in enumerate(sorted(set(new.values())))}
        colour = {i: "%d" % ranks[new[i]] for i in ids}
    groups = {}
    for i in ids:
        groups.setdefault(colour[i], []).append(i)
    gs = [groups[k] for k in sorted(groups, key=int)]
    best, tried = None, 0
    for perm in itertools.product(*[itertools.permutations(g) for g in gs]):
        tried += 1
        if tried > 2000:
            raise Unsupported("sum too symmetric to normalise")
        order = [i for g in perm for i in g]
        col = {i: "#%d" % k for k, i in enumerate(order)}
        rg = {vid(v): dpoly(n, {}) for v, n in binders}
        t = "%s||%s" % (",".join(rg[i] for i in order), dpoly(p, col))
        if best is None or t < best:
            best = t
    return best


def normal(p):
    out = {}
    for c, b, m in Terms().expand(T.to_real(p)):
        m, b = permute(m, b)
        for mm, cc in m.terms.items():
            k = key_of(T.mk_poly("R", {mm: T.Fr(1)}), b)
            out[k] = out.get(k, 0) + c * cc
            if not out[k]:
                del out[k]
    return out


# ------------------------------------------------------------------------ C18
NEUMANN = {2: "homogenous_neumann_along_xy", 3: "homogenous_neumann_along_xyz"}
DIRICHLET = {2: "homogenous_dirichlet_along_xy", 3: "homogenous_dirichlet_along_xyz"}


def operator(i, j, n, neumann, dx):
    """entry of the one-dimensional second-difference operator -d2 on n cells"""
    end = T.bor(T.eq(i, T.const(0)), T.eq(i, T.sub(n, T.const(1))))
    diag = T.const(2, "R")
    if neumann:
        diag = T.ite(end, T.const(1, "R"), diag)
    off = T.ite(T.bor(T.eq(T.sub(i, j), T.const(1)), T.eq(T.sub(j, i), T.const(1))), T.const(-1, "R"), T.const(0, "R"))
    return T.mul(T.ite(T.eq(i, j), diag, off), T.inv(T.mul(S.pt(dx), S.pt(dx))))


def formula(recs, N, neumann, rhs, idx):
    """the spectral formula at cell idx"""
    d = len(N)
    ks = [T.bound_var(50 + q) for q in range(d)]
    ms = [T.bound_var(60 + q) for q in range(d)]
    lam = T.const(0, "R")
    for k, r in zip(ks, recs):
        lam = T.add(lam, T.app(r + ".w", (k,), "R"))
    D = T.inv(lam)
    if neumann:
        D = T.ite(T.band(*[T.eq(k, L.extreme(r, "min")) for k, r in zip(ks, recs)]), T.const(0, "R"), D)
    body = D
    for q in range(d):
        body = T.mul(body, T.app(recs[q] + ".v", (idx[q], ks[q]), "R"))
        body = T.mul(body, L.inverse_entry(recs[q], ks[q], ms[q]))
    body = T.mul(body, rhs(tuple(ms)))
    for q in range(d):
        body = T.fsum(S.pt(N[q]), body, 60 + q)
    for q in range(d):
        body = T.fsum(S.pt(N[q]), body, 50 + q)
    return body


def fastdiag(dim, real="f64", bc="neumann", vector=False, default_bc=False, modular=True):
    name = "FastDiagPoissonSolver%dD" % dim
    K = SF.cls(name)
    neumann = bc == "neumann"

    def build(c):
        L.reset()
        S.INFINITY[0] = T.INF_USED[0] = True
        try:
            body(c)
        finally:
            S.INFINITY[0] = T.INF_USED[0] = False

    def body(c):
        N = [S.ivar(n) for n in V.AX[dim]]
        for s in N:
            c.assume(s >= 2)
        dx = S.rvar("dx")
        c.assume(dx > 0)
        kw = SF.sizes_kw(dim, N)
        if not default_bc:
            kw["bc_type"] = (NEUMANN if neumann else DIRICHLET)[dim]
        ok, o = X.vacuous_total(c, lambda: K(dx=dx, real_t=X.rt(real), **kw), "constructor returns normally")
        if not ok:
            return
        # the decomposition used along each axis: the one of the axis' own extent
        recs = []
        for q in range(dim):
            mine = [k for k, r in L.EIGS.items() if r["n"] == N[q].p] or \
                [k for k, r in L.EIGS.items() if c.implied(T.eq(r["n"], N[q].p))]
            if not mine:
                raise Unsupported("axis %d: no operator of the axis' own extent is decomposed" % q)
            recs.append(mine)
        if any(len(m) != 1 for m in recs):
            raise Unsupported("several eigendecompositions for one axis")
        recs = [m[0] for m in recs]
        for q in range(dim):
            g = L.EIGS[recs[q]]["get"]
            X.forall(c, "post", "axis %d: the decomposed matrix is the second-difference operator" % q, [N[q], N[q]],
                     lambda i, g=g, q=q: T.eq(g(i), operator(i[0], i[1], N[q].p, neumann, dx)))
        scal0 = SF.attr_scalars(o)

        def one(tag):
            shape = ([S.Sym(T.const(dim))] if vector else []) + N
            rhs, sol = X.field("rhs_" + tag, shape, real), X.field("sol_" + tag, shape, real)
            fn = getattr(o, "vector_field_solve" if vector else "solve")
            kw = dict(solution_vector_field=sol, rhs_vector_field=rhs) if vector else \
                dict(solution_field=sol, rhs_field=rhs)
            ok, _ = X.vacuous_total(c, lambda: fn(**kw), "%s returns normally" % tag)
            if not ok:
                return False
            X.unchanged(c, "%s: right-hand side" % tag, rhs)
            ii, rng = X.idx_vars(N)
            idx = tuple(i.p for i in ii)
            old = list(c.assumps)
            c.assumps = old + [rng]
            try:
                for q in range(dim if vector else 1):
                    pre = (T.const(q),) if vector else ()
                    got = X.resolve(c, sol.buf.content(pre + idx))
                    want = formula(recs, N, neumann, lambda m, pre=pre: rhs.buf.initial(pre + m), idx)
                    if normal(got) != normal(want):
                        raise Unsupported("solution is not in the form of the spectral formula")
                    c.oblige("post", "%s: %ssolution is the spectral formula" % (tag, "component %d: " % q if vector else ""),
                             T.TRUE)
            finally:
                c.assumps = old
            return True
        before = {k: (a.buf, a.buf.writes) for k, a in SF.attr_arrays(o)}
        if not one("first solve"):
            return
        mutable = {id(b): b for k, (b, w) in before.items() if b.writes != w}
        for b in mutable.values():
            b.content = uf_content(c.fresh("hist_" + b.name), b.dtype)
        before = {k: (a.buf, a.buf.writes) for k, a in SF.attr_arrays(o)}
        if not one("solve after any history"):
            return
        for k, (b, w) in before.items():
            if id(b) not in mutable:
                if b.writes != w:
                    raise Unsupported("solver state %s is written by some solves only" % k)
                c.oblige("frame", "solver state %s is not written by a solve" % k, T.TRUE)
        for k, v in SF.attr_scalars(o).items():
            same = k in scal0 and (v is scal0[k] or (not isinstance(v, S.Sym) and v == scal0[k]) or
                                   (isinstance(v, S.Sym) and T.eq(S.pt(v), S.pt(scal0[k])) is T.TRUE))
            if not same:
                raise Unsupported("solver attribute %s changes between solves" % k)
            c.oblige("frame", "solver attribute %s unchanged" % k, T.TRUE)
    return X.run("%s.%s" % (name, "vector_field_solve" if vector else "solve"), build, real,
                 "%s, %s%s, any grid" % (real, bc, " (default)" if default_bc else ""), modular=modular, fallback=False,
                 file=SF.fil(K), replay=dict(type="special", module="vf.concrete_la", func="fastdiag", dim=dim, real=real,
                                             bc=bc, vector=vector, default_bc=default_bc))
