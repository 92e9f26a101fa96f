"""Concrete replay of C18: the solution against the dense operator."""
import numpy as np

from .concrete_special import Bad, DT, content, disturb, eul, guarded, names, others, solver_use


def op1(n, neumann):
    A = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    if neumann:
        A[0, 0] = A[-1, -1] = 1
    return A


def apply(S, dx, neumann):
    out = np.zeros(S.shape)
    for d in range(S.ndim):
        out += np.moveaxis(np.tensordot(op1(S.shape[d], neumann), S, axes=(1, d)), 0, d)
    return out / dx ** 2


def fastdiag(task):
    dim, real, bc, vector = task["dim"], task["real"], task["bc"], task["vector"]
    neumann = bc == "neumann"
    rdt = DT[real][0]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(5)
    shapes = [(5, 8), (8, 5), (2, 3), (13, 4), (6, 6), (2, 2)] if dim == 2 else \
        [(4, 5, 7), (7, 4, 5), (5, 7, 4), (2, 3, 2), (4, 4, 4), (3, 3, 8)]
    from .spec_la import NEUMANN, DIRICHLET
    for n, sz in enumerate(shapes):
        dx = (0.5, 1.0, 0.1, 2.0, 0.25, 3.0)[n]
        desc = dict(dim=dim, real=real, size=list(sz), dx=dx, bc=bc, vector=vector)
        kw = dict(dx=dx, real_t=rdt, **dict(zip(names(dim), sz)))
        if not task.get("default_bc"):
            kw["bc_type"] = (NEUMANN if neumann else DIRICHLET)[dim]
        K = getattr(eul(), "FastDiagPoissonSolver%dD" % dim)
        rest = others(K, kw, solver_use(sz, rdt))
        ok, o = guarded(bad, desc, lambda: K(**kw))
        if not ok:
            break
        rest += others(K, kw)
        for rep in range(7):
            runs += 1
            d = dict(desc, solve=rep)
            noise = rng.standard_normal(sz).astype(rdt)
            disturb(rest, lambda k: k.solve(solution_field=np.zeros(sz, rdt), rhs_field=noise))
            sh = ((dim,) if vector else ()) + sz
            rhs = content(rng, sh, rep, rdt)
            r0 = rhs.copy()
            sol = np.full(sh, 5, rdt)
            if vector:
                ok, _ = guarded(bad, d, lambda: o.vector_field_solve(solution_vector_field=sol, rhs_vector_field=rhs))
            else:
                ok, _ = guarded(bad, d, lambda: o.solve(solution_field=sol, rhs_field=rhs))
            if not ok:
                break
            bad.exact(rhs, r0, what="right-hand side modified", **d)
            for q in range(dim if vector else 1):
                s, r = (sol[q], r0[q]) if vector else (sol, r0)
                s, r = s.astype(float), r.astype(float)
                sc = 20 * max(1.0, np.abs(s).max() / dx ** 2)
                bad.check(apply(s, dx, neumann), r - r.mean() if neumann else r, real, sc, what="operator applied to the solution", **d)
                if neumann:
                    bad.check(s.mean(), 0.0, real, sc, what="mean of the solution", **d)
        if bad:
            break
    return dict(runs=runs, bad=bad[:5])
