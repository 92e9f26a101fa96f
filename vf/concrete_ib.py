"""Concrete replays of the immersed boundary contracts (C20-C24)."""
import itertools

import numpy as np

from .concrete_special import DT, Bad, disturb, guarded, others


def ensure_numba():
    # numba is not installed here; its decorators are the identity on Python semantics
    import sys
    try:
        import numba  # noqa: F401
    except ImportError:
        from .install import numba_stub
        sys.modules["numba"] = numba_stub()


ensure_numba()


def ib():
    import sopht.numeric.immersed_boundary_ops as m
    return m


def gen(name, dim):
    import importlib
    m = importlib.import_module(
        "sopht.numeric.immersed_boundary_ops.EulerianLagrangianGridCommunicator%dD" % dim)
    return getattr(m, "generate_%s_kernel_%dd" % (name, dim))


def klass(dim):
    return getattr(ib(), "EulerianLagrangianGridCommunicator%dD" % dim)


CASES = [(0.25, 0.125), (0.25, 0.0), (1.0, 0.3), (0.125, -0.4), (0.5, 0.0)]


def positions(rng, dim, n, dx, sh, lo, hi):
    """cell lo..hi-1 plus a fraction; two markers on nodes and one just below a
    node in each direction"""
    m = np.stack([rng.integers(lo[d], hi[d], n) for d in range(dim)])
    th = rng.random((dim, n)) * 0.98 + 0.01
    if n > 1:
        th[:, 0] = 0.0
        th[0, 1] = 0.0
    return m, th, sh + dx * (m + th)


def phi(kind, r):
    r = np.asarray(r, float)
    if kind == "cosine":
        return 0.25 * (1 + np.cos(0.5 * np.pi * r))
    a = np.abs(r)
    with np.errstate(invalid="ignore"):
        p = (3 - 2 * a + np.sqrt(1 + 4 * a - 4 * a * a)) / 8
        q = (5 - 2 * a - np.sqrt(-7 + 12 * a - 4 * a * a)) / 8
    return np.where(a < 1, p, np.where(a < 2, q, 0.0))


def dist(m, th, dim, w, dx):
    n = m.shape[1]
    out = np.zeros((dim,) + (2 * w,) * dim + (n,))
    for ks in itertools.product(range(2 * w), repeat=dim):
        for d in range(dim):
            out[(d,) + ks] = (ks[dim - 1 - d] - (w - 1) - th[d]) * dx
    return out


def weight(m, th, dim, kind, dx):
    s = dist(m, th, dim, 2, dx)
    r = np.ones(s.shape[1:])
    for d in range(dim):
        r = r * phi(kind, s[d] / dx) / dx
    return r


def exact_positions(real, dx, sh):
    """on-node markers are only decidable in exact arithmetic"""
    return all(float(x).hex() for x in (dx, sh)) and (dx in (0.25, 0.5, 1.0, 0.125)) and sh in (0.125, 0.0)


def support(task):
    dim, w, real = task["dim"], task["width"], task["real"]
    rdt = DT[real][0]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(5)
    for (dx, sh), n in itertools.product(CASES, (1, 9)):
        m, th, pos = positions(rng, dim, n, dx, sh, [-2] * dim, [9 + d for d in range(dim)])
        if not exact_positions(real, dx, sh):
            th = np.clip(th, 0.01, 0.99)
            pos = sh + dx * (m + th)
        pos = pos.astype(rdt)
        desc = dict(what="grid support", dim=dim, width=w, real=real, dx=dx, shift=sh, markers=n)
        kw = dict(dx=rdt(dx), eul_grid_coord_shift=rdt(sh), num_lag_nodes=n, interp_kernel_width=w)
        g = gen("local_eulerian_grid_support_of_lagrangian_grid", dim)
        others(g, kw)
        ok, k = guarded(bad, desc, lambda: g(**kw))
        if not ok:
            continue
        others(g, kw)
        near = np.full((dim, n), -7, dtype=int)
        sup = np.full((dim,) + (2 * w,) * dim + (n,), 9, rdt)
        p0 = pos.copy()
        ok, _ = guarded(bad, desc, lambda: k(local_eul_grid_support_of_lag_grid=sup,
                                             nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos))
        runs += 1
        if not ok:
            continue
        bad.exact(near, m, out="nearest index", positions=pos.tolist(), **desc)
        bad.check(sup, dist(m, th, dim, w, dx), real, out="signed distances", **desc)
        bad.exact(pos, p0, out="lag_positions", **desc)
    return dict(runs=runs, bad=bad)


def weights(task):
    dim, kind, real = task["dim"], task["kind"], task["real"]
    rdt = DT[real][0]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(6)
    for (dx, sh), n in itertools.product(CASES, (1, 6)):
        m, th, _ = positions(rng, dim, n, dx, sh, [3] * dim, [9] * dim)
        s = dist(m, th, dim, 2, dx).astype(rdt)
        desc = dict(what="%s weights" % kind, dim=dim, real=real, dx=dx, markers=n)
        kw = dict(dx=rdt(dx), interp_kernel_width=2, real_t=rdt)
        g = gen("%s_interpolation_weights" % kind, dim)
        others(g, kw)
        ok, k = guarded(bad, desc, lambda: g(**kw))
        if not ok:
            continue
        others(g, kw)
        W = np.full(s.shape[1:], 9, rdt)
        ok, _ = guarded(bad, desc, lambda: k(interp_weights=W, local_eul_grid_support_of_lag_grid=s))
        runs += 1
        if ok:
            bad.check(W, weight(m, th, dim, kind, dx), real, scale=dx ** -dim, fractions=th.tolist(), **desc)
    for w in (1, 3):
        runs += 1
        try:
            gen("%s_interpolation_weights" % kind, dim)(dx=rdt(0.5), interp_kernel_width=w, real_t=rdt)
            bad.append(dict(what="%s weights" % kind, dim=dim, width=w, error="accepted"))
        except Exception:
            pass
    return dict(runs=runs, bad=bad)


def communicator(task):
    dim, kind, real, nc = task["dim"], task["kind"], task["real"], task.get("ncomp", 1)
    rdt = DT[real][0]
    kd = "cosine" if kind == "default" else kind
    bad, runs = Bad(), 0
    rng = np.random.default_rng(8)
    for (dx, sh), n in itertools.product(CASES, (1, 5)):
        m, th, pos = positions(rng, dim, n, dx, sh, [3] * dim, [9] * dim)
        if not exact_positions(real, dx, sh):
            th = np.clip(th, 0.01, 0.99)
            pos = sh + dx * (m + th)
        pos = pos.astype(rdt)
        desc = dict(what="communicator", kind=kind, dim=dim, real=real, dx=dx, shift=sh, markers=n)
        kw = dict(dx=rdt(dx), eul_grid_coord_shift=rdt(sh), num_lag_nodes=n, interp_kernel_width=2, real_t=rdt,
                  n_components=nc)
        if kind != "default":
            kw["interp_kernel_type"] = kind
        rest = others(klass(dim), kw)
        ok, o = guarded(bad, desc, lambda: klass(dim)(**kw))
        if not ok:
            continue
        rest += others(klass(dim), kw)
        near = np.full((dim, n), -7, dtype=int)
        sup = np.full((dim,) + (4,) * dim + (n,), 9, rdt)
        W = np.full(sup.shape[1:], 9, rdt)

        def go():
            o.local_eulerian_grid_support_of_lagrangian_grid_kernel(
                local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos)
            o.interpolation_weights_kernel(interp_weights=W, local_eul_grid_support_of_lag_grid=sup)
        ok, _ = guarded(bad, desc, go)
        runs += 1
        if ok:
            bad.exact(near, m, out="nearest index", **desc)
            bad.check(W, weight(m, th, dim, kd, dx), real, scale=dx ** -dim, out="weights", fractions=th.tolist(),
                      **desc)
            # transfers are wired to the object's own number of components, and adjoint
            N = (14,) * dim
            pre = (nc,) if nc > 1 else ()
            U = rng.standard_normal(pre + N).astype(rdt)
            f = rng.standard_normal(pre + (n,)).astype(rdt)
            L = np.zeros(pre + (n,), rdt)
            E = np.zeros(pre + N, rdt)

            def tr():
                o.eulerian_to_lagrangian_grid_interpolation_kernel(
                    lag_grid_field=L, eul_grid_field=U, interp_weights=W, nearest_eul_grid_index_to_lag_grid=near)
                o.lagrangian_to_eulerian_grid_interpolation_kernel(
                    eul_grid_field=E, lag_grid_field=f, interp_weights=W, nearest_eul_grid_index_to_lag_grid=near)
            ok, _ = guarded(bad, desc, tr)
            if ok:
                a, b = float((L * f).sum()), float((U * E).sum()) * dx ** dim
                if not abs(a - b) <= (1e-2 if real == "f32" else 1e-9) * (1 + abs(a)):
                    bad.append(dict(desc, out="adjointness", interpolation=a, spreading=b))
    for k in ("gaussian", "Cosine", None):
        runs += 1
        try:
            klass(dim)(dx=rdt(0.5), eul_grid_coord_shift=rdt(0.25), num_lag_nodes=2, interp_kernel_width=2,
                       real_t=rdt, n_components=nc, interp_kernel_type=k)
            bad.append(dict(what="communicator", kind=str(k), error="accepted"))
        except Exception:
            pass
    return dict(runs=runs, bad=bad)


def interp_ref(U, W, near, dx, dim, w):
    n = near.shape[1]
    out = np.zeros(U.shape[:-dim] + (n,))
    for i in range(n):
        sl = tuple(slice(near[d, i] - w + 1, near[d, i] + w + 1) for d in range(dim)[::-1])
        out[..., i] = (U[(Ellipsis,) + sl].astype(float) * W[..., i].astype(float)).sum(
            axis=tuple(range(-dim, 0))) * dx ** dim
    return out


def spread_ref(U, L, W, near, dim, w):
    out = U.astype(float)
    n = near.shape[1]
    for i in range(n):
        for ks in itertools.product(range(2 * w), repeat=dim):
            cell = tuple(near[dim - 1 - a, i] - w + 1 + ks[a] for a in range(dim))
            out[(Ellipsis,) + cell] += L[..., i].astype(float) * float(W[ks + (i,)])
    return out


def transfer(task):
    dim, w, real, nc, which = (task[k] for k in ("dim", "width", "real", "ncomp", "which"))
    rdt = DT[real][0]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(9)
    N = (9, 11) if dim == 2 else (8, 9, 10)
    name = ("eulerian_to_lagrangian_grid_interpolation" if which == "interpolation"
            else "lagrangian_to_eulerian_grid_interpolation")
    for dx, n, rep in itertools.product((0.5, 0.125), (1, 3, 7), (False, True)):
        desc = dict(what=which, dim=dim, width=w, real=real, ncomp=nc, dx=dx, markers=n, same_cell=rep)
        kw = dict(num_lag_nodes=n, interp_kernel_width=w, n_components=nc)
        if which == "interpolation":
            kw["dx"] = rdt(dx)
        elif nc == 1:
            del kw["n_components"]
        others(gen(name, dim), kw)
        ok, k = guarded(bad, desc, lambda: gen(name, dim)(**kw))
        if not ok:
            continue
        others(gen(name, dim), kw)
        near = np.stack([rng.integers(w - 1, N[dim - 1 - d] - w, n) for d in range(dim)])
        if rep:
            near[:] = near[:, :1]
        pre = (nc,) if nc > 1 else ()
        U = rng.standard_normal(pre + N).astype(rdt)
        L = rng.standard_normal(pre + (n,)).astype(rdt)
        L[rng.random(L.shape) < 0.4] = 0
        W = rng.standard_normal((2 * w,) * dim + (n,)).astype(rdt)
        U0, L0, W0, n0 = U.copy(), L.copy(), W.copy(), near.copy()
        ok, _ = guarded(bad, desc, lambda: k(lag_grid_field=L, eul_grid_field=U, interp_weights=W,
                                             nearest_eul_grid_index_to_lag_grid=near))
        runs += 1
        if not ok:
            continue
        if which == "interpolation":
            bad.check(L, interp_ref(U0, W0, n0, dx, dim, w), real, scale=8, out="lag field", **desc)
            bad.exact(U, U0, out="eul field", **desc)
        else:
            bad.check(U, spread_ref(U0, L0, W0, n0, dim, w), real, scale=8, out="eul field", **desc)
            bad.exact(L, L0, out="lag field", **desc)
        bad.exact(W, W0, out="weights", **desc)
        bad.exact(near, n0, out="nearest index", **desc)
    for q in (0, dim + 1, 2 if dim == 3 else 3):
        runs += 1
        kw = dict(num_lag_nodes=3, interp_kernel_width=w, n_components=q)
        if which == "interpolation":
            kw["dx"] = rdt(0.5)
        try:
            gen(name, dim)(**kw)
            bad.append(dict(what=which, components=q, error="accepted"))
        except Exception:
            pass
    return dict(runs=runs, bad=bad)


def scene(rng, dim, real, n, dx, sh, N):
    m, th, pos = positions(rng, dim, n, dx, sh, [1] * dim, [N[dim - 1 - d] - 2 for d in range(dim)])
    th = np.clip(th, 0.02, 0.98)
    rdt = DT[real][0]
    pos = (sh + dx * (m + th)).astype(rdt)
    return m, th, pos


def virtual_boundary(task):
    dim, real, reset = task["dim"], task["real"], task["reset"]
    rdt = DT[real][0]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(10)
    N = (10, 9) if dim == 2 else (8, 9, 10)
    for n, dx, mag in ((4, 0.25, 1), (1, 0.125, 1), (dim, 0.5, 1), (3, 0.25, 1e4), (2, 0.25, 0)):
        k, c, t0 = -3.0, -0.7, 0.5
        kw = dict(virtual_boundary_stiffness_coeff=k, virtual_boundary_damping_coeff=c, grid_dim=dim, dx=rdt(dx),
                  num_lag_nodes=n, real_t=rdt)
        if task["shift"]:
            sh = 0.375 * dx
            kw.update(eul_grid_coord_shift=rdt(sh), interp_kernel_width=2, start_time=t0)
        else:
            sh, t0 = dx / 2, 0.0
        if not reset:
            kw["enable_eul_grid_forcing_reset"] = False
        desc = dict(what="virtual boundary", dim=dim, real=real, reset=reset, markers=n, dx=dx)
        pos0 = rng.uniform(4 * dx, 5 * dx, (dim, n)).astype(rdt)
        rest = others(ib().VirtualBoundaryForcing, kw, lambda k: k.compute_interaction_forcing(
            np.ones((dim,) + N, rdt), np.ones((dim,) + N, rdt), pos0.copy(), np.zeros((dim, n), rdt)), lambda k: k.time_step(0.5))
        ok, o = guarded(bad, desc, lambda: ib().VirtualBoundaryForcing(**kw))
        if not ok:
            continue
        rest += others(ib().VirtualBoundaryForcing, kw)
        P = np.zeros((dim, n))
        t = t0
        bad.exact(o.lag_grid_position_mismatch_field, P, out="initial position mismatch", **desc)
        E = (max(mag, 1) * rng.standard_normal((dim,) + N)).astype(rdt)
        meths = ["compute_interaction_forcing", "compute_interaction_force_on_lag_grid",
                 "compute_interaction_force_on_eul_and_lag_grid"]
        if reset:
            meths.append("compute_interaction_force_on_eul_and_lag_grid_with_eul_grid_forcing_reset")
        M, keep = None, {}
        for step in range(6):
            meth = meths[step % len(meths)]
            m, th, pos = scene(rng, dim, real, n, dx, sh, N)
            U = (mag * rng.standard_normal((dim,) + N)).astype(rdt)
            B = (mag * rng.standard_normal((dim, n))).astype(rdt)
            U, B, pos = same_arrays(keep, step % 3 > 0, U, B, pos)
            W = weight(m, th, dim, "cosine", dx)
            M = interp_ref(U, W, m, dx, dim, 2) - B
            F = k * P + c * M
            want = E.astype(float)
            if meth == "compute_interaction_force_on_lag_grid":
                args = (U, pos, B)
            else:
                args = (E, U, pos, B)
                base = np.zeros_like(want) if (meth.endswith("reset") or (step % len(meths) == 0 and reset)) else want
                want = spread_ref(base, F, W, m, dim, 2)
            cp = [a.copy() for a in (U, pos, B)]
            d = dict(desc, step=step, method=meth)
            disturb(rest, lambda k: k.compute_interaction_forcing(np.ones_like(E), np.ones_like(U), pos.copy(),
                                                                  np.zeros_like(B)), lambda k: k.time_step(0.5))
            ok, _ = guarded(bad, d, lambda: getattr(o, meth)(*args))
            runs += 1
            if not ok:
                break
            sc = dx ** -dim * 8 * max(mag, 1)
            disturb(rest, lambda k: k.compute_interaction_force_on_lag_grid(np.ones_like(U), pos.copy(), np.zeros_like(B)),
                    lambda k: k.time_step(0.5))
            bad.check(o.lag_grid_velocity_mismatch_field, M, real, out="velocity mismatch", scale=8 * max(mag, 1), **d)
            bad.check(o.lag_grid_forcing_field, F, real, out="force", scale=8 * max(mag, 1), **d)
            bad.check(o.lag_grid_position_mismatch_field, P, real, out="position mismatch", scale=8 * max(mag, 1), **d)
            bad.check(E, want, real, out="Eulerian force", scale=sc, **d)
            for a, b, nm in zip((U, pos, B), cp, ("velocity", "positions", "body velocity")):
                bad.exact(a, b, out="input " + nm, **d)
            bad.check(np.array(o.time), np.array(t), real, out="time", **d)
            if bad:
                break
            disturb(rest, lambda k: k.compute_interaction_force_on_lag_grid(np.ones_like(U), pos.copy(), np.zeros_like(B)),
                    lambda k: k.time_step(0.5))
            for rep in range(step % 3):
                dt = 0.25 + 0.125 * step + rep * 0.5
                ok, _ = guarded(bad, d, lambda: o.time_step(dt))
                if not ok:
                    break
                P = P + dt * M
                t += dt
                bad.check(o.lag_grid_position_mismatch_field, P, real, out="position mismatch after the step", scale=8 * max(mag, 1),
                          **d)
                bad.check(np.array(o.time), np.array(t), real, out="time after the step", **d)
    for g in (1, 4):
        runs += 1
        try:
            ib().VirtualBoundaryForcing(-1.0, -1.0, g, rdt(0.5), 3, rdt)
            bad.append(dict(what="virtual boundary", grid_dim=g, error="accepted"))
        except Exception:
            pass
    return dict(runs=runs, bad=bad)


def same_arrays(keep, reuse, *arrs):
    """with reuse: the array objects of the previous step, with the new contents"""
    if reuse and "a" in keep:
        for o, a in zip(keep["a"], arrs):
            o[...] = a
    else:
        keep["a"] = arrs
    return keep["a"]


def brinkmann_forcing(task):
    import sopht.numeric.immersed_boundary_ops.experimental.BrinkmannBoundaryForcing as X
    dim, real, reset = task["dim"], task["real"], task["reset"]
    rdt = DT[real][0]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(11)
    N = (10, 9) if dim == 2 else (8, 9, 10)
    for n, dx, mag in ((4, 0.25, 1), (1, 0.125, 1), (dim, 0.5, 1), (3, 0.25, 1e4), (2, 0.25, 0)):
        lam, sh = 3.0, 0.375 * dx
        kw = dict(brinkmann_coeff=lam, grid_dim=dim, dx=rdt(dx), eul_grid_coord_shift=rdt(sh), num_lag_nodes=n,
                  interp_kernel_width=2, real_t=rdt)
        if not reset:
            kw["enable_eul_grid_flux_reset"] = False
        desc = dict(what="Brinkmann forcing", dim=dim, real=real, reset=reset, markers=n, dx=dx)
        pos0 = rng.uniform(4 * dx, 5 * dx, (dim, n)).astype(rdt)
        rest = others(X.BrinkmannBoundaryForcing, kw, lambda k: k.compute_interaction_forcing(
            np.ones((dim,) + N, rdt), np.ones((dim,) + N, rdt), pos0.copy(), np.zeros((dim, n), rdt), 0.5))
        ok, o = guarded(bad, desc, lambda: X.BrinkmannBoundaryForcing(**kw))
        if not ok:
            continue
        rest += others(X.BrinkmannBoundaryForcing, kw)
        E = (max(mag, 1) * rng.standard_normal((dim,) + N)).astype(rdt)
        meths = ["compute_interaction_forcing", "compute_interaction_without_eul_grid_flux_reset"]
        if reset:
            meths.append("compute_interaction_with_eul_grid_flux_reset")
        keep = {}
        for step in range(6):
            meth = meths[step % len(meths)]
            dt = 0.25 * (step + 1)
            m, th, pos = scene(rng, dim, real, n, dx, sh, N)
            U = (mag * rng.standard_normal((dim,) + N)).astype(rdt)
            B = (mag * rng.standard_normal((dim, n))).astype(rdt)
            U, B, pos = same_arrays(keep, step % 3 > 0, U, B, pos)
            W = weight(m, th, dim, "cosine", dx)
            u = interp_ref(U, W, m, dx, dim, 2)
            pen = (u + lam * dt * B) / (1 + lam * dt)
            flux = pen - u
            rs = meth.endswith("with_eul_grid_flux_reset") or (step % len(meths) == 0 and reset)
            base = np.zeros((dim,) + N) if rs else E.astype(float)
            want = spread_ref(base, flux, W * dx ** dim, m, dim, 2)
            cp = [a.copy() for a in (U, pos, B)]
            d = dict(desc, step=step, method=meth)
            disturb(rest, lambda k: k.compute_interaction_forcing(np.ones_like(E), np.ones_like(U), pos.copy(),
                                                                  np.zeros_like(B), 0.5))
            ok, _ = guarded(bad, d, lambda: getattr(o, meth)(E, U, pos, B, dt))
            runs += 1
            if not ok:
                break
            disturb(rest, lambda k: k.compute_interaction_forcing(np.ones_like(E), np.ones_like(U), pos.copy(),
                                                                  np.zeros_like(B), 0.5))
            for nm, w in (("lag_grid_flow_velocity_field", u), ("lag_grid_penalised_velocity_field", pen),
                          ("lag_grid_penalisation_flux", flux),
                          ("lag_grid_penalisation_forcing", dx ** dim * flux / dt)):
                bad.check(getattr(o, nm), w, real, out=nm, scale=8 * max(mag, 1), **d)
            bad.check(E, want, real, out="Eulerian flux", scale=8 * max(mag, 1), **d)
            for a, b, nm in zip((U, pos, B), cp, ("velocity", "positions", "body velocity")):
                bad.exact(a, b, out="input " + nm, **d)
            if bad:
                break
    return dict(runs=runs, bad=bad)


# ------------------------------------------------------------------ C15: memory
OUT = []


class Guarded(np.ndarray):
    """array that reports accesses outside its extents (numpy wraps or truncates
    them silently)"""

    def _look(self, idx):
        idx = idx if isinstance(idx, tuple) else (idx,)
        if any(isinstance(i, np.ndarray) and i.dtype == bool for i in idx):
            return
        k = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if any(i is Ellipsis for i in idx):
            j = [i is Ellipsis for i in idx].index(True)
            idx = idx[:j] + (slice(None),) * (self.ndim - k) + idx[j + 1:]
        d = 0
        for i in idx:
            if i is None:
                continue
            n = self.shape[d] if d < self.ndim else 0
            if isinstance(i, slice):
                for e in (i.start, i.stop):
                    # negative ends count from the end on purpose only as literals -1..-n
                    if e is not None and not -n <= e <= n:
                        OUT.append("slice %s of an axis of %d" % (i, n))
                if i.start is not None and i.stop is not None and i.start < 0 <= i.stop:
                    OUT.append("slice %s of an axis of %d" % (i, n))
            else:
                a = np.asarray(i)
                if a.size and (a.min() < -1 or a.max() >= n):
                    OUT.append("index %s of an axis of %d" % (a.min() if a.min() < -1 else a.max(), n))
            d += 1

    def __getitem__(self, idx):
        self._look(idx)
        return np.ndarray.__getitem__(self, idx)

    def __setitem__(self, idx, v):
        self._look(idx)
        np.ndarray.__setitem__(self, idx, v)


def guard_array(a):
    return np.ascontiguousarray(a).view(Guarded)


def memory(task):
    """accesses of one immersed boundary kernel, markers with their support inside"""
    dim, w, real, nc, func = task["dim"], task.get("width", 2), task["real"], task.get("ncomp", 1), task["func_of"]
    rdt = DT[real][0]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(21)
    for N in ([(2 * w, 2 * w + 3), (9, 7)] if dim == 2 else [(2 * w, 2 * w + 1, 2 * w + 2), (7, 8, 6)]):
        for n in (1, 5):
            dx = 0.25
            near = np.stack([rng.integers(w - 1, N[dim - 1 - d] - w, n) for d in range(dim)])
            near[:, 0] = w - 1
            near[:, -1] = [N[dim - 1 - d] - w - 1 for d in range(dim)] if n > 1 else near[:, -1]
            th = rng.random((dim, n)) * 0.9 + 0.05
            pos = (dx * (near + th)).astype(rdt)
            sup = dist(near, th, dim, w, dx).astype(rdt)
            W = rng.standard_normal((2 * w,) * dim + (n,)).astype(rdt)
            pre = (nc,) if nc > 1 else ()
            U, L = rng.standard_normal(pre + N).astype(rdt), rng.standard_normal(pre + (n,)).astype(rdt)
            if func == "support":
                k = gen("local_eulerian_grid_support_of_lagrangian_grid", dim)(
                    dx=rdt(dx), eul_grid_coord_shift=rdt(0), num_lag_nodes=n, interp_kernel_width=w)
                a = dict(local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos)
            elif func == "weights":
                k = gen("%s_interpolation_weights" % task["kind"], dim)(dx=rdt(dx), interp_kernel_width=2, real_t=rdt)
                a = dict(interp_weights=W, local_eul_grid_support_of_lag_grid=sup)
            else:
                nm = "eulerian_to_lagrangian" if func == "interpolation" else "lagrangian_to_eulerian"
                kw = dict(num_lag_nodes=n, interp_kernel_width=w, n_components=nc)
                if func == "interpolation":
                    kw["dx"] = rdt(dx)
                k = gen(nm + "_grid_interpolation", dim)(**kw)
                a = dict(lag_grid_field=L, eul_grid_field=U, interp_weights=W, nearest_eul_grid_index_to_lag_grid=near)
            OUT.clear()
            runs += 1
            try:
                k(**{x: guard_array(y) for x, y in a.items()})
            except IndexError as e:
                OUT.append(str(e))
            except Exception as e:
                OUT.append("%s: %s" % (type(e).__name__, e))
            if OUT:
                bad.append(dict(kernel=func, dim=dim, width=w, ncomp=nc, grid=list(N), markers=n, access=OUT[0]))
    return dict(runs=runs, bad=bad[:3])
