"""Concrete replays of the class-level contracts: the real code on concrete data
against independent numpy oracles.  Each function returns dict(runs, bad)."""
import numpy as np

from .concrete import nthreads

DT = {"f32": (np.float32, np.complex64), "f64": (np.float64, np.complex128)}


def close(a, b, real, scale=1.0):
    tol = (2e-3 if real == "f32" else 1e-8) * max(1.0, scale)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol)) and not np.any(np.isnan(a))


def first_bad(a, b, real, scale=1.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return dict(shape_got=list(a.shape), shape_expected=list(b.shape))
    tol = (2e-3 if real == "f32" else 1e-8) * max(1.0, scale)
    m = ~(np.abs(a - b) <= tol)
    w = tuple(int(x) for x in np.argwhere(m)[0])
    return dict(at=list(w), got=str(a[w]), expected=str(b[w]))


class Bad(list):
    def check(self, got, want, prec, scale=1.0, **desc):
        if not close(got, want, prec, scale):
            self.append(dict(desc, **first_bad(got, want, prec, scale)))

    def exact(self, got, want, **desc):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
            self.append(dict(desc, got=str(got.shape if got.shape != want.shape else got[got != want][:1]),
                             expected=str(want.shape if got.shape != want.shape else want[got != want][:1])))


def guarded(bad, desc, fn):
    try:
        return True, fn()
    except Exception as e:
        bad.append(dict(desc, error="%s: %s" % (type(e).__name__, str(e)[:200])))
        return False, None


ALT = {"cosine": "peskin", "peskin": "cosine"}


def variants(kw):
    """the same arguments, and the same with one argument changed"""
    for k, v in kw.items():
        if isinstance(v, (bool, np.bool_)):
            w = not v
        elif v is np.float32 or v is np.float64:
            w = np.float64 if v is np.float32 else np.float32
        elif isinstance(v, (int, np.integer)) and k not in ("grid_dim", "num_threads", "n_components",
                                                            "interp_kernel_width"):
            w = v + 1
        elif isinstance(v, (float, np.floating)):
            w = type(v)(v * 1.5)
        elif isinstance(v, str):
            w = ALT.get(v) or (v.replace("neumann", "dirichlet") if "neumann" in v else v.replace("dirichlet", "neumann"))
            if w == v:
                continue
        else:
            continue
        yield dict(kw, **{k: w})
    yield dict(kw)


def others(ctor, kw, *uses):
    """other instances alive at the same time, some already used: they must not matter"""
    out = []
    for v in variants(kw):
        try:
            o = ctor(**v)
            out.append(o)
            for u in uses:
                u(o)
        except Exception:
            pass
    return out


def disturb(objs, *calls):
    """use the other instances; only what they leave behind is of interest"""
    for o in objs:
        for fn in calls:
            try:
                fn(o)
            except Exception:
                pass


def eul():
    import sopht.numeric.eulerian_grid_ops as e
    return e


def sizes(dim):
    return [(4, 6), (5, 7), (6, 3), (1, 4), (8, 8)] if dim == 2 else [(4, 6, 5), (3, 4, 6), (2, 5, 7), (6, 4, 4)]


def names(dim):
    return ("grid_size_y", "grid_size_x") if dim == 2 else ("grid_size_z", "grid_size_y", "grid_size_x")


def fft_use(sz, spec, rdt, cdt):
    noise = np.linspace(1, 2, int(np.prod(sz))).reshape(sz).astype(rdt)
    return lambda k: k.fft_plan(input_array=noise, output_array=np.zeros(spec, cdt))


def solver_use(sz, rdt):
    noise = np.linspace(1, 2, int(np.prod(sz))).reshape(sz).astype(rdt)
    return lambda k: k.solve(solution_field=np.zeros(sz, rdt), rhs_field=noise)


def content(rng, sh, rep, dt, gaps=True):
    """inputs: random, zero, constant, zero on a plane or component, a single nonzero
    value, a view with gaps"""
    a = rng.standard_normal(sh).astype(dt)
    if rep == 2:
        a[...] = 0
    elif rep == 3:
        a[...] = 1.5
    elif rep == 4:
        a[-1] = 0
    elif rep == 5:
        a[...] = 0
        a[tuple(n // 2 for n in sh)] = 2
    elif rep == 6 and gaps:
        big = np.full(tuple(n + 3 for n in sh), 9, dt)
        v = big[tuple(slice(1, n + 1) for n in sh)]
        v[...] = a
        a = v
    return a


def fft(task):
    dim, real, th = task["dim"], task["real"], nthreads(task.get("threads", 1))
    rdt, cdt = DT[real]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(7)
    for sz in sizes(dim):
        spec = sz[:-1] + (sz[-1] // 2 + 1,)
        desc = dict(which=task["which"], dim=dim, real=real, size=list(sz))
        o = None
        if task["which"] == "pyfftw":
            kw = dict(num_threads=th, real_t=rdt, **dict(zip(names(dim), sz)))
            K = getattr(eul(), "FFTPyFFTW%dD" % dim)
            rest = others(K, kw, fft_use(sz, spec, rdt, cdt))
            ok, o = guarded(bad, desc, lambda: K(**kw))
            if not ok:
                continue
            rest += others(K, kw)
            noise = rng.standard_normal(sz).astype(rdt)
            disturb(rest, lambda k: k.fft_plan(input_array=noise, output_array=np.zeros(spec, cdt)))
            bad.exact(o.field_pyfftw_buffer.shape, sz, what="buffer shape", **desc)
            bad.exact(o.fourier_field_pyfftw_buffer.shape, spec, what="spectrum shape", **desc)
        for rep in range(6):
            runs += 1
            f = content(rng, sz, rep, rdt)
            f0 = f.copy()
            h = np.full(spec, 7, cdt)
            g = np.full(sz, 7, rdt)
            d = dict(desc, use=rep)
            if task["which"] == "scipy":
                ok, _ = guarded(bad, d, lambda: getattr(eul(), "fft_ifft_via_scipy_kernel_%dd" % dim)(
                    fourier_field=h, inv_fourier_field=g, field=f, num_threads=th))
                if ok:
                    bad.check(h, np.fft.rfftn(f0), real, 30, what="spectrum", **d)
                    bad.check(g, f0, real, what="round trip", **d)
                    bad.exact(f, f0, what="input modified", **d)
                continue
            ok, _ = guarded(bad, d, lambda: o.fft_plan(input_array=f, output_array=h))
            if ok:
                bad.check(h, np.fft.rfftn(f0), real, 30, what="spectrum", **d)
                bad.exact(f, f0, what="input modified", **d)
                o.ifft_plan(input_array=h, output_array=g)
                bad.check(g, f0, real, what="round trip", **d)
            g = np.full(sz, 7, rdt)
            ok, _ = guarded(bad, d, lambda: o.fft_ifft_plan_kernel(fourier_field=h, inv_fourier_field=g, field=f))
            if ok:
                bad.check(g, f0, real, what="fft_ifft_plan_kernel round trip", **d)
                bad.exact(f, f0, what="input modified", **d)
            o.field_pyfftw_buffer[...] = f0
            disturb(rest, lambda k: k.field_pyfftw_buffer.fill(3))
            o.fft_plan(input_array=o.field_pyfftw_buffer, output_array=o.fourier_field_pyfftw_buffer)
            disturb(rest, lambda k: k.fourier_field_pyfftw_buffer.fill(3))
            bad.check(o.fourier_field_pyfftw_buffer, np.fft.rfftn(f0), real, 30, what="own buffers", **d)
            o.ifft_plan(input_array=o.fourier_field_pyfftw_buffer, output_array=o.field_pyfftw_buffer)
            bad.check(o.field_pyfftw_buffer, f0, real, what="own buffers round trip", **d)
        if bad:
            break
    return dict(runs=runs, bad=bad[:5])


def free_space(rhs, dx):
    """direct summation with the free-space Green's function"""
    dim = rhs.ndim
    out = np.zeros(rhs.shape)
    idx = np.indices(rhs.shape).reshape(dim, -1)
    flat = rhs.astype(float).ravel()
    for k in range(idx.shape[1]):
        r = dx * np.sqrt(((idx - idx[:, k:k + 1]) ** 2).sum(axis=0))
        with np.errstate(divide="ignore"):
            if dim == 2:
                g = -np.log(r) / (2 * np.pi)
                g[k] = -(2 * np.log(dx / np.sqrt(np.pi)) - 1) / (4 * np.pi)
            else:
                g = 1 / (4 * np.pi * r)
                g[k] = 1 / (4 * np.pi * dx)
        out.ravel()[k] = (g * flat).sum() * dx ** dim
    return out


def poisson(task):
    dim, real, th = task["dim"], task["real"], nthreads(task.get("threads", 1))
    rdt, cdt = DT[real]
    bad, runs = Bad(), 0
    rng = np.random.default_rng(11)
    for n, sz in enumerate(sizes(dim)):
        L = (1.0, 2.5, 0.7, 3.0, 1.3)[n]
        desc = dict(dim=dim, real=real, size=list(sz), x_range=L, vector=task.get("vector"))
        kw = dict(x_range=L, num_threads=th, real_t=rdt, **dict(zip(names(dim), sz)))
        K = getattr(eul(), "UnboundedPoissonSolverPYFFTW%dD" % dim)
        rest = others(K, kw, solver_use(sz, rdt))
        ok, o = guarded(bad, desc, lambda: K(**kw))
        if not ok:
            break
        rest += others(K, kw)
        for rep in range(7):
            runs += 1
            d = dict(desc, solve=rep)
            sh = ((dim,) if task.get("vector") else ()) + sz
            noise = rng.standard_normal(sz).astype(rdt)
            disturb(rest, lambda k: k.solve(solution_field=np.zeros(sz, rdt), rhs_field=noise))
            rhs = content(rng, sh, rep, rdt)
            r0 = rhs.copy()
            sol = np.full(sh, 5, rdt)
            if task.get("vector"):
                ok, _ = guarded(bad, d, lambda: o.vector_field_solve(solution_vector_field=sol, rhs_vector_field=rhs))
                want = np.array([free_space(r0[q], L / sz[-1]) for q in range(dim)])
            else:
                ok, _ = guarded(bad, d, lambda: o.solve(solution_field=sol, rhs_field=rhs))
                want = free_space(r0, L / sz[-1])
            if not ok:
                break
            bad.check(sol, want, real, what="solution", **d)
            bad.exact(rhs, r0, what="right-hand side modified", **d)
        if bad:
            break
    return dict(runs=runs, bad=bad[:5])
