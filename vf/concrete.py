"""Runs the real, compiled code on concrete data and compares it with the
contract (replay of failed obligations; bounded stand-in where a function is
outside the verifier's reach).

  python -m vf.concrete task.json     -> JSON on stdout
"""
import inspect
import itertools
import json
import os
import sys
import time

import numpy as np

DTC = {"f32": (np.float32, np.complex64), "f64": (np.float64, np.complex128)}
TOL = {"f32": 3e-4, "f64": 1e-9}
PAD = 4


def load():
    from . import install
    install.import_sopht()
    from . import contracts
    from . import spec_grid          # noqa: F401
    return contracts


def originals():
    from . import install
    out = {}
    for m in install.sopht_modules():
        for v in list(m.__dict__.values()):
            if inspect.isfunction(v) and v.__module__.startswith("sopht") and v.__name__.startswith("gen_"):
                out.setdefault(v.__name__, v)
    return out


def draw(rng, shape, style):
    """random data; styles bring in ties, zeros and extremes"""
    if style == 0:
        return rng.standard_normal(shape)
    if style == 1:
        return rng.integers(-2, 3, shape).astype(float)
    if style == 2:
        x = np.where(rng.random(shape) < 0.5, 0.0, rng.standard_normal(shape) * 10)
        k = rng.random()
        if k < 0.2:
            x[...] = 0      # nothing there at all
        elif k < 0.5:
            x[rng.integers(0, shape[0])] = 0
        return x
    if style == 4:
        # planes (or whole components) of exact zeros
        x = rng.standard_normal(shape)
        ax = int(rng.integers(len(shape)))
        n = shape[ax]
        for q in [[0], [n // 2], [n - 1], [0, n - 1], [(n - 1) // 2, n // 2], list(range(1, n)), list(range(n - 1))][int(rng.integers(7))]:
            x[(slice(None),) * ax + (q,)] = 0
        return x
    if style == 5:
        return 1e-9 * rng.standard_normal(shape)
    return np.linspace(-1, 1, int(np.prod(shape))).reshape(shape) + 0.1 * rng.standard_normal(shape)


def sample(con, f, shape, rng, style, scal, sizes):
    kind = (con.sample or {}).get(f.name)
    if kind == "unit":
        x = rng.random(shape)
        if style == 2 and rng.random() < 0.6:
            return np.full(shape, float(rng.integers(0, 2)))
        return np.where(rng.random(shape) < 0.3, np.round(x), x)
    if kind and kind.startswith("level:"):
        b = scal[kind[6:]]
        x = rng.uniform(-2 * b, 2 * b, shape)
        k = rng.integers(0, 5, shape)
        return np.where(k == 0, b, np.where(k == 1, -b, np.where(k == 2, 0.0, x)))
    if kind and kind.startswith("mesh:"):
        a = "xyz".index(kind[5])
        d = con.dim - 1 - a
        line = (np.arange(sizes[d]) + 0.5 + 3 * a) * scal.get("dx", 0.1)
        sh = [1] * con.dim
        sh[d] = sizes[d]
        return np.broadcast_to(line.reshape(sh), shape).copy()
    return draw(rng, shape, style)


def place(data, dtype, padded):
    """array holding data, optionally as a view into a NaN-padded array"""
    if not padded:
        a = np.ascontiguousarray(data.astype(dtype))
        return a, None
    lead = data.ndim - padded
    big = np.full(data.shape[:lead] + tuple(n + 2 * PAD for n in data.shape[lead:]), np.nan, dtype)
    view = big[(slice(None),) * lead + (slice(PAD, -PAD),) * padded]
    view[...] = data.astype(dtype)
    return view, big


def nthreads(threads, k=0):
    return threads if threads != "any" else (4, 1, 2, 3, 8, 5)[k % 6]


def run_contract(contracts, con, real="f64", threads=False, size=None, alias=None, sizes=None, seed=0, style=0,
                 padded=False, history=False, companions=False, zero=None):
    """-> list of mismatch records (empty: agrees)"""
    alias = alias or {}
    fixed = size is not None
    sizes = tuple(size) if fixed else tuple(sizes)
    rdt, cdt = DTC[real]
    rng = np.random.default_rng(seed)
    orig = originals()
    fn = orig.get(con.gen)
    if fn is None:
        return [dict(error="generator %s not found" % con.gen)]
    scal = {}
    for s in con.genscalars:
        scal[s] = float(rdt(rng.uniform(0.1, 1.0)))
    for s in con.scalars:
        v = rng.standard_normal() if s not in con.pos_scalars else rng.choice([0.0, 1.0]) if rng.integers(5) == 0 else rng.choice([1e-7, 3e7]) if rng.integers(5) == 0 else rng.uniform(0.1, 20)
        scal[s] = float(rdt(v))
        if style == 4 and s not in con.pos_scalars and rng.integers(3) == 0:
            scal[s] = 0.0
    for s in con.vscalars:
        scal[s] = [float(rdt(x)) for x in rng.standard_normal(con.dim)]
        if style in (2, 4, 5) and rng.integers(2) == 0:
            scal[s] = [scal[s][0] if style != 4 else 0.0] * con.dim
    arrs, bigs, before = {}, {}, {}
    for f in con.fields:
        if f.name in alias:
            continue
        shape = ((con.dim,) if f.kind == "vector" else ()) + sizes
        d = sample(con, f, shape, rng, style, scal, sizes)
        if f.name in con.havoc:
            d = rng.standard_normal(shape) * 1e3
        if f.kind == "complex":
            d = d + 1j * draw(rng, shape, style)
        if zero is not None and zero[0] == f.name:
            d = np.array(d)
            d[(slice(None),) * zero[1] + (zero[2],)] = 0
        arrs[f.name], bigs[f.name] = place(d, cdt if f.kind == "complex" else rdt,
                                           con.dim if padded and not fixed else 0)
    for a, b in alias.items():
        arrs[a], bigs[a] = arrs[b], bigs[b]
    for f in con.fields:
        before[f.name] = arrs[f.name].copy()
    sig = inspect.signature(fn)
    for f in con.fields:
        if f.gen and f.name in con.havoc:
            # scratch given to the generator: other contents until the call
            arrs[f.name][...] = 0
    gkw = dict(con.opts)
    gkw["real_t"] = rdt
    if "num_threads" in sig.parameters:
        gkw["num_threads"] = threads = nthreads(threads, seed)
    if fixed and "fixed_grid_size" in sig.parameters:
        gkw["fixed_grid_size"] = sizes
    call = {}
    for f in con.fields:
        (gkw if f.gen else call)[f.name] = arrs[f.name]
    for s in con.genscalars:
        gkw[s] = rdt(scal[s])
    for s in con.scalars:
        call[s] = rdt(scal[s])
    for s in con.vscalars:
        call[s] = [rdt(x) for x in scal[s]]
    desc = dict(contract=con.label, gen=con.gen, opts=con.opts, real=real, threads=threads, sizes=list(sizes),
                fixed=fixed, alias=alias, seed=seed, style=style, padded=bool(padded),
                scalars=scal, second_use=bool(history))
    try:
        if companions:
            companion_kernels(contracts, con, real, threads, size, sizes)
        kern = cached_kernel(fn, gkw, con, real, threads, sizes if fixed else None)
        if companions:
            companion_kernels(contracts, con, real, threads, size, sizes)
        for f in con.fields:
            if f.gen and f.name in con.havoc:
                arrs[f.name][...] = before[f.name]
        if history:
            # an earlier use of the same kernel on the same arrays, other contents
            for f in con.fields:
                if f.name not in alias and (not f.gen or f.name in con.havoc):
                    if style == 1:      # same values elsewhere: equal sums, norms, extremes
                        arrs[f.name][...] = before[f.name][(slice(None, None, -1),) * before[f.name].ndim]
                    else:
                        arrs[f.name][...] = np.abs(arrs[f.name]) + (0.5 if f.kind != "complex" else 0.5 + 0.5j)
            first = dict(call)
            for s in con.scalars if style != 1 else ():
                first[s] = rdt(0.5 * abs(scal[s]) + 0.25)
            for s in con.vscalars if style != 1 else ():
                first[s] = [rdt(0.5 * x + 0.25) for x in scal[s]]
            kern(**first)
            for f in con.fields:
                if f.name not in alias:
                    arrs[f.name][...] = before[f.name]
        kern(**call)
    except Exception as e:
        return [dict(desc, error="%s: %s" % (type(e).__name__, str(e)[:200]))]
    acc = {f.name: contracts.NumAcc(before[f.name], f.kind) for f in con.fields}
    E = contracts.NumEnv(con.dim, sizes, acc, scal)
    spec = con.spec(E)
    idx = np.meshgrid(*[np.arange(n) for n in sizes], indexing="ij")
    idx = tuple(idx)
    bad = []
    for f in con.fields:
        got = arrs[f.name]
        if bigs[f.name] is not None:
            big = bigs[f.name].copy()
            lead = big.ndim - con.dim
            big[(slice(None),) * lead + (slice(PAD, -PAD),) * con.dim] = np.nan
            if not np.all(np.isnan(big)):
                bad.append(dict(desc, what="write outside the array", field=f.name))
        if f.name in con.havoc or (f.name not in con.outputs and any(got is arrs[o] for o in con.outputs)):
            continue
        if f.name not in con.outputs:
            if not np.array_equal(got, before[f.name], equal_nan=True):
                w = np.argwhere(~((got == before[f.name]) | (np.isnan(got) & np.isnan(before[f.name]))))[0]
                bad.append(dict(desc, what="input modified", field=f.name, at=[int(x) for x in w]))
            continue
        for c in range(con.ncomp(f.name)):
            g = got[c] if f.kind == "vector" else (got.real if c == 0 else got.imag) if f.kind == "complex" else got
            g = np.asarray(g, np.float64)
            for tag, cond, val in spec[f.name](c, idx):
                val = np.broadcast_to(np.asarray(val, np.float64), sizes)
                m = np.ones(sizes, bool) if cond is None else np.broadcast_to(cond, sizes)
                if not m.any():
                    continue
                err = np.abs(g - val)
                if style == 5:
                    tol = TOL[real] * (100 * float(np.nanmax(np.abs(val[m]))) + 1e-9)
                else:
                    tol = TOL[real] * scale_for(con, before, val, m)
                ok = (err <= tol) | ~m
                ok &= ~(np.isnan(g) & m)
                if not ok.all():
                    w = tuple(int(x) for x in np.argwhere(~ok)[0])
                    bad.append(dict(desc, what="result differs from the contract", field=f.name, comp=c, region=tag,
                                    at=list(w), expected=float(val[w]), got=float(g[w])))
    return bad


def scale_for(con, before, val, m):
    s = max(1.0, float(np.nanmax(np.abs(val[m]))))
    for n, b in before.items():
        if n in con.havoc:
            continue
        s = max(s, float(np.nanmax(np.abs(b))) ** 2)
    return s


_NC = [0]


def companion_kernels(contracts, con, real, threads, size, sizes):
    """other kernels of the same generator (other options, precision, size):
    what they do must not matter to the one under test"""
    _NC[0] += 1
    todo = [(con.opts, "f64" if real == "f32" else "f32", size)]
    for o in option_variants(con.opts):
        todo.append((o, real, size))
    if size is not None:
        todo.append((con.opts, real, tuple(n + 1 for n in size)))
        todo.append((con.opts, real, tuple(reversed(size))))
        todo.append((con.opts, real, None))
    for o, r, sz in todo:
        k = contracts.get(con.gen, o)
        if k is None:
            continue
        try:
            run_contract(contracts, k, r, threads, sz, None, None if sz is not None else sizes, 900 + _NC[0], 0)
        except Exception:
            pass


def option_variants(opts):
    alt = {"field_type": ("scalar", "vector"), "filter_type": ("multiplicative", "convolution")}
    for k, v in opts.items():
        if isinstance(v, bool):
            yield dict(opts, **{k: not v})
        for w in alt.get(k, ()):
            if w != v:
                yield dict(opts, **{k: w})
        if isinstance(v, int) and not isinstance(v, bool):
            yield dict(opts, **{k: v + 1})


_K = {}


def cached_kernel(fn, gkw, con, real, threads, sizes):
    if any(f.gen for f in con.fields) or con.genscalars:
        return fn(**gkw)
    k = (con.label, str(sorted(con.opts.items())), real, threads, sizes)
    if k not in _K:
        _K[k] = fn(**gkw)
    return _K[k]


def size_list(con, extra=()):
    m = con.min_size
    base = [m, m + 1, m + 2, m + 4]
    out = []
    if con.dim == 2:
        out = [(m, m), (m, m + 3), (m + 4, m + 1), (m + 7, m + 2), (m + 5, m + 9)]
    else:
        out = [(m, m, m), (m, m + 2, m + 1), (m + 3, m, m + 4), (m + 4, m + 5, m + 2)]
    return [tuple(e) for e in extra] + out


# small magnitudes only in double precision, where products stay far above underflow
STYLES = {"f64": (0, 1, 2, 4, 5, 3), "f32": (0, 1, 2, 4, 4, 3)}


def battery(contracts, con, real="f64", threads=False, size=None, alias=None, extra_sizes=(), seeds=6, stop=1, zeros=True):
    """-> (mismatches, number of runs)"""
    bad, n = [], 0
    if size == "any":
        bad, n = [], 0
        m = con.min_size
        more = [(m, m), (8, 8), (32, 32), (64, 64), (65, 64), (m, 130), (300, m + 1), (128, 256)] if con.dim == 2 else [
            (m, m, m), (8, 8, 8), (16, 16, 16), (32, 32, 32), (m, m + 1, 40), (40, m, m + 1), (m, 70, m + 2)]
        t0 = time.time()
        for sz in [tuple(e) for e in extra_sizes] + more:
            if min(sz) >= con.min_size and time.time() - t0 < 100:
                b, k = battery(contracts, con, real, threads, sz, alias, (), 1, stop, n == 0)
                bad, n = bad + b, n + k
                if len(bad) >= stop:
                    break
        return bad, n
    sizes = [tuple(size)] if size is not None else size_list(con, extra_sizes)
    t0 = time.time()
    for seed in range(seeds):
        if seed >= 2 and time.time() - t0 > 60:
            break
        for sz in sizes:
            if min(sz) < con.min_size or np.prod(sz) > 400000:
                continue
            for padded in ((False, True) if size is None else (False,)):
                n += 1
                b = run_contract(contracts, con, real, threads, size, alias, sz, 1000 * seed + 7 * n, STYLES[real][seed % 6], padded,
                                 ((n + 1) // 2) % 2 == 0, n == 1)
                bad += b
                if len(bad) >= stop:
                    return bad, n
    if not zeros:
        return bad, n
    # exact zeros on planes, in components, everywhere: each field in turn
    sz = tuple(size) if size is not None else tuple(con.min_size + x for x in ((1, 2, 3) if con.dim == 3 else (2, 3)))
    for f in con.fields if np.prod(sz) <= 60000 else ():
        if f.name in (alias or {}) or f.name in con.havoc or (con.sample or {}).get(f.name, "").startswith("mesh"):
            continue
        shape = ((con.dim,) if f.kind == "vector" else ()) + sz
        for ax, q in zero_patterns(shape):
            if time.time() - t0 > 90:
                break
            n += 1
            bad += run_contract(contracts, con, real, threads, size, alias, sz, 5000 + n, 0, False, False, False,
                                (f.name, ax, q))
            if len(bad) >= stop:
                return bad, n
    return bad, n


def zero_patterns(shape):
    yield 0, list(range(shape[0]))
    for ax, n in enumerate(shape):
        seen = []
        for q in ([0], [n // 2], [n - 1], [0, n - 1], [1, n - 2], list(range(1, n)), list(range(n - 1)), list(range(1, n - 1))):
            q = sorted({x for x in q if 0 <= x < n})
            if q and q not in seen:
                seen.append(q)
                yield ax, q


def main():
    with open(sys.argv[1]) as f:
        task = json.load(f)
    contracts = load()
    out = dict(runs=0, bad=[])
    if "ssp_third" in task:
        from . import spec_grid
        spec_grid.SSP_THIRD[0] = task["ssp_third"]
    if task["type"] == "contract":
        con = contracts.get(task["gen"], task["opts"])
        if con is None:
            out["bad"] = [dict(error="no contract")]
        else:
            bad, n = battery(contracts, con, task.get("real", "f64"), task.get("threads", False), task.get("size"),
                             task.get("alias"), task.get("extra_sizes", ()), task.get("seeds", 6), 1, not task.get("short"))
            out = dict(runs=n, bad=bad)
    elif task["type"] == "special":
        import importlib
        mod = importlib.import_module(task["module"])
        out = getattr(mod, task["func"])(task)
    sys.stdout.write("\n@@RESULT@@" + json.dumps(out, default=str) + "\n")


if __name__ == "__main__":
    main()
