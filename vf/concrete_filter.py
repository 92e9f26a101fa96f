"""Concrete replay for the filter of any order."""
import numpy as np

from . import concrete as K
from .concrete_special import Bad, DT, eul, guarded

ORDERS = (0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 17, 33)


def one(f, a):
    g = np.zeros_like(f)
    ax = 2 - a
    v = (2 * f - np.roll(f, 1, ax) - np.roll(f, -1, ax)) / 4
    g[1:-1, 1:-1, 1:-1] = v[1:-1, 1:-1, 1:-1]
    return g


def reference(f, order, kind):
    if order == 0:
        return f
    r = f.copy()
    for axes in ((0, 1, 2),) if kind == "multiplicative" else ((0,), (1,), (2,)):
        h = r
        for _ in range(order):
            for a in axes:
                h = one(h, a)
        r = r - h
    return r


def orders(task):
    K.load()
    bad, runs = Bad(), 0
    rdt = DT[task["real"]][0]
    rng = np.random.default_rng(5)
    vec = task["ftype"] == "vector"
    for o in task.get("orders") or ORDERS:
        for n, sz in enumerate([(3, 3, 3), (4, 6, 5), (7, 5, 6)]):
            desc = dict(order=o, size=list(sz), ftype=task["ftype"], kind=task["kind"], real=task["real"])
            fl, fb = (rng.standard_normal(sz).astype(rdt) for _ in range(2))
            ok, k = guarded(bad, desc, lambda: eul().gen_laplacian_filter_kernel_3d(
                filter_order=o, filter_flux_buffer=fl, field_buffer=fb, real_t=rdt, num_threads=K.nthreads(task["threads"], n),
                field_type=task["ftype"], filter_type=task["kind"],
                **(dict(fixed_grid_size=sz) if task.get("fixed") else {})))
            if not ok:
                break
            for use in range(2):
                runs += 1
                fl[...], fb[...] = 3, -2
                f = rng.standard_normal(((3,) if vec else ()) + sz).astype(rdt)
                f0 = f.astype(float)
                ok, _ = guarded(bad, desc, lambda: k(**{"vector_field" if vec else "scalar_field": f}))
                want = np.array([reference(g, o, task["kind"]) for g in f0]) if vec else reference(f0, o, task["kind"])
                bad.check(f, want, task["real"], use=use, **desc)
        if bad:
            break
    return dict(runs=runs, bad=bad[:3])
