"""Concrete replay for the boundary setters of any width."""
import numpy as np

from . import concrete as K
from .concrete_special import Bad, DT, eul, guarded


def widths(task):
    K.load()
    bad, runs = Bad(), 0
    dim, vec = task["dim"], task["ftype"] == "vector"
    rdt = DT[task["real"]][0]
    rng = np.random.default_rng(6)
    for w in (1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17):
        desc = dict(width=w, dim=dim, ftype=task["ftype"], real=task["real"])
        ok, k = guarded(bad, desc, lambda: getattr(eul(), "gen_set_fixed_val_at_boundaries_pyst_kernel_%dd" % dim)(
            real_t=rdt, width=w, num_threads=K.nthreads(task["threads"], w), field_type=task["ftype"]))
        if not ok:
            break
        for off in ((0, 0, 0), (1, w, 2 * w + 1), (2 * w + 2, w + 1, w + 3), (2 * w, 2 * w, 2 * w)):
            sz = tuple(w + x for x in off[:dim])
            for style in range(2):
                runs += 1
                f = rng.standard_normal(((dim,) if vec else ()) + sz).astype(rdt)
                val = [float(rdt(x)) for x in rng.standard_normal(dim)]
                if style:       # part of the ring holds the value already
                    for q, g in enumerate(f if vec else [f]):
                        g[[0, -1]] = val[q]
                old = f.copy()
                inner = np.zeros(sz, bool)
                inner[tuple(slice(w, n - w) if n > 2 * w else slice(0, 0) for n in sz)] = True
                ok, _ = guarded(bad, desc, lambda: k(**({"vector_field": f, "fixed_vals": list(val)} if vec else
                                                        {"field": f, "fixed_val": val[0]})))
                for q in range(dim if vec else 1):
                    g, o = (f[q], old[q]) if vec else (f, old)
                    bad.exact(g, np.where(inner, o, rdt(val[q])), size=list(sz), comp=q, **desc)
        if bad:
            break
    return dict(runs=runs, bad=bad[:3])


def zones(task):
    contracts = K.load()
    bad, runs = [], 0
    gen = "gen_penalise_field_boundary_pyst_kernel_%dd" % task["dim"]
    for w in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17):
        opts = dict(width=w)
        if task["ftype"] is not None:
            opts["field_type"] = task["ftype"]
        con = contracts.get(gen, opts)
        sz = tuple(2 * w + k for k in ((3, 0, 1) if w < 8 else (0, 2, 1))[:task["dim"]])
        bad += K.run_contract(contracts, con, task["real"], K.nthreads(task["threads"], w), sz if task.get("fixed") else None, None, sz,
                              31 * w)
        runs += 1
        if bad:
            break
    return dict(runs=runs, bad=bad[:3])
