"""Concrete replay of the rejection contracts."""
import inspect

import numpy as np

from . import spec_reject as R
from .concrete_special import Bad, eul


def generator(task):
    from . import contracts, spec_grid      # noqa: F401
    bad, runs = Bad(), 0
    gen, dim = task["gen"], task["dim"]
    fn = getattr(eul(), gen)
    con = None
    ps = inspect.signature(fn).parameters
    from . import props
    for o in props.variants_of_params(ps, (2,), (1,)):
        con = con or contracts.get(gen, o)
    kinds = {f.name: f.kind for f in con.fields if f.gen}
    mk = lambda name, kind: np.zeros(((dim,) if kind == "vector" else ()) + (8,) * dim)
    b = R.base(kinds, ps, dim, mk, lambda n: 0.25)
    for p, name, v in R.options(ps, gen):
        for w in ((-1, -3, -7) if isinstance(v, str) and v == "neg" else (v,)):
            kw = dict(b, **{p: w})
            if p != "real_t":
                kw["real_t"] = np.float64
            runs += 1
            try:
                fn(**kw)
                bad.append(dict(gen=gen, accepted="%s=%s" % (p, name if v != "neg" else w)))
            except Exception:
                pass
    runs += 1
    try:
        fn(real_t=np.float64, **b)
    except Exception as e:
        bad.append(dict(gen=gen, rejected="admissible options", error=str(e)[:200]))
    return dict(runs=runs, bad=bad)


def helpers(task):
    import sopht.utils.precision as P
    import sopht.utils.pyst_kernel_config as K
    bad, runs = Bad(), 0
    for p, t, d in (("single", np.float32, "float32"), ("double", np.float64, "float64")):
        runs += 1
        for what, got, want in (("get_real_t", P.get_real_t(p), t),
                                ("get_test_tol", float(P.get_test_tol(p)), float(t(1e3) * np.finfo(t).eps)),
                                ("get_pyst_dtype", K.get_pyst_dtype(t), d)):
            if got != want:
                bad.append(dict(what=what, precision=p, got=str(got), expected=str(want)))
    if P.get_real_t() is not np.float32:
        bad.append(dict(what="default precision", got=str(P.get_real_t())))
    for v in (R.Other("precision"), "half", "quad", ""):
        for fn in (P.get_real_t, P.get_test_tol):
            runs += 1
            try:
                fn(v)
                bad.append(dict(what=fn.__name__, accepted=repr(v)))
            except Exception:
                pass
    for n, v in R.REAL + [("any other", R.Other("real_t"))]:
        for fn in (K.get_pyst_dtype, lambda x: K.get_pyst_kernel_config(x, 1)):
            runs += 1
            try:
                fn(v)
                bad.append(dict(what="precision helper", accepted=n))
            except Exception:
                pass
    return dict(runs=runs, bad=bad)
