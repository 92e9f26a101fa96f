"""C16: unsupported options are rejected, and the precision helpers.

An unsupported value is represented by a token that differs from every value
the code compares it with (one token stands for every such value), a symbolic
integer below the admissible range for widths and orders, plus named values."""
import inspect

import numpy as np

from . import special as X
from . import sym as S
from . import term as T
from . import verify as V
from .sym import Unsupported

REAL = [("float16", np.float16), ("int32", np.int32), ("int64", np.int64), ("complex128", np.complex128),
        ("complex64", np.complex64), ("longdouble", np.longdouble), ("bool", np.bool_), ("'quad'", "quad")]
CONC = "vf.concrete_reject"


class Other:
    """any value different from those the code knows; usable as a type"""

    def __init__(self, what):
        self.what = what

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __hash__(self):
        return 77

    def __call__(self, x=0, *a, **k):
        return x

    def __bool__(self):
        return True

    def __str__(self):
        return "<any other %s>" % self.what

    __repr__ = __str__


def options(ps, gen):
    """(parameter, name of the bad value, value or 'neg')"""
    out = [("real_t", n, v) for n, v in REAL] + [("real_t", "any other", Other("real_t"))]
    if "field_type" in ps:
        out += [("field_type", repr(v), v) for v in ("tensor", "matrix", "")]
        out.append(("field_type", "any other", Other("field_type")))
    if "filter_type" in ps:
        out += [("filter_type", repr(v), v) for v in ("gauss", "box", "")]
        out.append(("filter_type", "any other", Other("filter_type")))
    if "filter_order" in ps:
        out += [("filter_order", "-1", -1), ("filter_order", "1.5", 1.5)]
    if "width" in ps:
        out += [("width", "-1", -1), ("width", "-2", -2), ("width", "1.5", 1.5)]
        if "boundaries" in gen:
            out.append(("width", "0", 0))
        out.append(("width", "any integer below the range", "neg"))
    return out


def base(con_fields, ps, dim, mk, scalar):
    """admissible values of the other arguments"""
    b = {}
    for p in ps.values():
        if p.name == "real_t":
            continue
        if p.name in con_fields:
            b[p.name] = mk(p.name, con_fields[p.name])
        elif p.name == "width":
            b[p.name] = 2
        elif p.name == "filter_order":
            b[p.name] = 1
        elif p.name == "filter_type":
            b[p.name] = "multiplicative"
        elif p.default is inspect._empty and p.name != "num_threads":
            b[p.name] = scalar(p.name)
    return b


def contract_of(gen):
    from . import contracts, props
    for o in props.variants(gen, widths=(2,), orders=(1,)):
        c = contracts.get(gen, o)
        if c is not None:
            return c
    raise Unsupported("no contract for " + gen)


def generator(gen):
    fn = V.orig(gen)
    if fn is None:
        raise Unsupported("generator %s not found" % gen)
    con = contract_of(gen)
    ps = inspect.signature(fn).parameters

    def build(c):
        sz = [S.ivar(n) for n in V.AX[con.dim]]
        for s in sz:
            c.assume(s >= 8)
        kinds = {f.name: f.kind for f in con.fields if f.gen}

        def mk(name, kind):
            return X.field(name, ([con.dim] if kind == "vector" else []) + sz)

        def scalar(name):
            v = S.rvar(name)
            c.assume(v > 0)
            return v
        b = base(kinds, ps, con.dim, mk, scalar)
        for p, name, v in options(ps, gen):
            if v == "neg":
                w = S.ivar("width")
                c.assume(w < (1 if "boundaries" in gen else 0))
                v = w
            kw = dict(b, **{p: v})
            if p != "real_t":
                kw["real_t"] = X.rt("f64")
            X.rejects(c, lambda: fn(**kw), "%s=%s" % (p, name))
        ok, _ = X.vacuous_total(c, lambda: fn(real_t=X.rt("f64"), **b), "admissible options are accepted")
    return X.run(gen, build, "f64", "unsupported options", modular=False, file=V.source_of(fn),
                 replay=dict(type="special", module=CONC, func="generator", gen=gen, dim=con.dim))


def helpers():
    from . import install

    def f(name):
        for m in install.sopht_modules():
            v = m.__dict__.get(name)
            if v is not None:
                return v
        raise Unsupported(name + " not found")

    def build(c):
        def want(name, ok):
            c.oblige("post", name, T.TRUE if ok else T.FALSE)
        from . import npx
        real, tol, dt, cfg = f("get_real_t"), f("get_test_tol"), f("get_pyst_dtype"), f("get_pyst_kernel_config")
        is_t = lambda a, t: a is t or a == t or a is npx.real_type(t) or getattr(a, "np_t", None) is t
        for p, t, d in (("single", np.float32, "float32"), ("double", np.float64, "float64")):
            want("get_real_t('%s')" % p, is_t(real(p), t))
            want("get_real_t(precision='%s')" % p, is_t(real(precision=p), t))
            want("get_test_tol('%s')" % p, float(tol(p)) == float(t(1e3) * np.finfo(t).eps))
            want("get_pyst_dtype(%s)" % d, dt(npx.real_type(t)) == d and dt(t) == d)
        want("default precision is single", is_t(real(), np.float32) and float(tol()) == float(tol("single")))
        for v in (Other("precision"), "half", "quad", ""):
            X.rejects(c, lambda: real(v), "get_real_t(%r)" % (v,))
            X.rejects(c, lambda: tol(v), "get_test_tol(%r)" % (v,))
        for n, v in REAL + [("any other", Other("real_t"))]:
            X.rejects(c, lambda: dt(v), "get_pyst_dtype(%s)" % n)
            X.rejects(c, lambda: cfg(v, 1), "get_pyst_kernel_config(%s)" % n)
    return X.run("precision helpers", build, "f64", "", modular=False, file="sopht/utils/precision.py",
                 replay=dict(type="special", module=CONC, func="helpers"))
