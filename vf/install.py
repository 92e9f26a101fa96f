"""Installs the symbolic environment into the sopht modules of this process."""
import builtins
import importlib
import re
import sys
import types

import numpy as np

from . import npx, loops, ckern, sym as S, term as T
from .sarr import SArr
from .sym import Unsupported

installed = False
KERNELS = []


def numba_stub():
    m = types.ModuleType("numba")

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    m.njit = m.jit = njit
    m.prange = range
    m.vectorize = njit
    m.__version__ = "stub"
    return m


def import_sopht():
    """import the real modules from /repo (numba replaced by identity)"""
    if "numba" not in sys.modules:
        sys.modules["numba"] = numba_stub()
    import sopht.utils.pyst_kernel_config
    import sopht.utils.precision
    import sopht.utils.IO
    import sopht.numeric.eulerian_grid_ops
    import sopht.numeric.immersed_boundary_ops
    import sopht.numeric.immersed_boundary_ops.experimental.BrinkmannBoundaryForcing


def sopht_modules():
    return [m for n, m in sorted(sys.modules.items()) if n.startswith("sopht") and m is not None]


# shapes (and strides in elements, None: dense) that fields of a symbolic fixed size ask
# for, by field name
SHAPES = {}


def vfields(real_fields):
    def fields(description=None, *a, **k):
        """pystencils.fields; in a description with symbolic numbers as shape the generic
        shape takes their place, and the kernels made of these fields require the shape"""
        if not isinstance(description, str):
            return real_fields(description, *a, **k)
        t = getattr(S.CTX, "tokens", None)

        def generic(m):
            words = [w.strip() for w in m.group(3).split(",")]
            names = [w.strip() for w in m.group(1).split(",")]
            if not any("\u27e6" in w for w in words):
                for n in names:
                    SHAPES.pop(n, None)
                return m.group(0)
            if a or k:
                raise S.Unsupported("symbolic shape with other field options")
            shape = []
            for w in words:
                if w in (t or {}):
                    shape.append(t[w])
                elif re.fullmatch(r"\d+", w):
                    shape.append(T.const(int(w)))
                else:
                    raise S.Unsupported("shape %r" % w)
            for n in names:
                SHAPES[n] = (tuple(shape), None)
            return "%s:%s[%dD]" % (m.group(1), m.group(2), len(words))
        return real_fields(re.sub(r"([\w\s,]+):([^\[:]*)\[([^\]]*)\]", generic, description), *a, **k)
    return fields


def vfixed(field):
    real = field.create_fixed_size

    def create_fixed_size(field_name, shape, index_dimensions=0, dtype=np.float64, layout="numpy", strides=None,
                          *a, **k):
        """Field.create_fixed_size; with symbolic numbers as shape or strides the field is
        generic, and the kernels made of it require the shape and the strides"""
        def term(x, what):
            t = x.p if isinstance(x, S.Sym) else T.const(int(x))
            if t.sort != "I":
                raise S.Unsupported("%s of a fixed size field" % what)
            return t
        if not any(isinstance(x, S.Sym) for x in tuple(shape) + tuple(strides or ())):
            SHAPES.pop(field_name, None)
            return real(field_name, shape, index_dimensions, dtype, layout, strides, *a, **k)
        if index_dimensions or a or k or layout not in ("numpy", "c"):
            raise S.Unsupported("symbolic shape with other field options")
        shape = tuple(term(x, "shape") for x in shape)
        if strides is not None:
            if len(strides) != len(shape):
                raise AssertionError("strides and shape of '%s'" % field_name)
            # create_fixed_size takes bytes
            size = T.const(np.dtype(dtype).itemsize)
            strides = (size, tuple(term(x, "strides") for x in strides))
        SHAPES[field_name] = (shape, strides)
        return field.create_generic(field_name, len(shape), dtype)
    return create_fixed_size


def vnormalize(real_normalize):
    def entry(x):
        return x._sympy_() if isinstance(x, S.Sym) else x

    def normalize_slice(slices, sizes):
        """symbolic loop bounds are handed on as sympy expressions"""
        return tuple(slice(entry(s.start), entry(s.stop), s.step) if isinstance(s, slice) else entry(s)
                     for s in real_normalize(slices, sizes))
    return normalize_slice


def fake_compile(self):
    k = ckern.Kernel(self, getattr(self, "function_name", "kernel"))
    k.required = {f: SHAPES[f] for f in k.fields if f in SHAPES}
    k.label = "%s" % "/".join(sorted(k.fields))
    KERNELS.append(k)
    return k


SHADOW = {"range": loops.vrange, "isinstance": npx.visinstance, "int": npx.VInt, "float": npx.VFloat,
          "len": npx.vlen, "max": npx.vmax, "min": npx.vmin, "prange": loops.vrange}


def install():
    global installed
    if installed:
        return
    import pystencils as ps
    import pystencils.astnodes as an
    import_sopht()
    an.KernelFunction.compile = fake_compile
    ps.fields = vfields(ps.fields)
    ps.Field.create_fixed_size = staticmethod(vfixed(ps.Field))
    import pystencils.transformations as tr
    tr.normalize_slice = vnormalize(tr.normalize_slice)
    from . import stubs_la, stubs_fft, stubs_io
    import numpy.linalg as la
    import scipy.sparse as spp
    import pyfftw
    by_id = {id(np): npx.NP, id(la): stubs_la.LA, id(spp): stubs_la.SPP, id(pyfftw): stubs_fft.PYFFTW}
    try:
        import h5py
        by_id[id(h5py)] = stubs_io.H5PY
    except ImportError:
        pass
    import scipy.fft as sfft
    fn_by_id = {id(sfft.rfftn): stubs_fft.s_rfftn, id(sfft.irfftn): stubs_fft.s_irfftn}
    for m in sopht_modules():
        d = m.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            if id(v) in by_id:
                d[k] = by_id[id(v)]
            elif id(v) in fn_by_id:
                d[k] = fn_by_id[id(v)]
            elif isinstance(v, types.ModuleType) and v.__name__.split(".")[0] == "numpy" and v is not np:
                if v.__name__ == "numpy.linalg":
                    d[k] = stubs_la.LA
            elif getattr(v, "__module__", None) == "numpy" and callable(v) or isinstance(v, np.ufunc):
                nm = getattr(v, "__name__", None)
                if nm and not isinstance(v, type):
                    try:
                        d[k] = getattr(npx.NP, nm)
                    except AttributeError:
                        pass
            elif v is np.float32 or v is np.float64:
                d[k] = npx.real_type(v)
        for k, v in SHADOW.items():
            d.setdefault(k, v)
        if m.__name__.endswith("IO"):
            d["open"] = stubs_io.vopen
    from . import ghost
    ghost.record()
    installed = True
