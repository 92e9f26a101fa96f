"""Which contracts, lemmas and specials decide each property."""
import inspect
import itertools

from . import identities as ID
from . import spec_grid          # noqa: F401  (registers the contracts)
from .runner import contract_task, call_task

SAFE = ("defined", "frame", "total", "pre", "bounds", "race", "precision")
FUNC = ("post",) + SAFE

OPERATORS = ["gen_diffusion_flux_pyst_kernel_2d", "gen_diffusion_flux_pyst_kernel_3d", "gen_curl_pyst_kernel_3d",
             "gen_divergence_pyst_kernel_3d", "gen_inplane_field_curl_pyst_kernel_2d",
             "gen_outplane_field_curl_pyst_kernel_2d", "gen_vorticity_stretching_flux_pyst_kernel_3d"]
ADVFLUX = ["gen_advection_flux_conservative_eno3_pyst_kernel_2d", "gen_advection_flux_conservative_eno3_pyst_kernel_3d"]
STEPS = ["gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_2d",
         "gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_3d",
         "gen_diffusion_timestep_euler_forward_pyst_kernel_2d", "gen_diffusion_timestep_euler_forward_pyst_kernel_3d",
         "gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d"]
SSP = ["gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d"]
ELEM = [g % d for d in (2, 3) for g in (
    "gen_elementwise_sum_pyst_kernel_%dd", "gen_elementwise_saxpby_pyst_kernel_%dd",
    "gen_elementwise_copy_pyst_kernel_%dd", "gen_elementwise_complex_product_pyst_kernel_%dd",
    "gen_set_fixed_val_pyst_kernel_%dd", "gen_add_fixed_val_pyst_kernel_%dd")] + [
    "gen_elementwise_cross_product_pyst_kernel_3d"]
SETB = ["gen_set_fixed_val_at_boundaries_pyst_kernel_2d", "gen_set_fixed_val_at_boundaries_pyst_kernel_3d"]
PENAL = ["gen_penalise_field_boundary_pyst_kernel_2d", "gen_penalise_field_boundary_pyst_kernel_3d"]
BRINK = ["gen_brinkmann_penalise_pyst_kernel_2d", "gen_brinkmann_penalise_pyst_kernel_3d",
         "gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d"]
CHARF = ["gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_2d",
         "gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_3d"]
UPD = [g % d for d in (2, 3) for g in ("gen_update_vorticity_from_velocity_forcing_pyst_kernel_%dd",
                                       "gen_update_vorticity_from_penalised_velocity_pyst_kernel_%dd")]
FILT = ["gen_laplacian_filter_kernel_3d"]
ALL = OPERATORS + ADVFLUX + STEPS + SSP + ELEM + SETB + PENAL + BRINK + CHARF + UPD + FILT


def params_of(gen):
    from . import verify
    f = verify.orig(gen)
    return inspect.signature(f).parameters if f is not None else {}


def variants(gen, widths=(1, 2, 3), orders=(0, 1, 2)):
    return variants_of_params(params_of(gen), widths, orders)


def variants_of_params(ps, widths, orders):
    ax = []
    if "field_type" in ps:
        ax.append([("field_type", x) for x in ("scalar", "vector")])
    if "reset_ghost_zone" in ps:
        ax.append([("reset_ghost_zone", x) for x in (True, False)])
    if "width" in ps:
        ax.append([("width", w) for w in widths])
    if "filter_order" in ps:
        ax.append([("filter_order", x) for x in orders])
    if "filter_type" in ps:
        ax.append([("filter_type", x) for x in ("multiplicative", "convolution")])
    return [dict(x) for x in itertools.product(*ax)]


def fixed_size(con, k=0):
    m = con.min_size
    if con.dim == 2:
        return [(m + 3, m + 5), (m + 6, m + 1), (m, m + 2)][k]
    return [(m + 1, m + 3, m + 2), (m + 4, m, m + 1), (m, m + 1, m + 5)][k]


A = dict(real="f64", threads=False)
B = dict(real="f32", threads="any")
Dc = dict(real="f64", threads="any")
Ec = dict(real="f32", threads=False)


def grid(gens, tier, kinds=FUNC, tags=None, widths=(1, 2, 3), orders=(0, 1, 2), cfgs=None, aliases=True, fixed=1):
    """contract tasks over all variants"""
    from . import contracts
    out = []
    cfgs = cfgs if cfgs is not None else ([A, B] if tier == "quick" else [A, B, Dc, Ec])
    nfix = fixed if tier == "quick" else 3
    for g in gens:
        for o in variants(g, widths, orders):
            con = contracts.get(g, o)
            if con is None:
                continue
            for i, c in enumerate(cfgs):
                out.append(contract_task(g, o, dict(c), kinds, tags))
                if aliases and (i == 0 or tier == "thorough"):
                    for al in con.aliases:
                        out.append(contract_task(g, o, dict(c, alias=al), kinds, tags))
            if nfix and "fixed_grid_size" in params_of(g):
                out.append(contract_task(g, o, dict(B if tier == "quick" else Dc, size="any"), kinds, tags))
            for k in range(nfix):
                # pystencils specialises the kernel text to a fixed size, so the size is a number here
                c = dict((B, Dc, A)[k], size=fixed_size(con, k))
                out.append(contract_task(g, o, c, kinds, tags))
    return out


def P(title, build, level="proof", technique=None, note=""):
    return dict(build=build, level=level, note=note,
                technique=technique or "contract-based deductive verification (function contracts on the real "
                "generators; symbolic execution of the real code; SMT/polynomial discharge)")


def lemma(file):
    return call_task("lemma " + file, "vf.lemmas", "lean", file=file)


def C01(t):
    return grid(OPERATORS, t, tags=("interior",))


def C02(t):
    return grid(OPERATORS + ADVFLUX, t, tags=("ring",)) + grid(SETB, t, widths=(1, 2), tags=None)


def clients(t, *which):
    """client programs over the kernels' contracts"""
    out = []
    for name, kw in which:
        for real, th in (("f64", False), ("f32", "any")) + ((("f64", "any"), ("f32", False)) if t != "quick" else ()):
            out.append(sp("client", "spec_client", "identity", name=name, real=real, threads=th, **kw))
    return out


def flags(dims, **kw):
    return [dict(kw, dim=d, **({"vec": v} if v is not None else {})) for d in dims
            for v in ((False, True) if d == 3 else (False,))]


def C03(t):
    w = [("div_curl", dict(dim=3, reset_curl=a, reset_div=b)) for a in (True, False) for b in (True, False)]
    w += [("curl_curl", dict(dim=3, reset=a)) for a in (True, False)]
    w += [("curl_curl_2d", dict(dim=2, reset=a)) for a in (True, False)]
    w += [("diffusion_form", dict(k, reset=a)) for k in flags((2, 3)) for a in (True, False)]
    w += [("diffusion_step_form", k) for k in flags((2, 3))]
    w += [("stretching_bilinear", dict(dim=3))]
    w += [("operator_linear", dict(dim=ID.LINEAR[o][0], op=o)) for o in ID.LINEAR]
    w += [("exact_curl3", dict(dim=3)), ("exact_div3", dict(dim=3)), ("exact_curl2", dict(dim=2)),
          ("exact_curlout2", dict(dim=2)), ("exact_stretching", dict(dim=3))]
    w += [("exact_diffusion", k) for k in flags((2, 3))]
    return clients(t, *w) + [lemma("Telescoping.lean")]


def C04(t):
    return grid(ADVFLUX, t) + clients(
        t, *[("advection_constant", dict(dim=d)) for d in (2, 3)],
        *[("advection_constant", dict(k, step=True)) for k in flags((2, 3))],
        *[("advection_linear", dict(dim=d)) for d in (2, 3)], *[("advection_form", dict(dim=d)) for d in (2, 3)],
        *[("advection_form", dict(k, step=True)) for k in flags((2, 3))]) + [lemma("Telescoping.lean")]


def C05(t):
    return grid(STEPS, t) + clients(
        t, *[("diffusion_step_form", k) for k in flags((2, 3))],
        *[("advection_form", dict(k, step=True)) for k in flags((2, 3))]) + [lemma("Telescoping.lean")]


def C06(t):
    return grid(SSP, t)


def C07(t):
    return grid(ELEM, t)


def C08(t):
    return any_width() + grid(SETB, t, widths=(1, 2, 3, 5) if t == "quick" else (1, 2, 3, 4, 5, 7))


def any_width(kinds=None, configs=(("f64", False), ("f32", "any"))):
    """the boundary setters with a symbolic width"""
    kw = {} if kinds is None else dict(kinds=list(kinds))
    return [sp("ring", "spec_width", "any_width", dim=d, ftype=f, real=r, threads=th, **kw)
            for d in (2, 3) for f in ("scalar", "vector") for r, th in configs]


def any_zone(kinds=None, configs=(("f64", False), ("f32", "any"), ("f64", "any", True))):
    """the boundary penalisation with a symbolic width of the zone"""
    kw = {} if kinds is None else dict(kinds=list(kinds))
    return [sp("zone", "spec_width", "any_zone", dim=d, ftype=f, real=c[0], threads=c[1],
               **dict(kw, **dict(fixed=True) if c[2:] else {}))
            for d, f in ((2, None), (3, "scalar"), (3, "vector")) for c in configs]


def C09(t):
    return any_zone() + grid(PENAL, t, widths=(0, 1, 2, 3) if t == "quick" else (0, 1, 2, 3, 4, 5))


def C10(t):
    return grid(BRINK, t) + clients(
        t, *[("brinkmann_blend", dict(dim=d, vec=v)) for d in (2, 3) for v in (False, True)],
        *[("brinkmann_fixed_blend", dict(dim=2, vec=v)) for v in (False, True)]) + [lemma("Brinkmann.lean")]


def C11(t):
    return grid(CHARF, t) + clients(t, *[(n, dict(dim=d)) for n in ("heaviside", "heaviside_interface") for d in (2, 3)]) + [lemma("Heaviside.lean")]


def C12(t):
    return grid(UPD, t)


def C13(t):
    return any_order() + grid(FILT, t, orders=(0, 1, 2) if t == "quick" else (0, 1, 2, 3, 4))


def any_order(kinds=None, configs=(("f64", False), ("f32", "any"), ("f64", "any", True))):
    """the filter with a symbolic order"""
    kw = {} if kinds is None else dict(kinds=list(kinds))
    return [sp("filter", "spec_filter", "any_order", ftype=f, kind=k, real=c[0], threads=c[1],
               **dict(kw, **dict(fixed=True) if c[2:] else {}))
            for f in ("scalar", "vector") for k in ("multiplicative", "convolution") for c in configs]


def C14(t):
    return grid(ALL, t, kinds=("race", "total", "pre"), widths=(1, 2), cfgs=[Dc], fixed=0) + any_order(
        ("race", "total", "pre"), [("f32", "any")]) + any_width(
        ("race", "total", "pre"), [("f32", "any")]) + any_zone(("race", "total", "pre"), [("f32", "any"), ("f64", "any", True)])


def C15(t):
    bt = ("bounds", "total", "pre")
    return any_order(bt, [("f64", False)]) + any_width(bt, [("f64", False)]) + any_zone(
        bt, [("f64", False), ("f64", "any", True)]) + grid(
        ALL, t, kinds=("bounds", "total", "pre"), widths=(1, 2, 3), cfgs=[A], fixed=1) + [
        sp("memory", "spec_ib", "memory", of=f, dim=d, ncomp=nc, width=w, real="f64")
        for f in ("interpolation", "spreading") for d in (2, 3) for nc in (1, d) for w in (1, 2, 3)] + [
        sp("memory", "spec_ib", "memory", of="support", dim=d, width=w, real="f64") for d in (2, 3) for w in (1, 2, 3)] + [
        sp("memory", "spec_ib", "memory", of="weights", dim=d, kind=k, real="f64") for d in (2, 3) for k in ("cosine", "peskin")]


def C16(t):
    return grid(ALL, t, kinds=FUNC, widths=(1, 2), orders=(1,), aliases=False) + [
        sp("precision", "spec_reject", "helpers")] + [sp("options", "spec_reject", "generator", gen=g) for g in ALL]


def sp(label, module, func, **kw):
    return call_task("%s %s %s" % (label, func, ",".join("%s=%s" % x for x in sorted(kw.items()))), "vf." + module, func, **kw)


def C17(t):
    out = []
    for real, th in (("f64", 1), ("f32", "any")) + ((("f64", "any"), ("f32", 1)) if t != "quick" else ()):
        out += [sp("unbounded Poisson", "spec_fft", "poisson", dim=2, real=real, threads=th),
                sp("unbounded Poisson", "spec_fft", "poisson", dim=3, real=real, threads=th),
                sp("unbounded Poisson", "spec_fft", "poisson", dim=3, real=real, threads=th, vector=True)]
    return out


def C18(t):
    out = [lemma("FastDiag.lean")]
    for real, bc, dflt in (("f64", "neumann", False), ("f32", "dirichlet", False), ("f64", "dirichlet", False),
                           ("f32", "neumann", True)):
        for dim, vec in ((2, False), (3, False), (3, True)):
            out.append(sp("fast diagonalisation", "spec_la", "fastdiag", dim=dim, real=real, bc=bc, vector=vec,
                          default_bc=dflt))
    return out


def C19(t):
    return [sp("FFT", "spec_fft", f, dim=d, real=real, threads=th) for f in ("pyfftw_wrapper", "scipy_wrapper")
            for d in (2, 3) for real, th in (("f64", 1), ("f32", "any"))]


def C20(t):
    return [sp("markers", "spec_ib", "support", dim=d, width=w, real=r) for d in (2, 3) for r in ("f64", "f32")
            for w in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4))]


def C21(t):
    out = [sp("delta function", "spec_ib", "delta_lemma", kind=k) for k in ("cosine", "peskin")]
    for d in (2, 3):
        for r in ("f64", "f32"):
            out += [sp("weights", "spec_ib", "weights", dim=d, kind=k, real=r) for k in ("cosine", "peskin")]
            for k in ("cosine", "peskin", "default"):
                for nc in (1, d):
                    if t == "quick" and k == "peskin" and (r == "f32" or nc > 1) and d == 3:
                        continue
                    out.append(sp("communicator", "spec_ib", "communicator", dim=d, kind=k, real=r, ncomp=nc))
    return out


def transfers(t):
    return [sp("transfer", "spec_ib", f, dim=d, ncomp=nc, width=w, real=r) for f in ("interpolation", "spreading")
            for d in (2, 3) for nc in (1, d) for r in ("f64", "f32") for w in (1, 2, 3)]


def C22(t):
    return transfers(t) + [lemma("Adjoint.lean")] + [
        sp("communicator", "spec_ib", "communicator", dim=d, kind="cosine", real="f64", ncomp=d) for d in (2, 3)]


def callee_weights():
    return [sp("callee: weights", "spec_ib", "weights", dim=d, kind="cosine", real=r) for d in (2, 3)
            for r in ("f64", "f32")]


def C23(t):
    return callee_weights() + [sp("forcing", "spec_ib", "virtual_boundary", dim=d, real=r, shift=s, reset=q)
                               for d in (2, 3) for r, s in (("f64", True), ("f32", False)) for q in (True, False)]


def C24(t):
    return callee_weights() + [sp("forcing", "spec_ib", "brinkmann_forcing", dim=d, real=r, reset=q)
                               for d in (2, 3) for r in ("f64", "f32") for q in (True, False)]


def both_dims(t):
    return [(r, d) for r in ("f64", "f32") for d in (2, 3)]


def io_scens(pred, t):
    from . import io_scen as W
    return [n for n, s in W.SCEN.items() if pred(s)]


def roundtrips(part, pred, t):
    from . import io_scen as W
    out = []
    for s in io_scens(pred, t):
        for r, d in both_dims(t):
            out.append(sp("IO", "spec_io", "roundtrip", scen=s, dim=d, real=r, part=part, name="out.h5"))
        # arrays of another precision than the IO object's
        for d in (2, 3):
            out.append(sp("IO", "spec_io", "roundtrip", scen=s, dim=d, real="f64", part=part, name="out.h5", io_real="f32"))
            out.append(sp("IO", "spec_io", "roundtrip", scen=s, dim=d, real="f32", part=part, name="out.h5", to_real="f64"))
    return out


def C25(t):
    return roundtrips("eul", lambda s: bool(s["eul"]), t)


def C26(t):
    return roundtrips("lag", lambda s: bool(s["lag"]), t)


def C27(t):
    from . import io_scen as W
    out = []
    for d in (2, 3):
        for s, w, n in W.MISMATCH:
            out.append(sp("IO", "spec_io", "missing", scen=s, what=w, n=n, dim=d))
        for s in ("both", "bare_eul", "grid_only"):
            out += [sp("IO", "spec_io", "geometry_mismatch", scen=s, which=w, dim=d)
                    for w in ("origin", "dx", "grid_size", "markers") if not (w == "markers" and s == "grid_only")]
        out.append(sp("IO", "spec_io", "geometry_mismatch", scen="defaults", which="markers", dim=d))
        out.append(sp("IO", "spec_io", "bad_registration", dim=d))
        out += [sp("IO", "spec_io", "shape_registration", dim=d, nd=n, where=w) for n in range(5)
                for w in ("eul", "lag", "grid")]
    return out


def C28(t):
    from . import io_scen as W
    out = []
    for d in (2, 3):
        for s in W.SCEN:
            names = W.NAMES if t != "quick" or s in ("both", "repeat_connect") else W.NAMES[:4]
            out += [sp("IO", "spec_io", "clobber", scen=s, dim=d, name=n) for n in names]
    return out


PROPS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
