"""Contracts of the Eulerian grid kernels (written from the documented
operators, in closed form, for every cell)."""
from .contracts import Contract, Fld, S, V, contract, sh, inside, ring_pieces

VEC = ("scalar", "vector")


def both(gen2):
    """register a factory for the _2d and _3d generators"""
    def deco(f):
        for d in (2, 3):
            contract(gen2 + "_%dd" % d)(lambda o, d=d: f(gen2 + "_%dd" % d, d, o))
        return f
    return deco


def only(gen, dim):
    def deco(f):
        contract(gen)(lambda o: f(gen, dim, o))
        return f
    return deco


def take(o, **defaults):
    out = {}
    o = dict(o)
    for k, v in defaults.items():
        out[k] = o.pop(k, v)
    for k in o:
        raise KeyError(k)
    return out


def is_width(w, lo):
    if isinstance(w, bool) or not isinstance(w, int) or w < lo or w > 64:
        raise KeyError("width")
    return w


def fn_all(value):
    """every cell: value(c, idx)"""
    return lambda c, idx: [("all", None, value(c, idx))]


# ------------------------------------------------------------- elementwise ops
@both("gen_elementwise_sum_pyst_kernel")
def _sum(gen, dim, o):
    o = take(o, field_type="scalar")
    F = {"scalar": S, "vector": V}[o["field_type"]]
    vec = o["field_type"] == "vector"

    def spec(E):
        g = (lambda n, c, i: E[n](c, *i)) if vec else (lambda n, c, i: E[n](*i))
        return {"sum_field": fn_all(lambda c, i: g("field_1", c, i) + g("field_2", c, i))}
    return Contract(gen, dim, o, [F("sum_field"), F("field_1"), F("field_2")], outputs=["sum_field"], spec=spec,
                    aliases=[{"sum_field": "field_1"}, {"sum_field": "field_2"},
                             {"sum_field": "field_1", "field_2": "field_1"}])


@both("gen_elementwise_saxpby_pyst_kernel")
def _saxpby(gen, dim, o):
    o = take(o, field_type="scalar")
    vec = o["field_type"] == "vector"
    F = {"scalar": S, "vector": V}[o["field_type"]]

    def spec(E):
        g = (lambda n, c, i: E[n](c, *i)) if vec else (lambda n, c, i: E[n](*i))
        a, b = E.s["field_1_prefac"], E.s["field_2_prefac"]
        return {"sum_field": fn_all(lambda c, i: a * g("field_1", c, i) + b * g("field_2", c, i))}
    return Contract(gen, dim, o, [F("sum_field"), F("field_1"), F("field_2")],
                    scalars=["field_1_prefac", "field_2_prefac"], outputs=["sum_field"], spec=spec,
                    aliases=[{"sum_field": "field_1"}, {"sum_field": "field_2"}])


@both("gen_elementwise_copy_pyst_kernel")
def _copy(gen, dim, o):
    o = take(o)
    return Contract(gen, dim, o, [S("field"), S("rhs_field")], outputs=["field"],
                    spec=lambda E: {"field": fn_all(lambda c, i: E["rhs_field"](*i))})


@both("gen_elementwise_complex_product_pyst_kernel")
def _cprod(gen, dim, o):
    o = take(o)

    def spec(E):
        def val(c, i):
            a, b = E["field_1"], E["field_2"]
            if c == 0:
                return a.re(*i) * b.re(*i) - a.im(*i) * b.im(*i)
            return a.re(*i) * b.im(*i) + a.im(*i) * b.re(*i)
        return {"product_field": fn_all(val)}
    C = lambda n: Fld(n, "complex")
    # library use: distinct arrays only (every solver multiplies into its own buffer)
    return Contract(gen, dim, o, [C("product_field"), C("field_1"), C("field_2")], outputs=["product_field"],
                    spec=spec, fixed=True)


@both("gen_set_fixed_val_pyst_kernel")
def _setval(gen, dim, o):
    o = take(o, field_type="scalar")
    if o["field_type"] == "vector":
        return Contract(gen, dim, o, [V("vector_field")], vscalars=["fixed_vals"], outputs=["vector_field"],
                        spec=lambda E: {"vector_field": fn_all(lambda c, i: E.s["fixed_vals"][c])})
    if o["field_type"] != "scalar":
        raise KeyError
    return Contract(gen, dim, o, [S("field")], scalars=["fixed_val"], outputs=["field"],
                    spec=lambda E: {"field": fn_all(lambda c, i: E.s["fixed_val"])})


@both("gen_add_fixed_val_pyst_kernel")
def _addval(gen, dim, o):
    o = take(o, field_type="scalar")
    if o["field_type"] == "vector":
        return Contract(gen, dim, o, [V("sum_field"), V("vector_field")], vscalars=["fixed_vals"],
                        outputs=["sum_field"], aliases=[{"sum_field": "vector_field"}],
                        spec=lambda E: {"sum_field": fn_all(
                            lambda c, i: E["vector_field"](c, *i) + E.s["fixed_vals"][c])})
    if o["field_type"] != "scalar":
        raise KeyError
    return Contract(gen, dim, o, [S("sum_field"), S("field")], scalars=["fixed_val"], outputs=["sum_field"],
                    aliases=[{"sum_field": "field"}],
                    spec=lambda E: {"sum_field": fn_all(lambda c, i: E["field"](*i) + E.s["fixed_val"])})


@only("gen_elementwise_cross_product_pyst_kernel_3d", 3)
def _cross(gen, dim, o):
    o = take(o)

    def spec(E):
        def val(c, i):
            p, q = (c + 1) % 3, (c + 2) % 3
            a, b = E["field_1"], E["field_2"]
            return a(p, *i) * b(q, *i) - a(q, *i) * b(p, *i)
        return {"result_field": fn_all(val)}
    return Contract(gen, dim, o, [V("result_field"), V("field_1"), V("field_2")], outputs=["result_field"], spec=spec)


@both("gen_set_fixed_val_at_boundaries_pyst_kernel")
def _setbnd(gen, dim, o):
    o = take(o, width=1, field_type="scalar")
    w = is_width(o["width"], 1)
    vec = {"scalar": False, "vector": True}[o["field_type"]]
    nm = "vector_field" if vec else "field"

    def spec(E):
        def f(c, i):
            old = E[nm](c, *i) if vec else E[nm](*i)
            new = E.s["fixed_vals"][c] if vec else E.s["fixed_val"]
            return ring_pieces(E, i, w, old, new)
        return {nm: f}
    return Contract(gen, dim, o, [V(nm) if vec else S(nm)], scalars=[] if vec else ["fixed_val"],
                    vscalars=["fixed_vals"] if vec else [], outputs=[nm], spec=spec, min_size=w)


# ------------------------------------------------------------------- operators
def lap(f, i, dim):
    r = -2 * dim * f(*i)
    for a in range(dim):
        r = r + f(*sh(i, dim, a, 1)) + f(*sh(i, dim, a, -1))
    return r


def d2(f, i, dim, a):
    """undivided central difference along physical axis a"""
    return f(*sh(i, dim, a, 1)) - f(*sh(i, dim, a, -1))


def curl3(f, c, i):
    """undivided central-difference curl component c of f(comp, *idx)"""
    p, q = (c + 1) % 3, (c + 2) % 3
    return d2(lambda *j: f(q, *j), i, 3, p) - d2(lambda *j: f(p, *j), i, 3, q)


def curl2_in(f, i):
    """scalar curl of a planar vector field"""
    return d2(lambda *j: f(1, *j), i, 2, 0) - d2(lambda *j: f(0, *j), i, 2, 1)


def curl2_out(f, c, i):
    """planar curl of the out-of-plane field"""
    return d2(f, i, 2, 1) if c == 0 else -d2(f, i, 2, 0)


def div3(f, i):
    return sum((d2(lambda *j, a=a: f(a, *j), i, 3, a) for a in range(1, 3)), d2(lambda *j: f(0, *j), i, 3, 0))


def stretch(w, u, c, i):
    """sum_a w_a (u_c[+a] - u_c[-a])"""
    r = None
    for a in range(3):
        t = w(a, *i) * d2(lambda *j: u(c, *j), i, 3, a)
        r = t if r is None else r + t
    return r


def ringval(E, reset, old):
    return 0 if reset else old


def flag(o, k="reset_ghost_zone"):
    if not isinstance(o[k], bool):
        raise KeyError(k)
    return o[k]


@only("gen_diffusion_flux_pyst_kernel_2d", 2)
def _difflux2(gen, dim, o):
    o = take(o, reset_ghost_zone=True)
    rs = flag(o)

    def spec(E):
        return {"diffusion_flux": lambda c, i: ring_pieces(
            E, i, 1, E.s["prefactor"] * lap(E["field"], i, dim), ringval(E, rs, E["diffusion_flux"](*i)))}
    return Contract(gen, dim, o, [S("diffusion_flux"), S("field")], scalars=["prefactor"],
                    outputs=["diffusion_flux"], spec=spec, min_size=3)


@only("gen_diffusion_flux_pyst_kernel_3d", 3)
def _difflux3(gen, dim, o):
    o = take(o, reset_ghost_zone=True, field_type="scalar")
    rs = flag(o)
    if o["field_type"] == "scalar":
        return _dfs(gen, dim, o, rs)
    if o["field_type"] != "vector":
        raise KeyError

    def spec(E):
        return {"vector_field_diffusion_flux": lambda c, i: ring_pieces(
            E, i, 1, E.s["prefactor"] * lap(lambda *j: E["vector_field"](c, *j), i, dim),
            ringval(E, rs, E["vector_field_diffusion_flux"](c, *i)))}
    return Contract(gen, dim, o, [V("vector_field_diffusion_flux"), V("vector_field")], scalars=["prefactor"],
                    outputs=["vector_field_diffusion_flux"], spec=spec, min_size=3)


def _dfs(gen, dim, o, rs):
    def spec(E):
        return {"diffusion_flux": lambda c, i: ring_pieces(
            E, i, 1, E.s["prefactor"] * lap(E["field"], i, dim), ringval(E, rs, E["diffusion_flux"](*i)))}
    return Contract(gen, dim, o, [S("diffusion_flux"), S("field")], scalars=["prefactor"],
                    outputs=["diffusion_flux"], spec=spec, min_size=3)


@both("gen_diffusion_timestep_euler_forward_pyst_kernel")
def _diffstep(gen, dim, o):
    o = take(o, field_type="scalar") if dim == 3 else take(o)
    vec = o.get("field_type") == "vector"
    if o.get("field_type") not in (None, "scalar", "vector"):
        raise KeyError
    nm = "vector_field" if vec else "field"

    def spec(E):
        def f(c, i):
            g = (lambda *j: E[nm](c, *j)) if vec else E[nm]
            return ring_pieces(E, i, 1, g(*i) + E.s["nu_dt_by_dx2"] * lap(g, i, dim), g(*i))
        return {nm: f}
    return Contract(gen, dim, o, [V(nm) if vec else S(nm), S("diffusion_flux")], scalars=["nu_dt_by_dx2"],
                    outputs=[nm], havoc=["diffusion_flux"], spec=spec, min_size=3)


@only("gen_curl_pyst_kernel_3d", 3)
def _curl3(gen, dim, o):
    o = take(o, reset_ghost_zone=True)
    rs = flag(o)

    def spec(E):
        return {"curl": lambda c, i: ring_pieces(E, i, 1, E.s["prefactor"] * curl3(E["field"], c, i),
                                                 ringval(E, rs, E["curl"](c, *i)))}
    return Contract(gen, dim, o, [V("curl"), V("field")], scalars=["prefactor"], outputs=["curl"], spec=spec,
                    min_size=3)


@only("gen_divergence_pyst_kernel_3d", 3)
def _div3(gen, dim, o):
    o = take(o, reset_ghost_zone=True)
    rs = flag(o)

    def spec(E):
        return {"divergence": lambda c, i: ring_pieces(E, i, 1, E.s["inv_dx"] * div3(E["field"], i) / 2,
                                                       ringval(E, rs, E["divergence"](*i)))}
    return Contract(gen, dim, o, [S("divergence"), V("field")], scalars=["inv_dx"], outputs=["divergence"],
                    spec=spec, min_size=3)


@only("gen_inplane_field_curl_pyst_kernel_2d", 2)
def _incurl(gen, dim, o):
    o = take(o)

    def spec(E):
        return {"curl": lambda c, i: ring_pieces(E, i, 1, E.s["prefactor"] * curl2_in(E["field"], i),
                                                 E["curl"](*i))}
    return Contract(gen, dim, o, [S("curl"), V("field")], scalars=["prefactor"], outputs=["curl"], spec=spec,
                    min_size=3)


@only("gen_outplane_field_curl_pyst_kernel_2d", 2)
def _outcurl(gen, dim, o):
    o = take(o, reset_ghost_zone=True)
    rs = flag(o)

    def spec(E):
        return {"curl": lambda c, i: ring_pieces(E, i, 1, E.s["prefactor"] * curl2_out(E["field"], c, i),
                                                 ringval(E, rs, E["curl"](c, *i)))}
    return Contract(gen, dim, o, [V("curl"), S("field")], scalars=["prefactor"], outputs=["curl"], spec=spec,
                    min_size=3)


@only("gen_vorticity_stretching_flux_pyst_kernel_3d", 3)
def _strflux(gen, dim, o):
    o = take(o)

    def spec(E):
        return {"vorticity_stretching_flux_field": lambda c, i: ring_pieces(
            E, i, 1, E.s["prefactor"] * stretch(E["vorticity_field"], E["velocity_field"], c, i), 0)}
    return Contract(gen, dim, o, [V("vorticity_stretching_flux_field"), V("vorticity_field"), V("velocity_field")],
                    scalars=["prefactor"], outputs=["vorticity_stretching_flux_field"], spec=spec, min_size=3)


@only("gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d", 3)
def _streuler(gen, dim, o):
    o = take(o)

    def spec(E):
        w, u = E["vorticity_field"], E["velocity_field"]
        return {"vorticity_field": lambda c, i: ring_pieces(
            E, i, 1, w(c, *i) + E.s["dt_by_2_dx"] * stretch(w, u, c, i), w(c, *i))}
    return Contract(gen, dim, o, [V("vorticity_field"), V("velocity_field"), V("vorticity_stretching_flux_field")],
                    scalars=["dt_by_2_dx"], outputs=["vorticity_field"],
                    havoc=["vorticity_stretching_flux_field"], spec=spec, min_size=3)


SSP_THIRD = [1]      # factor of the third-stage increment (1 = the scheme as named)


@only("gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d", 3)
def _ssprk3(gen, dim, o):
    o = take(o)
    third = SSP_THIRD[0]

    def spec(E):
        w, u, k = E["vorticity_field"], E["velocity_field"], E.s["dt_by_2_dx"]

        def f(c, i):
            # the increment is pointwise in the vorticity: L(v)_c = k sum_a v_a (D_a u_c)
            G = [[d2(lambda *j, cc=cc: u(cc, *j), i, 3, a) for a in range(3)] for cc in range(3)]
            L = lambda v, s=1: [k * s * (v[0] * G[cc][0] + v[1] * G[cc][1] + v[2] * G[cc][2]) for cc in range(3)]
            w0 = [w(a, *i) for a in range(3)]
            w1 = [x + y for x, y in zip(w0, L(w0))]
            w2 = [x * 3 / 4 + (y + z) / 4 for x, y, z in zip(w0, w1, L(w1))]
            w3 = [x / 3 + (y + z) * 2 / 3 for x, y, z in zip(w0, w2, L(w2, third))]
            return ring_pieces(E, i, 1, w3[c], w0[c])
        return {"vorticity_field": f}
    return Contract(gen, dim, o, [V("vorticity_field"), V("velocity_field"), V("vorticity_stretching_flux_field"),
                                  Fld("midstep_buffer_vector_field", "vector", gen=True)],
                    scalars=["dt_by_2_dx"], outputs=["vorticity_field"],
                    havoc=["vorticity_stretching_flux_field", "midstep_buffer_vector_field"], spec=spec, min_size=3)


# -------------------------------------------------------------------- advection
def eno_face(E, f, v, i, dim, a):
    """flux through the face between i and i+e_a (third-order upwind-biased)"""
    g = lambda k: f(*sh(i, dim, a, k)) * v(a, *sh(i, dim, a, k))
    up = g(1) / 3 + g(0) * 5 / 6 - g(-1) / 6
    dn = g(0) / 3 + g(1) * 5 / 6 - g(2) / 6
    return E.ite(v(a, *i) + v(a, *sh(i, dim, a, 1)) > 0, up, dn)


def eno_div(E, f, v, i, dim):
    r = None
    for a in range(dim):
        t = eno_face(E, f, v, i, dim, a) - eno_face(E, f, v, sh(i, dim, a, -1), dim, a)
        r = t if r is None else r + t
    return r


@both("gen_advection_flux_conservative_eno3_pyst_kernel")
def _advflux(gen, dim, o):
    o = take(o)

    def spec(E):
        old = E["advection_flux"]
        return {"advection_flux": lambda c, i: ring_pieces(
            E, i, 2, old(*i) + E.s["inv_dx"] * eno_div(E, E["field"], E["velocity"], i, dim), old(*i))}
    return Contract(gen, dim, o, [S("advection_flux"), S("field"), V("velocity")], scalars=["inv_dx"],
                    outputs=["advection_flux"], spec=spec, min_size=5)


@both("gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel")
def _advstep(gen, dim, o):
    o = take(o, field_type="scalar") if dim == 3 else take(o)
    vec = o.get("field_type") == "vector"
    if o.get("field_type") not in (None, "scalar", "vector"):
        raise KeyError
    nm = "vector_field" if vec else "field"

    def spec(E):
        def f(c, i):
            g = (lambda *j: E[nm](c, *j)) if vec else E[nm]
            return ring_pieces(E, i, 2, g(*i) - E.s["dt_by_dx"] * eno_div(E, g, E["velocity"], i, dim), g(*i))
        return {nm: f}
    return Contract(gen, dim, o, [V(nm) if vec else S(nm), S("advection_flux"), V("velocity")],
                    scalars=["dt_by_dx"], outputs=[nm], havoc=["advection_flux"], spec=spec, min_size=5)


# ----------------------------------------------------------------- penalisation
@both("gen_brinkmann_penalise_pyst_kernel")
def _brink(gen, dim, o):
    o = take(o, field_type="scalar")
    vec = {"scalar": False, "vector": True}[o["field_type"]]
    a, b, p = (("penalised_vector_field", "vector_field", "penalty_vector_field") if vec else
               ("penalised_field", "field", "penalty_field"))
    F = V if vec else S

    def spec(E):
        def f(c, i):
            g = lambda n: E[n](c, *i) if vec else E[n](*i)
            k = E.s["penalty_factor"] * E["char_field"](*i)
            return [("all", None, (g(b) + k * g(p)) / (1 + k))]
        return {a: f}
    return Contract(gen, dim, o, [F(a), F(b), S("char_field"), F(p)], scalars=["penalty_factor"], outputs=[a],
                    spec=spec, aliases=[{a: b}], pos_scalars=["penalty_factor"], sample={"char_field": "unit"})


@only("gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d", 2)
def _brinkfix(gen, dim, o):
    o = take(o, field_type="scalar")
    vec = {"scalar": False, "vector": True}[o["field_type"]]
    a, b = (("penalised_vector_field", "vector_field") if vec else ("penalised_field", "field"))
    F = V if vec else S

    def spec(E):
        def f(c, i):
            g = lambda n: E[n](c, *i) if vec else E[n](*i)
            k = E.s["penalty_factor"] * E["char_field"](*i)
            pv = E.s["penalty_val"][c] if vec else E.s["penalty_val"]
            return [("all", None, (g(b) + k * pv) / (1 + k))]
        return {a: f}
    return Contract(gen, dim, o, [F(a), F(b), S("char_field")],
                    scalars=["penalty_factor"] + ([] if vec else ["penalty_val"]),
                    vscalars=["penalty_val"] if vec else [], outputs=[a], spec=spec, aliases=[{a: b}],
                    pos_scalars=["penalty_factor"], sample={"char_field": "unit"})


@both("gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel")
def _charf(gen, dim, o):
    o = take(o)

    def spec(E):
        def f(c, i):
            s, b = E["level_set_field"](*i), E.s["blend_width"]
            return [("inside the body", s > b, 1), ("outside the body", s < -b, 0),
                    ("blend", E.all(s <= b, s >= -b), (1 + s / b + E.sin(E.pi * s / b) / E.pi) / 2)]
        return {"char_func_field": f}
    return Contract(gen, dim, o, [S("char_func_field"), S("level_set_field")], genscalars=["blend_width"],
                    outputs=["char_func_field"], spec=spec, sample={"level_set_field": "level:blend_width"})


@both("gen_penalise_field_boundary_pyst_kernel")
def _penal(gen, dim, o):
    o = take(o, width=1, field_type="scalar") if dim == 3 else take(o, width=1)
    w = is_width(o["width"], 0)
    if o.get("field_type") not in (None, "scalar", "vector"):
        raise KeyError
    vec = o.get("field_type") == "vector"
    nm = "vector_field" if vec else "field"
    grids = [ax + "_grid_field" for ax in "xyz"[:dim]]
    return Contract(gen, dim, o, [V(nm) if vec else S(nm)] + [Fld(g, "scalar", gen=True) for g in grids],
                    genscalars=["dx"], outputs=[nm], spec=zone_spec(dim, nm, vec, grids, w), min_size=max(1, 2 * w),
                    sample=dict({g: "mesh:%s" % g[0] for g in grids}))


def zone_spec(dim, nm, vec, grids, w):
    """the penalisation zone of width w (a number, or symbolic and positive)"""
    def spec(E):
        def f(c, i):
            g = (lambda *j: E[nm](c, *j)) if vec else E[nm]
            if isinstance(w, int) and w == 0:
                return [("interior", None, g(*i))]
            pref = E.pi / 2 / (w * E.s["dx"])

            def clamp(k, n):
                return E.iite(k < w, w - 1, E.iite(k >= n - w, n - w, k))
            ci = tuple(clamp(k, n) for k, n in zip(i, E.n))
            # x first, then y, then z: the ramp of an axis is read at the cells
            # that are copied by the later axes
            val = g(*ci)
            for a in range(dim):
                d = dim - 1 - a
                X = E[grids[a]]
                z = tuple(0 for _ in range(dim))
                last = z[:d] + (E.n[d] - 1,) + z[d + 1:]
                # coordinate along the axis at this cell; later axes clamp their own index
                pos = tuple(i[q] if q >= d else ci[q] for q in range(dim))
                x = X(*pos)
                lo = E.sin(pref * (x - X(*z)))
                hi = E.sin(pref * (X(*last) - x))
                val = val * E.ite(i[d] < w, lo, E.ite(i[d] >= E.n[d] - w, hi, 1))
            return [("interior", inside(E, i, w), g(*i)), ("layer", E.no(inside(E, i, w)), val)]
        return {nm: f}
    return spec


# ------------------------------------------------------------- vorticity update
@both("gen_update_vorticity_from_velocity_forcing_pyst_kernel")
def _upd(gen, dim, o):
    o = take(o)

    def spec(E):
        w, f, k = E["vorticity_field"], E["velocity_forcing_field"], E.s["prefactor"]

        def g(c, i):
            if dim == 2:
                return ring_pieces(E, i, 1, w(*i) + k * curl2_in(f, i), w(*i))
            return ring_pieces(E, i, 1, w(c, *i) + k * curl3(f, c, i), w(c, *i))
        return {"vorticity_field": g}
    return Contract(gen, dim, o, [(S if dim == 2 else V)("vorticity_field"), V("velocity_forcing_field")],
                    scalars=["prefactor"], outputs=["vorticity_field"], spec=spec, min_size=3)


@both("gen_update_vorticity_from_penalised_velocity_pyst_kernel")
def _updpen(gen, dim, o):
    o = take(o)

    def spec(E):
        w, k = E["vorticity_field"], E.s["prefactor"]
        f = lambda c, *j: E["penalised_velocity_field"](c, *j) - E["velocity_field"](c, *j)

        def g(c, i):
            if dim == 2:
                return ring_pieces(E, i, 1, w(*i) + k * curl2_in(f, i), w(*i))
            return ring_pieces(E, i, 1, w(c, *i) + k * curl3(f, c, i), w(c, *i))
        return {"vorticity_field": g}
    return Contract(gen, dim, o, [(S if dim == 2 else V)("vorticity_field"), V("penalised_velocity_field"),
                                  V("velocity_field")],
                    scalars=["prefactor"], outputs=["vorticity_field"], spec=spec, min_size=3)


# ----------------------------------------------------------------------- filter
def filt1(E, f, a):
    """one pass of the quarter second difference along physical axis a, zero on the ring"""
    def g(*i):
        v = (2 * f(*i) - f(*sh(i, 3, a, 1)) - f(*sh(i, 3, a, -1))) / 4
        return E.ite(inside(E, i, 1), v, 0)
    return memo(g)


def memo(g):
    m = {}

    def h(*i):
        try:
            k = tuple(x.p for x in i)
        except AttributeError:
            return g(*i)
        r = m.get(k)
        if r is None:
            r = m[k] = g(*i)
        return r
    return h


def filtered(E, f, order, kind):
    if order == 0:
        return f
    if kind == "multiplicative":
        h = f
        for _ in range(order):
            for a in range(3):
                h = filt1(E, h, a)
        return memo(lambda *i, h=h: f(*i) - h(*i))
    r = f
    for a in range(3):
        h = r
        for _ in range(order):
            h = filt1(E, h, a)
        r = memo(lambda *i, h=h, r=r: r(*i) - h(*i))
    return r


@only("gen_laplacian_filter_kernel_3d", 3)
def _filter(gen, dim, o):
    o = take(o, filter_order=1, field_type="scalar", filter_type="multiplicative")
    n = o["filter_order"]
    if isinstance(n, bool) or not isinstance(n, int) or n < 0:
        raise KeyError
    if o["filter_type"] not in ("multiplicative", "convolution") or o["field_type"] not in VEC:
        raise KeyError
    vec = o["field_type"] == "vector"
    nm = "vector_field" if vec else "scalar_field"

    def spec(E):
        def f(c, i):
            g = memo((lambda *j: E[nm](c, *j)) if vec else (lambda *j: E[nm](*j)))
            return [("interior", inside(E, i, 1), filtered(E, g, n, o["filter_type"])(*i)),
                    ("ring", E.no(inside(E, i, 1)), g(*i))]
        return {nm: f}
    return Contract(gen, dim, o, [V(nm) if vec else S(nm), Fld("filter_flux_buffer", "scalar", gen=True),
                                  Fld("field_buffer", "scalar", gen=True)], outputs=[nm],
                    havoc=["filter_flux_buffer", "field_buffer"], spec=spec, min_size=3)


from fractions import Fraction as _Fr      # noqa: E402
SSP_GEN = "gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d"
HALF = _Fr(1, 2)
