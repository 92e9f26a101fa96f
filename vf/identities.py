"""Client programs over the kernels: identities a user relies on, stated over
whatever world runs them (symbolic: every input; concrete: replay)."""

HALF = 0.5


def e(i, a, k, dim):
    """index shifted by k along the physical axis a (0 = x)"""
    d = dim - 1 - a
    return i[:d] + (i[d] + k,) + i[d + 1:]


def cd(f, i, a, dim):
    """f(+1) - f(-1) along the axis"""
    return f(*e(i, a, 1, dim)) - f(*e(i, a, -1, dim))


def comp(F, c):
    return lambda *i: F(c, *i)


def zero(*_):
    return 0


# ---------------------------------------------------------------- C03: calculus
def div_curl(W, reset_curl=True, reset_div=True):
    F, C, D = W.field("field", True), W.field("curl", True), W.field("divergence")
    W.gen("gen_curl_pyst_kernel_3d", reset_ghost_zone=reset_curl)(curl=C.arr, field=F.arr, prefactor=W.scalar("p"))
    W.gen("gen_divergence_pyst_kernel_3d", reset_ghost_zone=reset_div)(divergence=D.arr, field=C.arr,
                                                                       inv_dx=W.scalar("q"))
    W.equal("divergence of the curl vanishes two cells from the boundary", 2, D.now, zero)
    if reset_div:
        W.equal("divergence is zero on the ghost ring", 0, D.now, zero, ring=1)


def grad_div_minus_lap(F, c, i, dim, axes):
    """d_c (sum_a d_a F_a) - sum_a d_a d_a F_c with centred differences of width 2"""
    r = None
    for a in axes:
        t = cd(lambda *j: cd(comp(F, a), j, a, dim), i, c, dim) - cd(lambda *j: cd(comp(F, c), j, a, dim), i, a, dim)
        r = t if r is None else r + t
    return r


def curl_curl(W, reset=True):
    F, C, D = W.field("field", True), W.field("curl", True), W.field("curl_of_curl", True)
    p, q = W.scalar("p"), W.scalar("q")
    k = W.gen("gen_curl_pyst_kernel_3d", reset_ghost_zone=reset)
    k(curl=C.arr, field=F.arr, prefactor=p)
    k(curl=D.arr, field=C.arr, prefactor=q)
    for c in range(3):
        W.equal("component %d of curl curl is gradient of divergence minus the wide Laplacian" % c, 2,
                lambda *i: D.now(c, *i), lambda *i: p * q * grad_div_minus_lap(F, c, i, 3, range(3)))


def curl_curl_2d(W, reset=True):
    s, u, w = W.field("streamfunction"), W.field("velocity", True), W.field("vorticity")
    p, q = W.scalar("p"), W.scalar("q")
    out = W.gen("gen_outplane_field_curl_pyst_kernel_2d", reset_ghost_zone=reset)
    inn = W.gen("gen_inplane_field_curl_pyst_kernel_2d")
    out(curl=u.arr, field=s.arr, prefactor=p)
    inn(curl=w.arr, field=u.arr, prefactor=q)
    W.equal("the velocity of a streamfunction is discretely divergence free", 2,
            lambda *i: cd(comp(u.now, 0), i, 0, 2) + cd(comp(u.now, 1), i, 1, 2), zero)
    W.equal("vorticity of the velocity of a streamfunction is minus its wide Laplacian", 2, w.now,
            lambda *i: -1 * p * q * (cd(lambda *j: cd(s, j, 0, 2), i, 0, 2) + cd(lambda *j: cd(s, j, 1, 2), i, 1, 2)))
    F, v, D = W.field("field", True), W.field("curl_in"), W.field("curl_of_curl", True)
    inn(curl=v.arr, field=F.arr, prefactor=p)
    out(curl=D.arr, field=v.arr, prefactor=q)
    for c in range(2):
        W.equal("component %d of curl curl is gradient of divergence minus the wide Laplacian" % c, 2,
                lambda *i: D.now(c, *i), lambda *i: p * q * grad_div_minus_lap(F, c, i, 2, range(2)))


def diff_names(dim, vec):
    return ("vector_field_diffusion_flux", "vector_field") if vec else ("diffusion_flux", "field")


def diff_opts(dim, vec, **o):
    if dim == 3:
        o["field_type"] = "vector" if vec else "scalar"
    return o


def diffusion_form(W, vec=False, reset=True):
    """divergence form: one flux per face, shared by its two cells"""
    dim = W.dim
    o, f = diff_names(dim, vec)
    G, F = W.field(o, vec), W.field(f, vec)
    p = W.scalar("prefactor")
    W.gen("gen_diffusion_flux_pyst_kernel_%dd" % dim, **diff_opts(dim, vec, reset_ghost_zone=reset))(
        **{o: G.arr, f: F.arr, "prefactor": p})
    for c in range(dim if vec else 1):
        g = comp(F, c) if vec else F
        now = (lambda *i: G.now(c, *i)) if vec else G.now
        face = lambda i, a: p * (g(*e(i, a, 1, dim)) - g(*i))
        W.equal("component %d: flux is the difference of face fluxes" % c, 1, now,
                lambda *i: sum((face(i, a) - face(e(i, a, -1, dim), a) for a in range(1, dim)),
                               face(i, 0) - face(e(i, 0, -1, dim), 0)))
        if reset:
            W.equal("component %d: no flux is added on the ghost ring" % c, 0, now, zero, ring=1)


def stretching_bilinear(W):
    n = "vorticity_stretching_flux_field"
    k = W.gen("gen_vorticity_stretching_flux_pyst_kernel_3d")
    a, b, p = W.scalar("a"), W.scalar("b"), W.scalar("prefactor")
    w1, w2, u1, u2 = (W.field(x, True) for x in ("w1", "w2", "u1", "u2"))
    w = W.field("w", True, data=lambda c, i: a * w1(c, *i) + b * w2(c, *i))
    u = W.field("u", True, data=lambda c, i: a * u1(c, *i) + b * u2(c, *i))
    K = {}
    for q, (x, y) in dict(w1u=(w1, u1), w2u=(w2, u1), wu=(w, u1), w1v=(w1, u2), w1c=(w1, u)).items():
        K[q] = W.field("flux_" + q, True)
        k(**{n: K[q].arr, "vorticity_field": x.arr, "velocity_field": y.arr, "prefactor": p})
    K2 = W.field("flux_scaled", True)
    k(**{n: K2.arr, "vorticity_field": w1.arr, "velocity_field": u1.arr, "prefactor": a * p})
    for c in range(3):
        W.equal("component %d: linear in the vorticity" % c, 0, lambda *i: K["wu"].now(c, *i),
                lambda *i: a * K["w1u"].now(c, *i) + b * K["w2u"].now(c, *i))
        W.equal("component %d: linear in the velocity" % c, 0, lambda *i: K["w1c"].now(c, *i),
                lambda *i: a * K["w1u"].now(c, *i) + b * K["w1v"].now(c, *i))
        W.equal("component %d: proportional to the prefactor" % c, 0, lambda *i: K2.now(c, *i),
                lambda *i: a * K["w1u"].now(c, *i))


LINEAR = {
    "curl3": (3, "gen_curl_pyst_kernel_3d", dict(reset_ghost_zone=True), ("curl", True), ("field", True), "prefactor"),
    "div3": (3, "gen_divergence_pyst_kernel_3d", dict(reset_ghost_zone=True), ("divergence", False), ("field", True),
             "inv_dx"),
    "diff2": (2, "gen_diffusion_flux_pyst_kernel_2d", dict(reset_ghost_zone=True), ("diffusion_flux", False),
              ("field", False), "prefactor"),
    "diff3": (3, "gen_diffusion_flux_pyst_kernel_3d", dict(reset_ghost_zone=True, field_type="scalar"),
              ("diffusion_flux", False), ("field", False), "prefactor"),
    "diffv3": (3, "gen_diffusion_flux_pyst_kernel_3d", dict(reset_ghost_zone=True, field_type="vector"),
               ("vector_field_diffusion_flux", True), ("vector_field", True), "prefactor"),
    "curlin2": (2, "gen_inplane_field_curl_pyst_kernel_2d", {}, ("curl", False), ("field", True), "prefactor"),
    "curlout2": (2, "gen_outplane_field_curl_pyst_kernel_2d", dict(reset_ghost_zone=True), ("curl", True),
                 ("field", False), "prefactor"),
}


def operator_linear(W, op):
    dim, gen, opts, (o, ov), (f, fv), s = LINEAR[op]
    k = W.gen(gen, **opts)
    a, b, p = W.scalar("a"), W.scalar("b"), W.scalar("p")
    x, y = W.field("x", fv), W.field("y", fv)
    z = W.field("z", fv, data=(lambda c, i: a * x(c, *i) + b * y(c, *i)) if fv else
                (lambda c, i: a * x(*i) + b * y(*i)))
    out = {}
    for n, h in (("x", x), ("y", y), ("z", z)):
        out[n] = W.field("out_" + n, ov)
        k(**{o: out[n].arr, f: h.arr, s: p})
    margin = 0 if opts.get("reset_ghost_zone") else 1
    for c in range(dim if ov else 1):
        g = lambda n: comp(out[n].now, c) if ov else out[n].now
        W.equal("component %d: linear in the field" % c, margin, g("z"),
                lambda *i: a * g("x")(*i) + b * g("y")(*i))


def affine(W, name, vec):
    """an arbitrary linear-plus-constant field of the position; -> handle, matrix A[c][axis]"""
    h = W.scalar("h", True)
    A = [[W.scalar("A%d%d" % (c, a)) for a in range(W.dim)] for c in range(W.dim if vec else 1)]
    b = [W.scalar("b%d" % c) for c in range(W.dim if vec else 1)]

    def data(c, i):
        r = b[c]
        for a in range(W.dim):
            r = r + A[c][a] * (h * i[W.dim - 1 - a])
        return r
    return W.field(name, vec, data=data), A, h


def const(v):
    return lambda *i: v


def exact_curl3(W):
    F, A, h = affine(W, "field", True)
    C = W.field("curl", True)
    W.gen("gen_curl_pyst_kernel_3d")(curl=C.arr, field=F.arr, prefactor=1 / (2 * h))
    for c in range(3):
        p, q = (c + 1) % 3, (c + 2) % 3
        W.equal("component %d of the curl of a linear field" % c, 1, comp(C.now, c), const(A[q][p] - A[p][q]))


def exact_div3(W):
    F, A, h = affine(W, "field", True)
    D = W.field("divergence")
    W.gen("gen_divergence_pyst_kernel_3d")(divergence=D.arr, field=F.arr, inv_dx=1 / h)
    W.equal("divergence of a linear field", 1, D.now, const(A[0][0] + A[1][1] + A[2][2]))


def exact_curl2(W):
    F, A, h = affine(W, "field", True)
    C = W.field("curl")
    W.gen("gen_inplane_field_curl_pyst_kernel_2d")(curl=C.arr, field=F.arr, prefactor=1 / (2 * h))
    W.equal("curl of a linear planar field", 1, C.now, const(A[1][0] - A[0][1]))


def exact_curlout2(W):
    F, A, h = affine(W, "field", False)
    C = W.field("curl", True)
    W.gen("gen_outplane_field_curl_pyst_kernel_2d")(curl=C.arr, field=F.arr, prefactor=1 / (2 * h))
    W.equal("x velocity of a linear streamfunction", 1, comp(C.now, 0), const(A[0][1]))
    W.equal("y velocity of a linear streamfunction", 1, comp(C.now, 1), const(0 - A[0][0]))


def exact_diffusion(W, vec=False):
    dim = W.dim
    o, f = diff_names(dim, vec)
    F, A, h = affine(W, f, vec)
    G = W.field(o, vec)
    W.gen("gen_diffusion_flux_pyst_kernel_%dd" % dim, **diff_opts(dim, vec))(
        **{o: G.arr, f: F.arr, "prefactor": W.scalar("p") / (h * h)})
    for c in range(dim if vec else 1):
        W.equal("component %d: diffusion of a linear field vanishes" % c, 0, comp(G.now, c) if vec else G.now, zero)


def exact_stretching(W):
    u, A, h = affine(W, "velocity_field", True)
    w, K = W.field("vorticity_field", True), W.field("flux", True)
    W.gen("gen_vorticity_stretching_flux_pyst_kernel_3d")(
        vorticity_stretching_flux_field=K.arr, vorticity_field=w.arr, velocity_field=u.arr, prefactor=1 / (2 * h))
    for c in range(3):
        W.equal("component %d: stretching in a linear velocity field" % c, 1, comp(K.now, c),
                lambda *i: w(0, *i) * A[c][0] + w(1, *i) * A[c][1] + w(2, *i) * A[c][2])


def diffusion_step_form(W, vec=False):
    """one explicit diffusion step in conservation form"""
    dim = W.dim
    f = "vector_field" if vec else "field"
    F, B = W.field(f, vec), W.field("diffusion_flux")
    k = W.scalar("nu_dt_by_dx2")
    W.gen("gen_diffusion_timestep_euler_forward_pyst_kernel_%dd" % dim, **diff_opts(dim, vec))(
        **{f: F.arr, "diffusion_flux": B.arr, "nu_dt_by_dx2": k})
    for c in range(dim if vec else 1):
        g = comp(F, c) if vec else F
        face = lambda i, a: k * (g(*e(i, a, 1, dim)) - g(*i))
        W.equal("component %d: change is the difference of face fluxes" % c, 1, comp(F.now, c) if vec else F.now,
                lambda *i: sum((face(i, a) - face(e(i, a, -1, dim), a) for a in range(dim)), g(*i)))
        W.equal("component %d: unchanged on the ring" % c, 0, comp(F.now, c) if vec else F.now, g, ring=1)


# --------------------------------------------------------------- C04: advection
def eno_face(W, g, v, i, a, dim):
    """flux through the face between i and i + e_a"""
    m = lambda k: g(*e(i, a, k, dim)) * v(a, *e(i, a, k, dim))
    up = m(1) / 3 + m(0) * 5 / 6 - m(-1) / 6
    dn = m(0) / 3 + m(1) * 5 / 6 - m(2) / 6
    return W.ite(v(a, *i) + v(a, *e(i, a, 1, dim)) > 0, up, dn)


def advection_constant(W, step=False, vec=False):
    """constant field, uniform velocity: nothing happens"""
    dim = W.dim
    f0, V = [W.scalar("f%d" % c) for c in range(dim if vec else 1)], [W.scalar("v%d" % a) for a in range(dim)]
    f = "vector_field" if vec else "field"
    F = W.field(f, vec, data=lambda c, i: f0[c])
    v = W.field("velocity", True, data=lambda c, i: V[c])
    G = W.field("advection_flux")
    if step:
        W.gen("gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_%dd" % dim, **diff_opts(dim, vec))(
            **{f: F.arr, "advection_flux": G.arr, "velocity": v.arr, "dt_by_dx": W.scalar("dt_by_dx")})
        for c in range(dim if vec else 1):
            W.equal("component %d: constant field unchanged" % c, 0, comp(F.now, c) if vec else F.now, const(f0[c]))
        return
    W.gen("gen_advection_flux_conservative_eno3_pyst_kernel_%dd" % dim)(
        advection_flux=G.arr, field=F.arr, velocity=v.arr, inv_dx=W.scalar("inv_dx"))
    W.equal("no flux is added for a constant field in a uniform velocity", 0, G.now, G)


def advection_linear(W):
    """linear field, uniform velocity: the flux is velocity times gradient"""
    dim = W.dim
    F, A, h = affine(W, "field", False)
    V = [W.scalar("v%d" % a) for a in range(dim)]
    v = W.field("velocity", True, data=lambda c, i: V[c])
    G = W.field("advection_flux", data=lambda c, i: 0)
    W.gen("gen_advection_flux_conservative_eno3_pyst_kernel_%dd" % dim)(
        advection_flux=G.arr, field=F.arr, velocity=v.arr, inv_dx=1 / h)
    W.equal("advection of a linear field in a uniform velocity", 2, G.now,
            const(sum((V[a] * A[0][a] for a in range(1, dim)), V[0] * A[0][0])))


def advection_form(W, step=False, vec=False):
    """conservation form with one flux per face, which vanishes where the field does"""
    dim = W.dim
    f = "vector_field" if vec else "field"
    F, v, G = W.field(f, vec), W.field("velocity", True), W.field("advection_flux")
    k = W.scalar("k")
    if step:
        W.gen("gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_%dd" % dim, **diff_opts(dim, vec))(
            **{f: F.arr, "advection_flux": G.arr, "velocity": v.arr, "dt_by_dx": k})
    else:
        W.gen("gen_advection_flux_conservative_eno3_pyst_kernel_%dd" % dim)(
            **{"advection_flux": G.arr, f: F.arr, "velocity": v.arr, "inv_dx": k})
    for c in range(dim if vec else 1):
        g = comp(F, c) if vec else F
        face = lambda i, a: (-1 * k if step else k) * eno_face(W, g, v, i, a, dim)
        old = g if step else G
        now = (comp(F.now, c) if vec else F.now) if step else G.now
        W.equal("component %d: change is the difference of face fluxes" % c, 2, now,
                lambda *i: sum((face(i, a) - face(e(i, a, -1, dim), a) for a in range(dim)), old(*i)))
        W.equal("component %d: unchanged next to the boundary" % c, 0, now, old, ring=2)


# ------------------------------------------------------------- C10: penalisation
def brinkmann_blend(W, vec=False):
    dim = W.dim
    t = "_vector" if vec else ""
    N = ("penalised%s_field" % t, "vector_field" if vec else "field", "penalty%s_field" % t)
    o, f, p = (W.field(n, vec) for n in N)
    chi = W.field("char_field", sample="unit")
    lam = W.scalar("penalty_factor", nonneg=True)
    W.gen("gen_brinkmann_penalise_pyst_kernel_%dd" % dim, field_type="vector" if vec else "scalar")(
        **{N[0]: o.arr, N[1]: f.arr, N[2]: p.arr, "char_field": chi.arr, "penalty_factor": lam})
    unit = lambda i: W.all(chi(*i) >= 0, chi(*i) <= 1)
    W.kept("the characteristic function", chi)
    for h in (f, p):
        W.kept("the input", h)
    for c in range(dim if vec else 1):
        x, y, z = (comp(q, c) if vec else q for q in (f, p, o.now))
        W.holds("component %d: lies between the field and the penalty field" % c, 0,
                lambda *i: W.le((z(*i) - x(*i)) * (z(*i) - y(*i)), 0), given=lambda *i: unit(i))
        W.equal("component %d: equals the field outside the body" % c, 0, z, x, given=lambda *i: W.eq(chi(*i), 0))
        W.equal("component %d: distance to the penalty field shrinks by 1 + factor * char" % c, 0,
                lambda *i: (z(*i) - y(*i)) * (1 + lam * chi(*i)), lambda *i: x(*i) - y(*i), given=lambda *i: unit(i))


def brinkmann_fixed_blend(W, vec=False):
    dim = W.dim
    N = ("penalised_vector_field", "vector_field") if vec else ("penalised_field", "field")
    o, f = (W.field(n, vec) for n in N)
    chi = W.field("char_field", sample="unit")
    lam = W.scalar("penalty_factor", nonneg=True)
    pv = [W.scalar("pv%d" % c) for c in range(dim if vec else 1)]
    W.gen("gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d", field_type="vector" if vec else "scalar")(
        **{N[0]: o.arr, N[1]: f.arr, "char_field": chi.arr, "penalty_factor": lam, "penalty_val": pv if vec else pv[0]})
    unit = lambda i: W.all(chi(*i) >= 0, chi(*i) <= 1)
    for h in (chi, f):
        W.kept("the input", h)
    for c in range(dim if vec else 1):
        x, z = (comp(q, c) if vec else q for q in (f, o.now))
        W.holds("component %d: lies between the field and the body value" % c, 0,
                lambda *i: W.le((z(*i) - x(*i)) * (z(*i) - pv[c]), 0), given=lambda *i: unit(i))
        W.equal("component %d: equals the field outside the body" % c, 0, z, x, given=lambda *i: W.eq(chi(*i), 0))
        W.equal("component %d: distance to the body value shrinks by 1 + factor * char" % c, 0,
                lambda *i: (z(*i) - pv[c]) * (1 + lam * chi(*i)), lambda *i: x(*i) - pv[c], given=lambda *i: unit(i))


# ------------------------------------------------------------- C11: Heaviside
def heaviside(W):
    """two level sets of opposite sign through one kernel"""
    dim = W.dim
    b = W.scalar("blend_width", True)
    s = W.field("level_set", sample=lambda rng, shape: level_sample(rng, shape, b))
    m = W.field("minus_level_set", data=lambda c, i: -1 * s(*i))
    k = W.gen("gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_%dd" % dim, blend_width=b)
    H, M = W.field("char_func"), W.field("char_func_of_minus")
    k(char_func_field=H.arr, level_set_field=s.arr)
    k(char_func_field=M.arr, level_set_field=m.arr)
    W.equal("one above the blend width", 0, H.now, const(1), given=lambda *i: s(*i) > b)
    W.equal("zero below minus the blend width", 0, H.now, const(0), given=lambda *i: s(*i) < -1 * b)
    W.equal("H(s) + H(-s) = 1", 0, lambda *i: H.now(*i) + M.now(*i), const(1))
    W.equal("closed form within the blend, both ends included", 0, H.now,
            lambda *i: (1 + s(*i) / b + W.sin(W.pi * s(*i) / b) / W.pi) / 2,
            given=lambda *i: W.all(s(*i) <= b, s(*i) >= -1 * b))


def heaviside_interface(W):
    """on the interface itself"""
    z, H = W.field("level_set", data=lambda c, i: 0), W.field("char_func")
    W.gen("gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_%dd" % W.dim,
          blend_width=W.scalar("blend_width", True))(char_func_field=H.arr, level_set_field=z.arr)
    W.equal("one half on the interface", 0, H.now, const(HALF))


def level_sample(rng, shape, b):
    import numpy as np
    x = rng.uniform(-2 * b, 2 * b, shape)
    k = rng.integers(0, 5, shape)
    return np.where(k == 0, b, np.where(k == 1, -b, np.where(k == 2, 0.0, x)))
