"""C08: batching and jit never change results; containers survive flattening."""

import dataclasses
import functools

import jax
import jax.numpy as jnp
import numpy as np

from fmmax import basis, beams, farfield, fft, fields, fmm, pml, scattering, sources, utils, vector
from vk import gen, ref, scene
from vk.core import Discard

RULE = (
    "Random problems with one- and two-dimensional batches in any broadcasting mix of wavelength, wavevector, lattice vectors and "
    "materials (isotropic, tensor, magnetic; uniform and patterned); each batch element is evaluated again alone and the implied "
    "generators, field scattering, fields, fluxes, amplitudes, grids, sources, far fields, tangent fields are compared; then the "
    "same under jit with solve results and scattering matrices crossing the jit boundary, and containers are flattened and rebuilt."
)
ASSUMPTIONS = [
    "eigenmodes are compared through the generator of the field evolution, as their order and normalization are free",
    "layer thicknesses are scalars (batched thicknesses are not documented)",
    "ill-conditioned layers (by the reference model) are discarded",
]
REQUIRED = {
    "eigensolve_batch": 200, "s_batch": 60, "z_batch": 150, "functions_batch": 300, "amplitude_batch": 60, "columns": 60,
    "source_batch": 40, "source_coefficients": 20, "field_amplitudes_batch": 6, "operators_batch": 60, "jit": 60, "jit_boundary": 30,
    "jit_static": 20, "pytree_roundtrip": 100, "pytree_map": 40, "pytree_placeholder": 40, "pytree_equality": 40, "batch_shape": 60,
    "tangent_batch": 8, "auto_batch": 8, "farfield_batch": 8, "fields_3d_batch": 10, "vmap": 8,
}

# Combinations of batch shapes that broadcast, and their common shape.
MIXES = [
    ((3,), (3,), (3,), (3,)), ((2, 1), (1, 3), (), (2, 3)), ((), (2, 3), (3,), ()), ((3,), (2, 1), (), (2, 3)), ((2, 3), (), (1, 1), (3,)),
    ((), (), (2,), ()), ((2,), (), (), ()), ((), (2,), (), ()), ((), (), (), (2,)), ((1,), (1,), (2,), (1,)), ((2, 1), (), (2, 1), (1, 2)),
    ((1, 2), (2, 1), (), ()), ((), (), (2, 1), (1, 3)), ((1,), (), (), ()), ((2, 1, 1), (3, 1), (1,), (2,)), ((), (2, 1), (2,), ()),
    # As many batch elements as modes, which must not be taken for one another.
    ((), (), (), (6,)),
]


def take(a, idx, trail):
    """The unbatched array of one batch element of a broadcastable array."""
    a = np.asarray(a)
    nb = a.ndim - trail
    i = idx[len(idx) - nb :] if nb else ()
    return a[tuple(min(j, d - 1) for j, d in zip(i, a.shape[:nb]))]


def slice_result(r, idx):
    f = lambda x, t: jnp.asarray(take(x, idx, t))
    l = r.primitive_lattice_vectors
    return dataclasses.replace(
        r,
        **{},
    ) if not idx else fmm.LayerSolveResult(
        wavelength=f(r.wavelength, 0), in_plane_wavevector=f(r.in_plane_wavevector, 1),
        primitive_lattice_vectors=basis.LatticeVectors(u=f(l.u, 1), v=f(l.v, 1)), expansion=r.expansion,
        eigenvalues=f(r.eigenvalues, 1), eigenvectors=f(r.eigenvectors, 2),
        z_permittivity_matrix=f(r.z_permittivity_matrix, 2), inverse_z_permittivity_matrix=f(r.inverse_z_permittivity_matrix, 2),
        z_permeability_matrix=f(r.z_permeability_matrix, 2), inverse_z_permeability_matrix=f(r.inverse_z_permeability_matrix, 2),
        transverse_permeability_matrix=f(r.transverse_permeability_matrix, 2),
        tangent_vector_field=None if r.tangent_vector_field is None else tuple(f(t, 2) for t in r.tangent_vector_field),
    )


def slice_s(S, idx):
    f = lambda x: jnp.asarray(take(x, idx, 2))
    return scattering.ScatteringMatrix(
        s11=f(S.s11), s12=f(S.s12), s21=f(S.s21), s22=f(S.s22),
        start_layer_solve_result=slice_result(S.start_layer_solve_result, idx), start_layer_thickness=S.start_layer_thickness,
        end_layer_solve_result=slice_result(S.end_layer_solve_result, idx), end_layer_thickness=S.end_layer_thickness,
    )


def elements(rng, B, m=3):
    out = list(np.ndindex(*B))
    return [out[i] for i in rng.permutation(len(out))[:m]]


def setup(ctx, rng, mix=None, n=None):
    wb, kb, lb, eb = mix if mix is not None else MIXES[ctx.index % len(MIXES)]
    p = float(rng.uniform(0.6, 1.3))
    lats = [gen.lattice(rng, scale=p)[1:] for _ in range(int(np.prod(lb, dtype=int)))]
    U = np.array([l[0] for l in lats]).reshape(lb + (2,))
    V = np.array([l[1] for l in lats]).reshape(lb + (2,))
    wl = rng.uniform(0.5, 1.4, wb)
    k = rng.uniform(-3, 3, kb + (2,))
    G = gen.orders(rng, n or (3 if eb == (6,) else int(rng.choice([3, 5]))), max_order=1)
    B = np.broadcast_shapes(wb, kb, lb, eb)
    ctx.describe(mix=(wb, kb, lb, eb), U=U, V=V, wl=wl, k=k, G=G)
    ctx.tag(mix=str((wb, kb, lb, eb)), N=len(G))
    return dict(
        wl=wl, k0=k, U=U, V=V, G=G, B=B, eb=eb, exp=gen.expansion(G), lat=basis.LatticeVectors(u=jnp.asarray(U), v=jnp.asarray(V)),
    )


def single(s, idx):
    u, v = take(s["U"], idx, 1), take(s["V"], idx, 1)
    wl, k = float(take(s["wl"], idx, 0)), take(s["k0"], idx, 1)
    return dict(u=u, v=v, G=s["G"], wl=wl, w=2 * np.pi / wl, k0=k, K=ref.kvecs(k, u, v, s["G"]), lat=gen.lv(u, v), exp=s["exp"])


def broadcast_custom(tx, ty):
    def fn(arr, expansion, primitive_lattice_vectors):
        return jnp.broadcast_to(jnp.asarray(tx), arr.shape), jnp.broadcast_to(jnp.asarray(ty), arr.shape)

    return fn


def batched_layer(rng, eb, shape, uniform=None, api=None, lossless=False):
    """A layer whose material arrays have leading batch axes eb (every element different)."""
    api = api or str(rng.choice(["iso", "iso", "aniso", "general"]))
    uniform = bool(rng.random() < 0.3) if uniform is None else uniform
    shape = (1, 1) if uniform else shape
    m = int(np.prod(eb, dtype=int))
    ls = []
    for _ in range(m):
        if api == "iso":
            l = gen.uniform_iso(rng, lossless) if uniform else gen.patterned_iso(rng, shape, lossless=lossless)
        else:
            e = gen.tensor(rng, shape, str(rng.choice(["diag", "symmetric", "hermitian"])), lossless)
            mu = gen.tensor(rng, shape, "diag", lossless) if api == "general" else gen.unit_mu(shape)
            l = gen.Layer("t", api, e, mu, gen.FFT)
        ls.append(l)
    st = lambda arrs: np.stack(arrs).reshape(eb + shape)
    eps = [st([l.eps[i] for l in ls]) for i in range(len(ls[0].eps))]
    mu = [st([l.mu[i] for l in ls]) for i in range(5)]
    out = gen.Layer(f"batched_{api}", api, eps, mu, gen.FFT)
    if not uniform and rng.random() < 0.35:
        tk, tx, ty = gen.custom_tfield(rng, shape, str(rng.choice(["real", "jones", "constant"])))
        out.formulation, out.tfield = broadcast_custom(tx, ty), (tx, ty)
    return out


def single_layer(l, idx):
    return gen.Layer(l.kind, l.api, [take(a, idx, 2) for a in l.eps], [take(a, idx, 2) for a in l.mu], l.formulation, tfield=l.tfield)


def solve_all(ctx, rng, s, layers, m=3):
    els = elements(rng, s["B"], m)
    ctx.describe(layers=[l.describe() for l in layers], els=els)
    for l in layers:
        ctx.tag(api=l.api, uniform=l.uniform, f=l.fname())
    ones = {}
    for e in els:
        s1 = single(s, e)
        for i, l in enumerate(layers):
            l1 = single_layer(l, e)
            scene.check_layer(l1, s1, l1.tfield, max_cond=1e4)
            ones[e, i] = (s1, l1)
    return els, ones, [scene.solve(l, s) for l in layers]


def scat_close(ctx, name, got, want, tol, **kw):
    for g, w, b in zip(got, want, ("s11", "s12", "s21", "s22")):
        ctx.close(name, g, w, tol, scale=max(np.max(np.abs(w)), 1e-2), block=b, **kw)


def eigensolves(ctx, rng):
    s = setup(ctx, rng)
    shape = [(5, 6), (7, 7), (4, 9)][int(rng.integers(3))]
    # The layers of a stack may be batched differently from one another.
    mats = [s["eb"], (), s["eb"]]
    layers = [batched_layer(rng, e, shape, uniform=(i == 0), api="iso" if i == 0 else None) for i, e in enumerate(mats)]
    # The forward label of lossless modes of numerically solved layers is arbitrary, so that an end layer absorbs.
    last = layers[2]
    for i in range(len(last.eps)):
        if i in (0, 3, 4):
            last.eps[i] = last.eps[i] + 0.2j
    els, ones, rs = solve_all(ctx, rng, s, layers)
    th = [float(t) for t in rng.uniform(0.0, 0.6, 3)]
    S = scene.stack_s(rs, th)
    singles = {}
    for i, r in enumerate(rs):
        Bi = np.broadcast_shapes(s["wl"].shape, s["k0"].shape[:-1], s["U"].shape[:-1], mats[i])
        ctx.true("batch_shape", r.batch_shape == Bi and r.eigenvalues.shape == Bi + (2 * len(s["G"]),), got=r.batch_shape, want=Bi)
        X = scene.observed_generator(r)
        for e in els:
            s1, l1 = ones[e, i]
            r1 = scene.solve(l1, s1)
            singles[e, i] = r1
            ctx.true("batch_shape", r1.batch_shape == ())
            ctx.close("eigensolve_batch", take(X, e, 2), scene.observed_generator(r1), 1e-8, layer=i, element=e)
            q, q1 = take(r.eigenvalues, e, 1), scene.np_(r1.eigenvalues)
            ctx.close("eigensolve_batch", np.sort_complex(np.round(q**2, 6)), np.sort_complex(np.round(q1**2, 6)), 1e-5, what="eigenvalues")
            for nm in ("z_permittivity_matrix", "inverse_z_permittivity_matrix", "z_permeability_matrix", "inverse_z_permeability_matrix",
                       "transverse_permeability_matrix", "omega_script_k_matrix"):
                ctx.close("z_batch", take(getattr(r, nm), e, 2), scene.np_(getattr(r1, nm)), 1e-10, what=nm)
            if r1.tangent_vector_field is not None:
                for c in (0, 1):
                    ctx.close("z_batch", take(r.tangent_vector_field[c], e, 2), scene.np_(r1.tangent_vector_field[c]), 1e-12, what="tangent")
    f = scene.field_s(S, S.start_layer_solve_result, S.end_layer_solve_result)
    for e in els:
        S1 = scene.stack_s([singles[e, i] for i in range(3)], th)
        scat_close(ctx, "s_batch", [take(b, e, 2) for b in f], scene.field_s(S1), 1e-6, element=e)


def _out(x):
    """Flat list of arrays of a nested result."""
    return [np.asarray(a) for a in jax.tree_util.tree_leaves(x)]


def compare(ctx, name, got, want, e, lead, trails, tol=1e-9, **kw):
    """Compares element e of each batched output with the unbatched output.

    lead: axes before the batch axes; trails: number of axes after them.
    """
    got, want = _out(got), _out(want)
    if not ctx.true(name, len(got) == len(want), **kw):
        return
    for g, w, t in zip(got, want, trails):
        nb = g.ndim - t - lead
        i = e[len(e) - nb :] if nb > 0 else ()
        sel = (slice(None),) * lead + tuple(min(j, d - 1) for j, d in zip(i, g.shape[lead : lead + nb]))
        ctx.close(name, g[sel], w, tol, floor=1e-6, **kw)


def functions(ctx, rng):
    """Every function of a solve result or stack, for a batch and for each of its elements."""
    s = setup(ctx, rng)
    shape = (7, 6)
    layers = [batched_layer(rng, s["eb"], shape) for _ in range(3)]
    els, ones, rs = solve_all(ctx, rng, s, layers, 2)
    B, n = s["B"], len(s["G"])
    c = int(rng.choice([1, 2, 3]))
    amode = ctx.index % 3  # amplitudes: full batch, none, or an extra leading axis
    A = {0: B, 1: (), 2: (2,) + B}[amode]
    ctx.tag(amplitudes=amode)
    a, b = [scene.crandn(rng, *A, 2 * n, c) for _ in range(2)]
    th = [float(t) for t in rng.uniform(0.05, 0.5, 3)]
    jt = [jnp.asarray(t) for t in th]
    r = rs[1]
    S = scene.stack_s(rs, th)
    si = scattering.stack_s_matrices_interior(tuple(rs), tuple(jt))
    grid, cells = (7, 8), (2, 1)
    X, Y = [jnp.asarray(t) for t in rng.uniform(-1, 1, (2, 3, 2))]
    z = jnp.asarray(0.3 * th[1])
    fns = {
        "propagate": (lambda r, S, a, b: fields.propagate_amplitude(a, z, r), [2]),
        "colocate": (lambda r, S, a, b: fields.colocate_amplitudes(a, b, z, r, jt[1]), [2, 2]),
        "amplitude_flux": (lambda r, S, a, b: fields.amplitude_poynting_flux(a, b, r), [2, 2]),
        "directional_flux": (lambda r, S, a, b: fields.directional_poynting_flux(a, b, r), [2, 2]),
        "eigenmode_flux": (lambda r, S, a, b: fields.eigenmode_poynting_flux(r), [1]),
        "fields": (lambda r, S, a, b: fields.fields_from_wave_amplitudes(a, b, r), [2] * 6),
        "conversion": (lambda r, S, a, b: fields.field_conversion_matrix(r), [2]),
        "interior": (lambda r, S, a, b: fields.amplitudes_interior(S, S, a, b), [2, 2]),
        "set_thickness": (lambda r, S, a, b: [getattr(scattering.set_end_layer_thickness(S, jnp.asarray(0.37)), q) for q in ("s11", "s12", "s21", "s22")], [2] * 4),
        "append": (lambda r, S, a, b: [getattr(scattering.append_layer(S, r, jnp.asarray(0.2)), q) for q in ("s11", "s12", "s21", "s22")], [2] * 4),
        "prepend": (lambda r, S, a, b: [getattr(scattering.prepend_layer(S, r, jnp.asarray(0.2)), q) for q in ("s11", "s12", "s21", "s22")], [2] * 4),
        "star": (lambda r, S, a, b: [getattr(scattering.redheffer_star_product(S, S), q) for q in ("s11", "s12", "s21", "s22")], [2] * 4),
    }

    def grid_fn(r, S, a, b):
        e, h = fields.fields_from_wave_amplitudes(a, b, r)
        e, h, xy = fields.fields_on_grid(e, h, r, grid, cells)
        return (e, h, xy)

    def coord_fn(r, S, a, b):
        e, h = fields.fields_from_wave_amplitudes(a, b, r)
        e, h, _ = fields.fields_on_coordinates(e, h, r, X, Y)
        return (e, h)

    fns["grid"] = (grid_fn, [3] * 6 + [2] * 2)
    fns["coordinates"] = (coord_fn, [3] * 6)
    names = [str(x) for x in rng.permutation(list(fns))[:9]]
    ja, jb = jnp.asarray(a), jnp.asarray(b)
    got = {nm: fns[nm][0](r, S, ja, jb) for nm in names}
    for e in els:
        r1, S1 = slice_result(r, e), slice_s(S, e)
        full = e if amode != 2 else (int(rng.integers(2)),) + e
        a1, b1 = jnp.asarray(take(a, full, 2)), jnp.asarray(take(b, full, 2))
        for nm in names:
            ctx.tag(function=nm)
            compare(ctx, "functions_batch", got[nm], fns[nm][0](r1, S1, a1, b1), full, 0, fns[nm][1], what=nm, element=e)
    # Interior amplitudes and scattering matrices of the interior.
    amps = fields.stack_amplitudes_interior(si, ja, jb)
    e = els[0]
    full = e if amode != 2 else (1,) + e
    si1 = scattering.stack_s_matrices_interior(tuple(slice_result(q, e) for q in rs), tuple(jt))
    a1, b1 = jnp.asarray(take(a, full, 2)), jnp.asarray(take(b, full, 2))
    amps1 = fields.stack_amplitudes_interior(si1, a1, b1)
    compare(ctx, "amplitude_batch", amps, amps1, full, 0, [2] * 6, tol=1e-7)
    # Trailing amplitude columns are independent of one another.
    j = int(rng.integers(c))
    f_all = fields.fields_from_wave_amplitudes(ja, jb, r)
    f_one = fields.fields_from_wave_amplitudes(ja[..., j : j + 1], jb[..., j : j + 1], r)
    for g, w in zip(_out(f_all), _out(f_one)):
        ctx.close("columns", g[..., j : j + 1], w, 1e-10, floor=1e-6)
    p_all, p_one = fields.directional_poynting_flux(ja, jb, r), fields.directional_poynting_flux(ja[..., j : j + 1], jb[..., j : j + 1], r)
    for g, w in zip(_out(p_all), _out(p_one)):
        ctx.close("columns", g[..., j : j + 1], w, 1e-10, floor=1e-6)
    # Three-dimensional fields of the stack (amplitudes with the batch shape of the layers).
    if ctx.index % 2 == 0:
        fa, fb = jnp.asarray(scene.crandn(rng, *B, 2 * n, c)), jnp.asarray(scene.crandn(rng, *B, 2 * n, c))
        zn = (2, 1, 2)

        def f3(rs, a, b):
            am = tuple((a, b) for _ in rs)
            ef, hf, (x, y, zz) = fields.stack_fields_3d(am, tuple(rs), tuple(jt), zn, grid, (1, 1))
            ec, hc, _ = fields.stack_fields_3d_on_coordinates(am, tuple(rs), tuple(jt), zn, X, Y)
            return ef, hf, ec, hc

        full3 = f3(rs, fa, fb)
        one3 = f3([slice_result(q, e) for q in rs], jnp.asarray(take(fa, e, 2)), jnp.asarray(take(fb, e, 2)))
        compare(ctx, "fields_3d_batch", full3, one3, e, 1, [4] * 4)


def source_fns(ctx, rng):
    s = setup(ctx, rng)
    layers = [batched_layer(rng, s["eb"], (6, 5)) for _ in range(3)]
    els, ones, rs = solve_all(ctx, rng, s, layers, 2)
    B, n = s["B"], len(s["G"])
    c = int(rng.choice([1, 2]))
    th = [jnp.asarray(float(t)) for t in rng.uniform(0.05, 0.5, 3)]
    src = 1 + ctx.index % 2
    Sb = scattering.stack_s_matrix(tuple(rs[:src]), tuple(th[:src]))
    Sa = scattering.stack_s_matrix(tuple(rs[src:]), tuple(th[src:]))
    J = {0: B, 1: (), 2: B}[int(rng.integers(3))]
    j = [scene.crandn(rng, *J, n, c) for _ in range(3)]
    ctx.tag(currents="batched" if J == B else "shared")
    got = sources.amplitudes_for_source(*[jnp.asarray(q) for q in j], Sb, Sa)
    em = sources.emission_matrix(Sb, Sa)
    for e in els:
        j1 = [jnp.asarray(take(q, e, 2)) for q in j]
        one = sources.amplitudes_for_source(*j1, slice_s(Sb, e), slice_s(Sa, e))
        compare(ctx, "source_batch", got, one, e, 0, [2] * 6, tol=1e-7)
        compare(ctx, "source_batch", em, sources.emission_matrix(slice_s(Sb, e), slice_s(Sa, e)), e, 0, [2])
    # Coefficients of localized sources for batched wavevectors and lattices.
    loc = rng.uniform(-1, 1, (c, 2))
    kk = jnp.asarray(s["k0"])
    fw = float(rng.uniform(0.05, 0.5))
    fns = [
        lambda k, lat: sources.dirac_delta_source(jnp.asarray(loc), k, lat, s["exp"]),
        lambda k, lat: sources.gaussian_source(jnp.asarray(fw), jnp.asarray(loc), k, lat, s["exp"]),
        lambda k, lat: basis.transverse_wavevectors(k, lat, s["exp"]),
    ]
    for f in fns:
        g = f(kk, s["lat"])
        for e in els:
            s1 = single(s, e)
            compare(ctx, "source_coefficients", g, f(jnp.asarray(s1["k0"]), s1["lat"]), e, 0, [2], tol=1e-11)


def field_source(ctx, rng):
    """Amplitudes for given fields, batched over wavelengths beside the Brillouin axes."""
    s = setup(ctx, rng, mix=((), (), (), ()))
    bz = (2, 2) if ctx.index % 2 else (1, 2)
    k = np.asarray(basis.brillouin_zone_in_plane_wavevector(bz, s["lat"]))
    nw = 3
    wl = rng.uniform(0.5, 1.3, nw)
    order = ctx.index % 3  # wavelength axis before, after or between the Brillouin axes
    W = {0: (nw, 1, 1), 1: (1, 1, nw), 2: (1, nw, 1)}[order]
    ks = {0: k, 1: k[:, :, None], 2: k[:, None]}[order]
    axes = {0: (1, 2), 1: (0, 1), 2: (0, 2)}[order]
    ctx.tag(layout=order, bz=str(bz))
    l = batched_layer(rng, (), (6, 6))
    ctx.describe(layer=l.describe(), wl=wl, bz=bz, order=order)
    sb = dict(wl=wl.reshape(W), k0=ks, lat=s["lat"], exp=s["exp"])
    for x in wl:
        for kk in k.reshape(-1, 2):
            s1 = dict(u=s["U"], v=s["V"], G=s["G"], wl=x, w=2 * np.pi / x, K=ref.kvecs(kk, s["U"], s["V"], s["G"]))
            scene.check_layer(l, s1, l.tfield, max_cond=1e4)
    r = scene.solve(l, sb)
    g = (bz[0] * 5, bz[1] * 4)
    fb = r.batch_shape if False else {0: (nw, 1, 1), 1: (1, 1, nw), 2: (1, nw, 1)}[order]
    fl = [scene.crandn(rng, *fb, *g, 2) for _ in range(4)]
    # Axes count from the layer batch, as in the fields when they have three batch axes.
    got = sources.amplitudes_for_fields(*[jnp.asarray(f) for f in fl], layer_solve_result=r, brillouin_grid_axes=axes)
    for i in range(nw):
        ri = scene.solve(l, dict(wl=wl[i], k0=k, lat=s["lat"], exp=s["exp"]))
        one = sources.amplitudes_for_fields(*[jnp.asarray(f.reshape(nw, *g, 2)[i][None, None]) for f in fl], layer_solve_result=ri, brillouin_grid_axes=(0, 1))
        for gg, ww in zip(got, one):
            x = np.asarray(gg)
            x = x[i] if order == 0 else (x[:, :, i] if order == 1 else x[:, i])
            # Independent solves: compare in field space.
            Fb = scene.conversion(r)
            Fb = Fb[i] if order == 0 else (Fb[:, :, i] if order == 1 else Fb[:, i])
            if gg is got[0]:
                b_ = np.asarray(got[1])
                b_ = b_[i] if order == 0 else (b_[:, :, i] if order == 1 else b_[:, i])
                ctx.close("field_amplitudes_batch", Fb @ np.concatenate([x, b_], -2), scene.conversion(ri) @ np.concatenate([np.asarray(one[0]), np.asarray(one[1])], -2), 1e-6)


def operators(ctx, rng):
    """Fourier operators, lattice helpers, PML, beams over leading batch axes."""
    s = setup(ctx, rng)
    ex, B = s["exp"], [(), (2,), (2, 3), (3, 1)][ctx.index % 4]
    nx, ny = int(rng.integers(5, 9)), int(rng.integers(5, 9))
    x = scene.crandn(rng, *B, nx, ny)
    y = scene.crandn(rng, *B, len(s["G"]))
    e = tuple(int(rng.integers(d)) for d in B)
    pr = pml.PMLParams(num_x=int(rng.integers(0, 3)), num_y=int(rng.integers(0, 3)))
    pairs = {
        "fft": (lambda t: fft.fft(t, ex), x, 2, [1]), "conv": (lambda t: fft.fourier_convolution_matrix(t, ex), x, 2, [2]),
        "ifft": (lambda t: fft.ifft(t, ex, (nx, ny)), y, 1, [2]), "pml": (lambda t: pml.apply_uniaxial_pml(t, pr), x, 2, [2] * 10),
        "adjoint": (lambda t: utils.matrix_adjoint(t), x, 2, [2]), "diag": (lambda t: utils.diag(t), y, 1, [2]),
        "gradient": (lambda t: vector.compute_gradient(t, gen.lv(*gen.lattice(np.random.default_rng(7))[1:])), x, 2, [3]),
    }
    for nm, (f, arr, t_in, t_out) in pairs.items():
        ctx.tag(operator=nm)
        compare(ctx, "operators_batch", f(jnp.asarray(arr)), f(jnp.asarray(arr[e])), e, 0, t_out, tol=1e-11, what=nm)
    # Eigendecomposition of stacks of matrices.
    M = scene.crandn(rng, *B, 6, 6)
    w, v = [np.asarray(t) for t in utils.eig(jnp.asarray(M))]
    ctx.close("operators_batch", M @ v, v * w[..., None, :], 1e-9, what="eig")
    w1 = np.asarray(utils.eig(jnp.asarray(M[e]))[0])
    ctx.close("operators_batch", np.sort_complex(w[e]), np.sort_complex(w1), 1e-9, what="eig values")
    # Lattices.
    lb = s["U"].shape[:-1]
    le = tuple(int(rng.integers(d)) for d in lb)
    l1 = gen.lv(s["U"][le], s["V"][le])
    compare(ctx, "operators_batch", s["lat"].reciprocal, l1.reciprocal, le, 0, [1, 1], tol=1e-11, what="reciprocal")
    sh, nc = (3, 4), (2, 1)
    compare(ctx, "operators_batch", basis.unit_cell_coordinates(s["lat"], sh, nc), basis.unit_cell_coordinates(l1, sh, nc), le, 0, [2, 2], what="coordinates")
    compare(ctx, "operators_batch", basis.brillouin_zone_in_plane_wavevector((2, 3), s["lat"]), basis.brillouin_zone_in_plane_wavevector((2, 3), l1), le, 0, [3], what="brillouin")
    an = rng.uniform(0, 1, (2,) + B)
    wl = rng.uniform(0.4, 1.5, B)
    f = lambda wl, p, az, ep: basis.plane_wave_in_plane_wavevector(jnp.asarray(wl), jnp.asarray(p), jnp.asarray(az), jnp.asarray(ep))
    compare(ctx, "operators_batch", f(wl, an[0], an[1], 2.1), f(wl[e], an[0][e], an[1][e], 2.1), e, 0, [1], what="plane wave")
    # Beams over coordinate arrays.
    X, Y, Z = rng.uniform(-1, 1, (3,) + B + (2, 3))
    A = rng.normal(size=(6, 3))

    def beam(x, y, z):
        c = jnp.stack([x, y, z], -1)
        f = jnp.sin(c @ jnp.asarray(A.T)) + 1j * jnp.cos(2 * c @ jnp.asarray(A.T))
        return tuple(f[..., i] for i in range(3)), tuple(f[..., i] for i in range(3, 6))

    ang = [jnp.asarray(t) for t in rng.uniform(-1, 1, 6)]
    g = beams.shifted_rotated_fields(beam, *[jnp.asarray(t) for t in (X, Y, Z)], *ang)
    o = beams.shifted_rotated_fields(beam, *[jnp.asarray(t[e]) for t in (X, Y, Z)], *ang)
    compare(ctx, "operators_batch", g, o, e, 0, [2] * 6, tol=1e-9, what="beams")
    # Far field with extra batch axes.
    u, v = take(s["U"], (0,) * len(lb), 1), take(s["V"], (0,) * len(lb), 1)
    lat = gen.lv(u, v)
    bz = (2, 2)
    k = basis.brillouin_zone_in_plane_wavevector(bz, lat)
    nb = 3
    wls = rng.uniform(0.5, 1.5, nb)
    flux = rng.uniform(0, 1, (nb,) + bz + (2 * len(s["G"]), 2))
    i = int(rng.integers(nb))
    ff = lambda fl, wl, q, ax: (
        farfield.farfield_profile(jnp.asarray(fl), jnp.asarray(wl), q, lat, ex, ax),
        farfield.integrated_flux(jnp.asarray(fl), jnp.asarray(wl), q, lat, ex, ax, lambda p, a: (p < 0.9) & (a > -1.0), 2),
    )
    if ctx.index % 2 == 0:
        gp, gi = ff(flux, wls[:, None, None], k[None], (1, 2))
        op, oi = ff(flux[i], wls[i].reshape(1, 1), k, (0, 1))
        for a, b in zip(_out(gp), _out(op)):
            m = np.isfinite(b)
            a = np.broadcast_to(a, (nb,) + a.shape[1:])  # angles may be shared by the batch elements
            ctx.true("farfield_batch", a[i].shape == b.shape and np.array_equal(np.isfinite(a[i]), m) and np.allclose(a[i][m], b[m], rtol=1e-9, atol=1e-12))
        ctx.close("farfield_batch", np.asarray(gi)[i], oi, 1e-9)


# ---------------------------------------------------------------------------
# jit
# ---------------------------------------------------------------------------


def jitted(ctx, rng):
    """The whole chain, eagerly and under jit, with containers crossing the boundary."""
    mix = MIXES[int(rng.integers(len(MIXES)))] if ctx.index % 3 == 0 else ((), (), (), ())
    s = setup(ctx, rng, mix=mix)
    layers = [batched_layer(rng, s["eb"], (5, 6), uniform=(i == 0)) for i in range(2)]
    els, ones, rs = solve_all(ctx, rng, s, layers, 1)
    B, n = s["B"], len(s["G"])
    a, b = [jnp.asarray(scene.crandn(rng, *B, 2 * n, 2)) for _ in range(2)]
    ds = jnp.asarray(rng.uniform(0.05, 0.5, 2))

    def solve(wl, k, lat, exp, formulation_eps):
        out = []
        for l, eps in zip(layers, formulation_eps):
            out.append(gen.solve(dataclasses.replace(l, eps=list(eps)), wl, k, lat, exp))
        return tuple(out)

    args = (jnp.asarray(s["wl"]), jnp.asarray(s["k0"]), s["lat"], s["exp"], tuple(tuple(jnp.asarray(e) for e in l.eps) for l in layers))
    jr = jax.jit(solve)(*args)
    for r, q in zip(rs, jr):
        ctx.close("jit", scene.observed_generator(q), scene.observed_generator(r), 1e-8, what="eigensolve")
        ctx.true("jit", q.batch_shape == r.batch_shape and np.array_equal(q.expansion.basis_coefficients, r.expansion.basis_coefficients))
        ctx.close("jit", q.wavelength, r.wavelength, 1e-12)
        ctx.close("jit", q.in_plane_wavevector, r.in_plane_wavevector, 1e-12)
    stack = lambda rs, ds: scattering.stack_s_matrix(tuple(rs), tuple(ds[i] for i in range(2)))
    S, SJ = stack(jr, ds), jax.jit(stack)(jr, ds)  # solve results from jit, into jit
    for q in ("s11", "s12", "s21", "s22"):
        ctx.close("jit_boundary", getattr(SJ, q), getattr(S, q), 1e-8, scale=1.0, what=q)
    ctx.close("jit_boundary", SJ.end_layer_solve_result.eigenvalues, jr[1].eigenvalues, 1e-12)
    ctx.close("jit_boundary", SJ.start_layer_thickness, ds[0], 1e-12)
    ctx.close("jit_boundary", SJ.end_layer_thickness, ds[1], 1e-12)

    def chain(S, r, a, b):
        p = fields.directional_poynting_flux(a, b, r)
        e, h = fields.fields_from_wave_amplitudes(a, b, r)
        g = fields.fields_on_grid(e, h, r, (5, 5), (1, 2))
        i = fields.amplitudes_interior(S, S, a, b)
        S2 = scattering.append_layer(S, r, jnp.asarray(0.3))
        return p, (e, h), g, i, S2

    want, got = chain(S, jr[1], a, b), jax.jit(chain)(S, jr[1], a, b)
    for g, w in zip(_out(got), _out(want)):
        ctx.close("jit_boundary", g, w, 1e-7, floor=1e-3)
    ctx.true("jit_boundary", isinstance(got[-1], scattering.ScatteringMatrix) and got[-1].end_layer_solve_result.expansion == jr[1].expansion
             or np.array_equal(got[-1].end_layer_solve_result.expansion.basis_coefficients, s["G"]))
    # Vectorizing over amplitude sets equals a loop.
    if ctx.index % 2 == 0:
        aa, bb = jnp.stack([a, 2 * b]), jnp.stack([b, a])
        vm = jax.vmap(lambda a, b: fields.directional_poynting_flux(a, b, jr[1]))(aa, bb)
        for i in range(2):
            one = fields.directional_poynting_flux(aa[i], bb[i], jr[1])
            for g, w in zip(_out(vm), _out(one)):
                ctx.close("vmap", g[i], w, 1e-9, floor=1e-6)


def static(ctx, rng):
    """Cached traces are not reused for a different expansion, formulation or truncation."""
    lk, u, v = gen.lattice(rng)
    lat = gen.lv(u, v)
    n = int(rng.choice([5, 7]))
    G = gen.orders(rng, n, max_order=1)
    perm = np.concatenate([[0], 1 + rng.permutation(n - 1)])
    Gs = [G, G[perm], -G, G[:, ::-1].copy(), G.astype(np.int32)]
    shape = (6, 7)
    x = scene.crandn(rng, *shape)
    y = scene.crandn(rng, n)
    k = rng.uniform(-2, 2, 2)
    ctx.describe(G=G, perm=perm, x=x)
    f = jax.jit(lambda x, y, k, e: (fft.fft(x, e), fft.ifft(y, e, shape), fft.fourier_convolution_matrix(x, e), basis.transverse_wavevectors(k, lat, e)))
    order = rng.permutation(len(Gs))
    for i in order:
        e = gen.expansion(Gs[i])
        got = f(jnp.asarray(x), jnp.asarray(y), jnp.asarray(k), e)
        want = (fft.fft(jnp.asarray(x), e), fft.ifft(jnp.asarray(y), e, shape), fft.fourier_convolution_matrix(jnp.asarray(x), e), basis.transverse_wavevectors(jnp.asarray(k), lat, e))
        for g, w in zip(_out(got), _out(want)):
            ctx.close("jit_static", g, w, 1e-11, which=int(i))
    # Formulation and truncation as arguments of a jitted function.
    fj = jax.jit(lambda x, f, t: (x * (1.0 if f is fmm.Formulation.FFT else 2.0), {basis.Truncation.CIRCULAR: 3.0, basis.Truncation.PARALLELOGRAMIC: 4.0}[t]))
    for f_ in (fmm.Formulation.FFT, fmm.Formulation.POL, fmm.Formulation.FFT):
        for t in (basis.Truncation.CIRCULAR, basis.Truncation.PARALLELOGRAMIC):
            o = fj(jnp.ones(()), f_, t)
            ctx.true("jit_static", float(o[0]) == (1.0 if f_ is fmm.Formulation.FFT else 2.0) and float(o[1]) == (3.0 if t is basis.Truncation.CIRCULAR else 4.0))
    pj = jax.jit(lambda e, q: pml.apply_uniaxial_pml(e, q))
    eps = jnp.asarray(rng.uniform(1, 3, (8, 8)))
    for q in (pml.PMLParams(2, 1), pml.PMLParams(1, 2), pml.PMLParams(2, 1, a_max=2.0), pml.PMLParams(2, 1, sigma_max=0.4), pml.PMLParams(2, 1, p=2.0)):
        for g, w in zip(_out(pj(eps, q)), _out(pml.apply_uniaxial_pml(eps, q))):
            ctx.close("jit_static", g, w, 1e-10)


# ---------------------------------------------------------------------------
# Containers
# ---------------------------------------------------------------------------


def _same(a, b):
    """Deep equality of containers, attribute by attribute."""
    if type(a) is not type(b):
        return False
    if dataclasses.is_dataclass(a):
        return all(_same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, jnp.ndarray)):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(np.asarray(a), np.asarray(b)))
    return a is b or a == b


def containers(ctx, rng):
    s = setup(ctx, rng)
    layers = [batched_layer(rng, s["eb"], (5, 6)) for _ in range(2)]
    els, ones, rs = solve_all(ctx, rng, s, layers, 1)
    S = scene.stack_s(rs, [0.1, 0.2])
    f = list(fmm.Formulation)[int(rng.integers(len(fmm.Formulation)))]
    t = list(basis.Truncation)[int(rng.integers(2))]
    pr = pml.PMLParams(num_x=int(rng.integers(0, 4)), num_y=int(rng.integers(0, 4)), a_max=float(rng.uniform(1, 5)), p=float(rng.uniform(1, 5)), sigma_max=float(rng.uniform(0, 3)))
    objs = {"LayerSolveResult": rs[0], "LayerSolveResult2": rs[1], "ScatteringMatrix": S, "LatticeVectors": s["lat"], "Expansion": s["exp"], "Truncation": t, "Formulation": f, "PMLParams": pr,
            "nested": {"a": (S, [rs[1], None]), "b": (s["exp"], f)}}
    tu = jax.tree_util
    for nm, o in objs.items():
        ctx.tag(container=nm)
        leaves, td = tu.tree_flatten(o)
        back = tu.tree_unflatten(td, leaves)
        if nm == "nested":
            ok = _same(back["a"][0], S) and _same(back["a"][1][0], rs[1]) and _same(back["b"], o["b"])
        else:
            ok = _same(back, o)
        ctx.true("pytree_roundtrip", ok, what=nm)
        ctx.true("pytree_equality", td == tu.tree_structure(back) and hash(td) == hash(tu.tree_structure(back)), what=nm)
        # Placeholders for leaves, as jax itself uses.
        try:
            ph = tu.tree_unflatten(td, [object() for _ in leaves]) if nm in ("LatticeVectors", "Expansion", "Truncation", "Formulation") else tu.tree_map(lambda x: x, o)
            ctx.true("pytree_placeholder", True if ph is not None else False, what=nm)
        except Exception as e:
            ctx.true("pytree_placeholder", False, what=nm, error=str(e)[:100])
        if leaves and nm != "PMLParams":
            dbl = tu.tree_map(lambda x: x * 2, o)
            l2, td2 = tu.tree_flatten(dbl)
            ctx.true("pytree_map", td2 == td and all(np.array_equal(np.asarray(p) * 2, np.asarray(q)) for p, q in zip(leaves, l2)), what=nm)
            dev = jax.device_get(o)
            ctx.true("pytree_map", tu.tree_structure(dev) == td, what=nm)
    # Results keep each attribute in its own place.
    r2 = tu.tree_map(lambda x: x + 0, rs[0])
    for fl in dataclasses.fields(fmm.LayerSolveResult):
        ctx.true("pytree_roundtrip", _same(getattr(r2, fl.name), getattr(rs[0], fl.name)), what=fl.name)
    S2 = tu.tree_map(lambda x: x + 0, S)
    for fl in dataclasses.fields(scattering.ScatteringMatrix):
        ctx.true("pytree_roundtrip", _same(getattr(S2, fl.name), getattr(S, fl.name)), what=fl.name)
    # Distinct expansions are distinct structures; equal ones are equal.
    G = s["G"]
    td = tu.tree_structure(gen.expansion(G))
    ctx.true("pytree_equality", td == tu.tree_structure(gen.expansion(G.copy())), what="equal expansions")
    for other in (G[::-1].copy(), -G, G[:-2], np.concatenate([G, [[5, 5], [-5, -5]]]), G[:, ::-1].copy()):
        if other.shape == G.shape and np.array_equal(other, G):
            continue
        ctx.true("pytree_equality", td != tu.tree_structure(gen.expansion(other)), what="different expansions")
    # Stacking solve results along a new axis keeps each of them.
    if rs[0].tangent_vector_field is None:
        st = tu.tree_map(lambda *x: jnp.stack(x), rs[0], rs[0])
        ctx.true("pytree_map", st.batch_shape == (2,) + rs[0].batch_shape and _same(tu.tree_map(lambda x: x[1], st), rs[0]))


# ---------------------------------------------------------------------------
# Automatic tangent fields
# ---------------------------------------------------------------------------

AUTO_G = np.array([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1]])


def auto(ctx, rng):
    """Automatic tangent fields and vector formulations over batches of patterns and lattices."""
    f = gen.VECTOR_FORMULATIONS[ctx.index % 8]
    shape = (12, 12)
    B, lb = [((3,), ()), ((2, 1), (1, 2)), ((2,), (2,)), ((), (2,))][(ctx.index // 2) % 4]
    E = np.array([1 + 4 * gen.rich_density(rng, shape) for _ in range(int(np.prod(B, dtype=int)))]).reshape(B + shape).astype(complex)
    lats = [gen.lattice(rng, str(rng.choice(["rect", "oblique", "hex", "lefthanded"])))[1:] for _ in range(int(np.prod(lb, dtype=int)))]
    U, V = [np.array([l[i] for l in lats]).reshape(lb + (2,)) for i in (0, 1)]
    lat = basis.LatticeVectors(u=jnp.asarray(U), v=jnp.asarray(V))
    ex = gen.expansion(AUTO_G)
    ctx.describe(f=f.name, E=E, U=U, V=V)
    ctx.tag(formulation=f.name, mix=str((B, lb)))
    fn = vector.VECTOR_FIELD_SCHEMES[f.value]
    full = np.broadcast_shapes(B, lb)
    got = fn(jnp.asarray(E), ex, lat)
    # Solve, too: generators follow from the fields.
    api = "iso" if ctx.index % 2 else "general"
    k = rng.uniform(-2, 2, 2)
    wl = 0.8

    def solve(e, l):
        z = np.zeros_like(e)
        lay = gen.Layer("p", api, [e] if api == "iso" else [e, z, z, 0.8 * e, e], gen.unit_mu(e.shape), f)
        return gen.solve(lay, wl, k, l, ex)

    X = scene.observed_generator(solve(E, lat))
    for e in elements(rng, full, 2):
        l1 = gen.lv(take(U, e, 1), take(V, e, 1))
        E1 = take(E, e, 2)
        one = fn(jnp.asarray(E1), ex, l1)
        for g, w in zip(got, one):
            ctx.close("tangent_batch", take(g, e, 2), w, 1e-6, scale=1.0, element=e)
        ctx.close("auto_batch", take(X, e, 2), scene.observed_generator(solve(E1, l1)), 1e-5, element=e)


PROFILES = {
    "eigensolves": dict(fn=eigensolves, quick=34, split=5, cost=1.2),
    "functions": dict(fn=functions, quick=20, split=4, cost=1.5),
    "sources": dict(fn=source_fns, quick=24, split=2, cost=1.0),
    "field_source": dict(fn=field_source, quick=9, split=1, cost=1.0),
    "operators": dict(fn=operators, quick=16, split=1, cost=0.7),
    "jitted": dict(fn=jitted, quick=12, split=3, cost=6),
    "static": dict(fn=static, quick=8, split=2, cost=2),
    "containers": dict(fn=containers, quick=16, split=1, cost=0.7),
    "auto": dict(fn=auto, quick=8, thorough=40, split=8, cost=40),
}
