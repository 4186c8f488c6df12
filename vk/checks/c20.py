"""C20: equivalent descriptions of a structure are interchangeable."""

import dataclasses

import jax.numpy as jnp
import numpy as np

from fmmax import vector
from vk import gen, ref, scene
from vk.core import Discard

RULE = (
    "Random structures written in every equivalent form the API offers (value or constant array, scalar or tensor, implicit "
    "or unit permeability, singleton axis or repeated array, custom or built-in tangent field, permuted orders, arbitrary "
    "period along the invariant axis, real or complex dtype); the generators implied by the solved modes and the scattering "
    "of sandwiches are compared, one-dimensional gratings also with the exact inverse/Laurent factorization."
)
ASSUMPTIONS = [
    "constant tensor arrays with a custom tangent field: constant fields only (others are inexact in any truncated basis)",
    "near-cutoff and ill-conditioned layers (by the reference model) are discarded",
    "sandwich ambients differ from the layer, as the labelling of lossless degenerate modes of tensor-described layers is arbitrary",
]
REQUIRED = {
    "uniform_generator": 100, "uniform_scattering": 60, "patterned_generator": 60, "patterned_scattering": 40, "singleton": 40,
    "free_period": 40, "order_permutation": 40, "grating_exact": 40, "grating_auto": 12, "uniform_auto": 6, "custom_equals_builtin": 8,
    "source_default": 30, "dtype": 25,
}


def sol(l, s):
    return scene.solve(l, s)


def generator(r):
    return scene.observed_generator(r)


def iso(e, f=gen.FFT, tf=None):
    return gen.Layer("iso", "iso", [e], gen.unit_mu(e.shape), f, tfield=tf)


def aniso(e, api, f=gen.FFT, tf=None):
    z = np.zeros_like(e)
    return gen.Layer("diag", api, [e, z, z, e, e], gen.unit_mu(e.shape), f, tfield=tf)


def sandwich(ctx, rng, s, e_ref):
    """A function scattering a layer between two fixed, different uniform media."""
    while True:
        a, b = [np.array([[gen.scalar_eps(rng, str(rng.choice(["vacuum", "dielectric", "lossy"])))[1]]]) for _ in range(2)]
        if min(np.min(np.abs(x - e_ref)) for x in (a, b)) > 0.2:
            break
    la, lb = iso(a), iso(b)
    for l in (la, lb):
        scene.check_layer(l, s)
    ra, rb = sol(la, s), sol(lb, s)
    d = float(rng.uniform(0.05, 0.8)) * s["wl"]
    ctx.describe(ambients=(a, b), d=d)
    return lambda r: scene.field_s(scene.stack_s([ra, r, rb], [0.1, d, 0.2]))


def cmp_s(ctx, name, got, want, tol, **kw):
    for g, w, b in zip(got, want, ("s11", "s12", "s21", "s22")):
        ctx.close(name, g, w, tol, scale=max(np.max(np.abs(w)), 1e-2), block=b, **kw)


def uniform(ctx, rng):
    s = scene.setup(ctx, rng, n=int(rng.choice([1, 5, 7])), max_order=2)
    mk, e = gen.scalar_eps(rng)
    shape = [(5, 5), (7, 6), (9, 8)][int(rng.integers(3))]
    ctx.describe(eps=e, shape=shape)
    ctx.tag(material=mk)
    one = np.array([[e]])
    X, _, _ = scene.check_layer(iso(one), s)
    sc = np.max(np.abs(X))
    full = np.full(shape, e)
    tk, tx, ty = gen.custom_tfield(rng, shape)
    cf = gen.custom_vector_fn(tx, ty)
    # Tensor layers: only constant tangent fields factorize exactly in the truncated basis.
    cc = gen.custom_vector_fn(*gen.custom_tfield(rng, shape, "constant")[1:])
    vf = gen.VECTOR_FORMULATIONS[int(rng.integers(8))]
    forms = {
        "iso": iso(one), "iso_vector": iso(one, vf), "aniso": aniso(one, "aniso"), "general": aniso(one, "general"),
        "aniso_vector": aniso(one, "aniso", vf), "iso_array": iso(full), "aniso_array": aniso(full, "aniso"),
        "general_array": aniso(full, "general"), "iso_array_custom": iso(full, cf), "general_array_custom": aniso(full, "general", cc),
        "complex": iso(one.astype(complex)),
    }
    names = ["iso"] + [str(n) for n in rng.permutation(list(forms)[1:])[:6]]
    S0 = sand = None
    for nm in names:
        ctx.tag(form=nm)
        r = sol(forms[nm], s)
        ctx.close("dtype" if nm == "complex" else "uniform_generator", generator(r), X, 1e-8, scale=sc, form=nm)
        if sand is None:
            sand = sandwich(ctx, rng, s, np.array([e]))
            S0 = sand(r)
        else:
            cmp_s(ctx, "uniform_scattering", sand(r), S0, 1e-7, form=nm)


def tensor_uniform(ctx, rng):
    """A uniform tensor as one value or a constant array, with or without explicit permeability."""
    s = scene.setup(ctx, rng, n=5, max_order=1)
    shape = [(4, 5), (6, 3)][int(rng.integers(2))]
    l = gen.uniform_aniso(rng, lossless=bool(rng.random() < 0.3))
    ctx.describe(layer=l.describe())
    X, _, _ = scene.check_layer(l, s)
    sc = np.max(np.abs(X))
    r = sol(l, s)
    ctx.close("uniform_generator", generator(r), X, 1e-8, scale=sc)
    big = lambda t: [np.full(shape, a[0, 0]) for a in t]
    tk, tx, ty = gen.custom_tfield(rng, shape, "constant")
    forms = [(gen.FFT, "general"), (gen.custom_vector_fn(tx, ty), "general")]
    if all(np.array_equal(a, b) for a, b in zip(l.mu, gen.unit_mu((1, 1)))):
        forms.append((gen.FFT, "aniso"))
    for f, api in forms:
        r2 = sol(gen.Layer("u", api, big(l.eps), big(l.mu), f), s)
        ctx.close("uniform_generator", generator(r2), X, 1e-8, scale=sc, api=api)


def patterned(ctx, rng):
    """Isotropic pattern as scalar or tensors (FFT); unit permeability; dtype; default vector-field source."""
    s = scene.setup(ctx, rng, n=5, max_order=1)
    shape = [(9, 8), (6, 11)][int(rng.integers(2))]
    l = gen.patterned_iso(rng, shape, lossless=bool(rng.random() < 0.4))
    e = l.eps[0]
    ctx.describe(eps=e)
    ctx.tag(material=l.kind)
    X, _, _ = scene.check_layer(l, s)
    sc = np.max(np.abs(X))
    r = sol(l, s)
    ctx.close("patterned_generator", generator(r), X, 1e-8, scale=sc)
    sand = sandwich(ctx, rng, s, np.array([1e6]))
    S0 = sand(r)
    for api in ("aniso", "general"):
        r2 = sol(aniso(e, api), s)
        ctx.close("patterned_generator", generator(r2), X, 1e-8, scale=sc, api=api)
        cmp_s(ctx, "patterned_scattering", sand(r2), S0, 1e-7, api=api)
    ctx.close("dtype", generator(sol(iso(e.astype(complex)), s)), X, 1e-8, scale=sc)
    # Vector formulations: explicit unit permeability, default source, a field given in either way.
    tk, tx, ty = gen.custom_tfield(rng, shape)
    seen = []

    def fn(arr, expansion, primitive_lattice_vectors):
        seen.append(np.asarray(arr))
        return jnp.asarray(tx), jnp.asarray(ty)

    pa = gen.patterned_aniso(rng, shape, fn, lossless=bool(rng.random() < 0.4), magnetic=False)
    Xa, _, _ = scene.check_layer(pa, s, (tx, ty))
    ga = generator(sol(dataclasses.replace(pa, api="aniso"), s))
    gg = generator(sol(dataclasses.replace(pa, api="general"), s))
    src = (pa.eps[0] + pa.eps[3]) / 2
    gs = generator(sol(dataclasses.replace(pa, api="general", source=src), s))
    sca = np.max(np.abs(Xa))
    ctx.close("patterned_generator", ga, Xa, 1e-7, scale=sca)
    ctx.close("patterned_generator", gg, ga, 1e-8, scale=sca)
    ctx.close("source_default", gs, gg, 1e-8, scale=sca)
    ctx.true("source_default", len(seen) == 3 and all(np.allclose(a, src, rtol=1e-12) for a in seen))


def one_d_layers(rng, kind):
    """A one-dimensional profile as arrays (n, 1) for the descriptor kind."""
    n = int(rng.integers(9, 14))
    if kind == "iso":
        d = gen.density(rng, (n, 1), str(rng.choice(["random", "smooth", "binary"])))[1]
        if np.ptp(d) == 0:
            d[0, 0] = 1 - d[0, 0]
        lo, hi = rng.uniform(1, 2), [rng.uniform(3, 8), rng.uniform(2, 5) + 1j, -rng.uniform(3, 7) + 0.8j][int(rng.integers(3))]
        if np.real(hi) < 0:
            d = (d > 0.5).astype(float)
            d[0, 0], d[1, 0] = 0, 1
        return gen.Layer("1d", "iso", [lo + (hi - lo) * d], gen.unit_mu((n, 1)), gen.FFT)
    return gen.patterned_aniso(rng, (n, 1), gen.FFT, lossless=bool(rng.random() < 0.3))


def map_layer(l, fn, f=None):
    return dataclasses.replace(l, eps=[fn(a) for a in l.eps], mu=[fn(a) for a in l.mu], formulation=f or l.formulation)


def gratings(ctx, rng):
    """Singleton axis or repeated pattern; arbitrary period along the invariant axis; permuted orders; exact factorization."""
    s = scene.setup(ctx, rng, n=int(rng.choice([3, 5, 7])), one_d="x")
    l = one_d_layers(rng, ["iso", "tensor"][ctx.index % 2])
    n = l.shape[0]
    # Tangent: along v (interfaces run along v).
    vh = s["v"] / np.linalg.norm(s["v"])
    ph = np.exp(1j * rng.uniform(0, 6)) if rng.random() < 0.4 else 1.0
    t1 = (np.full((n, 1), vh[0] * ph), np.full((n, 1), vh[1] * ph))
    use_vec = bool(ctx.index % 4 >= 2)
    f1 = gen.custom_vector_fn(*t1) if use_vec else gen.FFT
    l = map_layer(l, lambda a: a, f1)
    ctx.describe(layer=l.describe(), vec=use_vec)
    ctx.tag(api=l.api, vec=use_vec)
    X, _, _ = scene.check_layer(l, s, t1 if use_vec else None)
    sc = np.max(np.abs(X))
    r = sol(l, s)
    g0 = generator(r)
    ctx.close("grating_exact" if use_vec else "patterned_generator", g0, X, 1e-7, scale=sc)
    if use_vec and l.api == "iso":
        # Explicit inverse/Laurent rule in the frame of the grating.
        N = len(s["G"])
        e = l.eps[0]
        T, Ti = ref.toeplitz(e, s["G"]), np.linalg.inv(ref.toeplitz(1 / e, s["G"]))
        nh = np.array([vh[1], -vh[0]])
        E = np.kron(np.outer(vh, vh), T) + np.kron(np.outer(nh, nh), Ti)
        Xe = ref.maxwell_generator(E, np.eye(2 * N), T, np.eye(N), s["K"], s["w"])
        ctx.close("grating_exact", g0, Xe, 1e-7, scale=sc)
    m = int(rng.integers(2, 6))
    rep = lambda a: np.repeat(a, m, axis=1)
    fm = gen.custom_vector_fn(rep(t1[0]), rep(t1[1])) if use_vec else gen.FFT
    ctx.close("singleton", generator(sol(map_layer(l, rep, fm), s)), g0, 1e-8, scale=sc, m=m)
    # Transposed roles: singleton first axis.
    sw = dict(s, u=s["v"], v=s["u"], lat=gen.lv(s["v"], s["u"]), G=s["G"][:, ::-1], exp=gen.expansion(s["G"][:, ::-1]))
    ft = gen.custom_vector_fn(t1[0].T, t1[1].T) if use_vec else gen.FFT
    ctx.close("singleton", generator(sol(map_layer(l, lambda a: a.T, ft), sw)), g0, 1e-8, scale=sc)
    # The length of v, and its component along u modulo... only the direction of v and the distance of its lines matter.
    al = float(rng.uniform(0.3, 3)) * float(rng.choice([-1, 1]))
    s2 = dict(s, v=s["v"] * al, lat=gen.lv(s["u"], s["v"] * al))
    ctx.close("free_period", generator(sol(l, s2)), g0, 1e-8, scale=sc)
    be = float(rng.uniform(-1, 1))
    s3 = dict(s, u=s["u"] + be * s["v"], lat=gen.lv(s["u"] + be * s["v"], s["v"]))
    ctx.close("free_period", generator(sol(l, s3)), g0, 1e-8, scale=sc)
    # Permuted orders.
    p = rng.permutation(len(s["G"]))
    s4 = dict(s, G=s["G"][p], K=s["K"][p], exp=gen.expansion(s["G"][p]))
    N = len(p)
    pp = np.concatenate([p + q * N for q in range(4)])
    ctx.close("order_permutation", generator(sol(l, s4)), g0[np.ix_(pp, pp)], 1e-8, scale=sc)
    S0 = None
    if rng.random() < 0.5:
        sand = sandwich(ctx, rng, s, np.array([1e6]))
        cmp_s(ctx, "patterned_scattering", sand(sol(map_layer(l, rep, fm), s)), sand(r), 1e-7)


AUTO_G = np.array([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1]])


def auto(ctx, rng):
    """Automatic formulations on one-dimensional gratings in any orientation; custom function equal to a built-in."""
    lk, u, v = gen.lattice(rng)
    wl = float(rng.uniform(0.5, 1.6))
    w = 2 * np.pi / wl
    kk, k = gen.kvector(rng, u, v, w)
    G = AUTO_G
    s = dict(u=u, v=v, G=G, wl=wl, w=w, k0=k, K=ref.kvecs(k, u, v, G), lat=gen.lv(u, v), exp=gen.expansion(G))
    f = gen.VECTOR_FORMULATIONS[(ctx.index // 2) % 8]
    i, j = np.meshgrid(np.arange(12), np.arange(12), indexing="ij")
    b = ref.recip(u, v)
    along = str(rng.choice(["u", "v", "+"]))
    idx = {"u": i, "v": j, "+": (i + j) % 12}[along]
    gd = {"u": b[0], "v": b[1], "+": b[0] + b[1]}[along]
    prof = rng.random(12) * 0.5 + 0.5 + 0.5 * np.cos(2 * np.pi * (np.arange(12) / 12 + rng.random()))
    hi = [rng.uniform(2, 5), rng.uniform(1, 4) + 2j, 1.5j, 2 + 3j * prof[::-1]][int(rng.integers(4))]
    e = (rng.uniform(1, 2) + hi * prof)[idx] + 0j
    l = iso(e, f)
    ctx.describe(lattice=lk, u=u, v=v, k=k, wl=wl, along=along, e=e, f=f.name)
    ctx.tag(auto=f.name, along=along, lattice=lk)
    nh = gd / np.linalg.norm(gd)
    th = np.array([nh[1], -nh[0]])
    N = len(G)
    T, Ti = ref.toeplitz(e, G), np.linalg.inv(ref.toeplitz(1 / e, G))
    E = np.kron(np.outer(th, th), T) + np.kron(np.outer(nh, nh), Ti)
    X = ref.maxwell_generator(E, np.eye(2 * N), T, np.eye(N), s["K"], w)
    gen.check_conditioning(X, w)
    r = sol(l, s)
    sc = np.max(np.abs(X))
    ctx.close("grating_auto", generator(r), X, 1e-6, scale=sc, api="iso")
    r2 = sol(aniso(e, "aniso", f), s)
    ctx.close("grating_auto", generator(r2), X, 1e-6, scale=sc, api="aniso")
    # Automatic field of a constant array.
    lu = gen.uniform_aniso(rng, lossless=False)
    Xu, _, _ = scene.check_layer(lu, s)
    big = lambda t: [np.full((12, 12), a[0, 0]) + 0j for a in t]
    ru = sol(gen.Layer("u", "general", big(lu.eps), big(lu.mu), f), s)
    ctx.close("uniform_auto", generator(ru), Xu, 1e-7)
    # A custom function equal to the built-in one, on a two-dimensional pattern.
    e2 = (1 + 3 * gen.rich_density(rng, (12, 12))) + 0j
    scene.check_layer(iso(e2), s)
    r3 = sol(iso(e2, f), s)
    g3 = generator(r3)
    tf = tuple(np.asarray(t) for t in r3.tangent_vector_field)
    g4 = generator(sol(iso(e2, gen.custom_vector_fn(*tf)), s))
    ctx.close("custom_equals_builtin", g4, g3, 1e-8)
    if ctx.index % 2 == 0:
        g5 = generator(sol(iso(e2, vector.VECTOR_FIELD_SCHEMES[f.value]), s))
        ctx.close("custom_equals_builtin", g5, g3, 1e-7)


PROFILES = {
    "uniform": dict(fn=uniform, quick=40, thorough=600, split=2),
    "tensor_uniform": dict(fn=tensor_uniform, quick=30, thorough=500, split=1),
    "patterned": dict(fn=patterned, quick=40, thorough=600, split=2),
    "gratings": dict(fn=gratings, quick=60, thorough=1000, split=3),
    "auto": dict(fn=auto, quick=16, thorough=240, split=4, cost=6),
}
