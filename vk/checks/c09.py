"""C09: automatic derivatives match the functions they differentiate."""

import functools

import jax
import jax.numpy as jnp
import numpy as np

from fmmax import basis, farfield, fft, fields, fmm, pml, scattering, sources, utils, vector
from vk import gen, ref, scene
from vk.core import Discard

RULE = (
    "Random stacks built from several structures (isotropic, tensor and magnetic layers, FFT and vector formulations, batches); "
    "random linear and quadratic observables that do not depend on the order of modes (scattering, fluxes, interior fields, source "
    "emission, implied generators) are differentiated by jax.grad and compared, one parameter group at a time, with Richardson "
    "central differences along random directions; degenerate structures are watched for non-finite gradients."
)
ASSUMPTIONS = [
    "modes closer than 2e-4 of the spectral range (by the reference model) are discarded for value checks, as the library documents a "
    "Lorentzian broadening of the derivative there; for degenerate structures values are checked along symmetry preserving directions only",
    "automatically generated tangent fields are constants for the derivative with respect to the material (stop_gradient in the library)",
]
REQUIRED = {"stack_grad": 300, "grad_finite": 100, "degenerate_finite": 60, "eig_grad": 40, "eig_exact": 10, "function_grad": 60, "batch_grad": 40, "auto_grad": 6, "auto_finite": 6}

GS = {
    "a": np.array([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]]),
    "b": np.array([[0, 0], [1, 1], [-1, -1], [1, 0], [-1, 0], [0, 1], [0, -1]]),
    "c": np.array([[0, 0], [1, 0], [-1, 0]]),
}


# ---------------------------------------------------------------------------
# Finite differences
# ---------------------------------------------------------------------------


def _dir(rng, x):
    """A random direction, relative to the magnitude of the parameter."""
    x = np.asarray(x)
    v = rng.normal(size=x.shape)
    if np.iscomplexobj(x):
        v = v + 1j * rng.normal(size=x.shape)
    n = np.sqrt(np.mean(np.abs(v) ** 2)) if v.size else 1.0
    return v / max(n, 1e-3)


def fd_directional(f, p, key, v, h):
    """Fourth-order central difference and an error estimate, of f(p + t v) at t = 0."""
    def at(t):
        q = dict(p)
        q[key] = p[key] + t * v
        return np.asarray(f(q), dtype=float)

    d1 = (at(h) - at(-h)) / (2 * h)
    d2 = (at(2 * h) - at(-2 * h)) / (4 * h)
    return (4 * d1 - d2) / 3, np.abs(d1 - d2) / 3


def check(ctx, rng, name, value, grad, p, keys, tol, h=2e-5, steps=None, w=None, max_fd_err=1e-2, **kw):
    """grad(p) against differences of value(p) (both scalar valued, jit compiled)."""
    g = grad(p)
    L = float(value(p))
    for key in keys:
        gk = np.asarray(g[key])
        if not ctx.finite("grad_finite", gk, key=key, **kw):
            continue
        x = np.asarray(p[key])
        scale = (steps or {}).get(key, 1.0)
        v = _dir(rng, x) * scale
        fd, err = fd_directional(value, p, key, v, h)
        want = float(fd)
        got = float(np.real(np.sum(gk * v)))
        # Norm of the gradient along single directions, so that cancellation in the random direction does not inflate the residual.
        ref_scale = max(abs(want), float(np.sqrt(np.sum(np.abs(gk * scale) ** 2))) * 0.05, 1e-5 * abs(L), 1e-9)
        if err > 1e-4 * ref_scale:
            # The function is too curved for differences (a property of values, not of gradients).
            ctx.tag(fd="too curved")
            continue
        ctx.expect(name, abs(got - want) / ref_scale, tol, key=key, got=got, want=want, **kw)


def gap_guard(layer, s, tfield=None, min_gap=2e-4, **kw):
    """Discards near-degenerate modes, using the reference model."""
    X = gen.ref_generator(layer, s["K"], s["w"], s["G"], tfield)
    q, V = gen.check_conditioning(X, s["w"], max_cond=1e4, min_q=0.1, **kw)
    q2 = q**2
    # +q and -q share q^2: keep one of each pair, by sorting.
    d = np.abs(q2[:, None] - q2[None, :])
    np.fill_diagonal(d, np.inf)
    d.sort(axis=1)
    if np.min(d[:, 1]) < min_gap * np.max(np.abs(q2[:, None] - q2[None, :])):
        raise Discard("near-degenerate modes")


# ---------------------------------------------------------------------------
# Stacks
# ---------------------------------------------------------------------------

# (kind, formulation) of each layer; the first and last are uniform and isotropic.
STRUCTURES = {
    "iso": [("iso", "FFT")],
    "iso_custom": [("iso", "custom")],
    "aniso": [("aniso", "FFT")],
    "aniso_custom": [("aniso", "custom")],
    "general": [("general", "FFT")],
    "general_custom": [("general", "custom")],
    "mixed": [("iso", "FFT"), ("uniform", "FFT"), ("aniso", "custom")],
    "uniform": [("uniform", "FFT"), ("uniform", "FFT")],
    "uniform_tensor": [("iso", "FFT"), ("uniform_aniso", "FFT")],
    "batched": [("iso", "FFT"), ("aniso", "FFT")],
}
NAMES = ["xx", "xy", "yx", "yy", "zz"]


def _solve(kind, form, p, i, exp):
    lat = basis.LatticeVectors(u=p["u"], v=p["v"])
    f = fmm.Formulation.FFT
    if form == "custom":
        f = lambda arr, expansion, primitive_lattice_vectors: (p[f"tx{i}"] + 0 * arr, p[f"ty{i}"] + 0 * arr)
    elif form != "FFT":
        f = form
    common = dict(wavelength=p["wl"], in_plane_wavevector=p["k"], primitive_lattice_vectors=lat, expansion=exp, formulation=f)
    if kind in ("iso", "uniform"):
        return fmm.eigensolve_isotropic_media(permittivity=p[f"e{i}"][0], **common)
    e = {f"permittivity_{n}": p[f"e{i}"][j] for j, n in enumerate(NAMES)}
    if kind in ("aniso", "uniform_aniso"):
        return fmm.eigensolve_anisotropic_media(**e, **common)
    m = {f"permeability_{n}": p[f"m{i}"][j] for j, n in enumerate(NAMES)}
    return fmm.eigensolve_general_anisotropic_media(**e, **m, **common)


GRID = (5, 6)
NUM_OBS = 9


def observables(p, kinds, exp):
    """Mode-order independent real observables of a stack."""
    kinds = [("uniform", "FFT")] + kinds + [("uniform", "FFT")]
    rs = [_solve(k, f, p, i, exp) for i, (k, f) in enumerate(kinds)]
    th = [p["th"][i] for i in range(len(rs))]
    S = scattering.stack_s_matrix(tuple(rs), tuple(th))
    W, a, b = p["W"], p["a"], p["b"]
    out = [jnp.real(jnp.sum(W[0] * S.s11)), jnp.real(jnp.sum(W[1] * S.s12)), jnp.sum(jnp.abs(W[2] * S.s21) ** 2), jnp.real(jnp.sum(W[3] * S.s22))]
    # Fluxes at both ends.
    b0 = S.s21 @ a + S.s22 @ b
    aN = S.s11 @ a + S.s12 @ b
    f0, g0 = fields.directional_poynting_flux(a, b0, rs[0])
    fN, gN = fields.amplitude_poynting_flux(aN, b, rs[-1])
    out.append(jnp.sum(p["w1"] * (f0 + 2 * g0)) + jnp.sum(p["w1"] * (fN - gN)))
    # Interior fields on a grid.
    si = scattering.stack_s_matrices_interior(tuple(rs), tuple(th))
    am = fields.stack_amplitudes_interior(si, a, b)
    i = 1
    ai, bi = fields.colocate_amplitudes(*am[i], z_offset=0.4 * th[i], layer_solve_result=rs[i], layer_thickness=th[i])
    ef, hf = fields.fields_from_wave_amplitudes(ai, bi, rs[i])
    e, h, _ = fields.fields_on_grid(ef, hf, rs[i], GRID, (1, 1))
    out.append(sum(jnp.sum(p["w3"][j] * jnp.abs(q) ** 2) for j, q in enumerate(e)))
    out.append(sum(jnp.real(jnp.sum(p["w3"][3 + j] * q)) for j, q in enumerate(h)))
    # Total flux inside.
    fi, gi = fields.directional_poynting_flux(ai, bi, rs[i])
    out.append(jnp.sum(fi + gi))
    # Emission of an internal source.
    Sb = scattering.stack_s_matrix(tuple(rs[:2]), tuple(th[:2]))
    Sa = scattering.stack_s_matrix(tuple(rs[2:]), tuple(th[2:]))
    em = sources.amplitudes_for_source(p["jx"], p["jy"], p["jz"], Sb, Sa)
    gb, _ = fields.directional_poynting_flux(jnp.zeros_like(em[0]), em[0], rs[0])
    _, gg = fields.directional_poynting_flux(jnp.zeros_like(em[0]), em[0], rs[0])
    ff, _ = fields.directional_poynting_flux(em[-1], jnp.zeros_like(em[-1]), rs[-1])
    out.append(jnp.sum(ff) - jnp.sum(gg) + jnp.sum(gb))
    return jnp.stack(out)


@functools.lru_cache(maxsize=64)
def compiled(name, gname, custom_forms=None):
    kinds = list(custom_forms or STRUCTURES[name])
    exp = gen.expansion(GS[gname])
    val = jax.jit(lambda p: jnp.sum(p["obs"] * observables(p, kinds, exp)))
    obs = jax.jit(lambda p: observables(p, kinds, exp))

    def g(p):
        d, s = {k: x for k, x in p.items() if k not in FIXED}, {k: x for k, x in p.items() if k in FIXED}
        return jax.grad(lambda d: jnp.sum(p["obs"] * observables({**d, **s}, kinds, exp)))(d)

    return val, jax.jit(g), obs


FIXED = ("obs", "W", "a", "b", "w1", "w3")


def params(ctx, rng, name, gname, shape, kinds=None, batch=()):
    """Random parameters; every material absorbs a little so that modes keep their labels."""
    kinds = kinds or STRUCTURES[name]
    full = [("uniform", "FFT")] + list(kinds) + [("uniform", "FFT")]
    G = GS[gname]
    n = len(G)
    lk, u, v = gen.lattice(rng, str(rng.choice(["rect", "oblique", "hex", "lefthanded"])))
    wl = float(rng.uniform(0.6, 1.4))
    w = 2 * np.pi / wl
    k = rng.uniform(-0.4, 0.4, 2) * w
    s = dict(u=u, v=v, G=G, wl=wl, w=w, k0=k, K=ref.kvecs(k, u, v, G), lat=gen.lv(u, v), exp=gen.expansion(G))
    p = dict(wl=jnp.asarray(wl), k=jnp.asarray(k), u=jnp.asarray(u), v=jnp.asarray(v), th=jnp.asarray(rng.uniform(0.1, 0.6, len(full)) * wl))
    layers = []
    for i, (kind, form) in enumerate(full):
        edge = i in (0, len(full) - 1)
        if kind == "uniform":
            e = np.array([[rng.uniform(1, 5) + (0 if edge and rng.random() < 0.5 else 1j * rng.uniform(0.05, 0.4))]])
            layer = gen.Layer("u", "iso", [e], gen.unit_mu((1, 1)), gen.FFT)
        elif kind == "iso":
            d = np.clip(gen.rich_density(rng, shape), 0, 1)
            e = rng.uniform(1, 2) + d * (rng.uniform(1, 8) + 1j * rng.uniform(0.0, 2)) + 1j * rng.uniform(0.02, 0.3)
            if rng.random() < 0.15:
                e = e - d * 12  # metal
            layer = gen.Layer("p", "iso", [e.astype(complex)], gen.unit_mu(shape), gen.FFT)
        else:
            sh = (1, 1) if kind == "uniform_aniso" else shape
            e = [np.asarray(t, complex) for t in gen.tensor(rng, sh, str(rng.choice(["diag", "symmetric", "hermitian"])), True)]
            for j in (0, 3, 4):
                e[j] = e[j] + 1j * rng.uniform(0.1, 0.4)
            mu = gen.unit_mu(sh)
            if kind == "general":
                mu = [np.asarray(t, complex) for t in gen.tensor(rng, sh, "diag", True)]
                for j in (0, 3, 4):
                    mu[j] = mu[j] / np.mean(np.real(mu[j])) + 0.05j
            layer = gen.Layer("t", "general" if kind == "general" else "aniso", e, mu, gen.FFT)
        if form == "custom":
            tk, tx, ty = gen.custom_tfield(rng, shape, str(rng.choice(["real", "jones"])))
            p[f"tx{i}"], p[f"ty{i}"] = jnp.asarray(np.asarray(tx, complex)), jnp.asarray(np.asarray(ty, complex))
            layer.formulation, layer.tfield = gen.custom_vector_fn(tx, ty), (tx, ty)
        p[f"e{i}"] = jnp.asarray(np.stack([np.asarray(t, complex) for t in layer.eps]))
        if kind == "general":
            p[f"m{i}"] = jnp.asarray(np.stack([np.asarray(t, complex) for t in layer.mu]))
        layers.append(layer)
    c = 2
    p["obs"] = jnp.asarray(rng.normal(size=NUM_OBS))
    p["W"] = jnp.asarray(scene.crandn(rng, 4, 2 * n, 2 * n))
    p["a"], p["b"] = jnp.asarray(scene.crandn(rng, 2 * n, c)), jnp.asarray(scene.crandn(rng, 2 * n, c))
    p["w1"] = jnp.asarray(rng.normal(size=(2 * n, c)))
    p["w3"] = jnp.asarray(rng.normal(size=(6,) + GRID + (c,)))
    for q in ("jx", "jy", "jz"):
        p[q] = jnp.asarray(scene.crandn(rng, n, c))
    ctx.describe(structure=name, G=gname, lattice=lk, wl=wl, k=k, layers=[l.describe() for l in layers], th=np.asarray(p["th"]))
    ctx.tag(structure=name, G=gname, lattice=lk)
    return p, s, layers


def steps_of(p):
    out = {"wl": float(p["wl"]), "k": 2 * np.pi / float(p["wl"]), "u": float(np.max(np.abs(p["u"]))), "v": float(np.max(np.abs(p["v"]))), "th": float(p["wl"]) * 0.3}
    return out


def stack(ctx, rng, names=None):
    """Gradients of observables of a stack with respect to every parameter group."""
    names = names or [n for n in STRUCTURES if n != "batched"]
    # Consecutive cases of a unit share a compiled structure.
    j = ctx.index // PER
    name = names[j % len(names)]
    gname = "abc"[(j + j // len(names)) % 3] if name not in ("mixed",) else "ca"[(j // len(names)) % 2]
    shape = (6, 7)
    p, s, layers = params(ctx, rng, name, gname, shape)
    for l in layers:
        if l.uniform and l.api == "iso":
            e = complex(l.eps[0].ravel()[0])
            if np.min(np.abs(e * s["w"] ** 2 - np.sum(s["K"] ** 2, 1))) < 0.03 * s["w"] ** 2:
                raise Discard("order near cutoff")
        else:
            gap_guard(l, s, l.tfield)
    val, grad, obs = compiled(name, gname)
    o = np.asarray(obs(p))
    if not ctx.finite("grad_finite", o, what="observables"):
        return
    if np.max(np.abs(o)) > 1e6:
        raise Discard("resonant")
    # Weigh the observables equally, then single one out.
    base = rng.normal(size=NUM_OBS) / np.maximum(np.abs(o), 1e-3)
    for one in (None, int(rng.integers(NUM_OBS))):
        wv = base if one is None else np.where(np.arange(NUM_OBS) == one, base, 0.0)
        p["obs"] = jnp.asarray(wv)
        keys = [k for k in p if k not in FIXED]
        if one is not None:
            keys = [str(k) for k in rng.permutation(keys)[:4]]
            ctx.tag(observable=one)
        check(ctx, rng, "stack_grad", val, grad, p, keys, 1e-4, steps=steps_of(p), observable=str(one), structure=name)


PER = 4

# ---------------------------------------------------------------------------
# Degenerate structures
# ---------------------------------------------------------------------------


def degenerate(ctx, rng):
    """Uniform, symmetric, empty and repeated layers have finite gradients; symmetric directions also have right ones."""
    j = ctx.index // PER
    name = ["iso", "iso_custom", "aniso", "general_custom", "uniform_tensor", "general", "aniso_custom"][j % 7]
    gname = ["a", "b", "a"][(j // 7) % 3]
    shape = (6, 6)
    p, s, layers = params(ctx, rng, name, gname, shape)
    how = ["uniform_array", "c4", "all_equal", "vacuum", "c4_k0", "lossless_uniform"][int(rng.integers(6))]
    ctx.describe(how=how)
    ctx.tag(how=how)
    d = float(rng.uniform(0.6, 1.2))
    p["u"], p["v"] = jnp.asarray([d, 0.0]), jnp.asarray([0.0, d])
    p["k"] = jnp.asarray([0.0, 0.0]) if how != "c4" else jnp.asarray(np.array([1.0, 1.0]) * rng.uniform(-2, 2))
    if how in ("uniform_array", "all_equal", "lossless_uniform"):
        p["k"] = jnp.asarray(rng.uniform(-1, 1, 2) * (rng.random() < 0.5))
    val_e = rng.uniform(1.5, 4) + (1j * rng.uniform(0.1, 0.5) if how not in ("vacuum", "lossless_uniform") else 0)
    i0 = np.arange(6)
    r2 = (np.minimum(i0, 6 - i0)[:, None] ** 2 + np.minimum(i0, 6 - i0)[None, :] ** 2) if True else 0
    pat = (r2 <= 4).astype(float)
    for key in list(p):
        if key[0] in "em" and key[1:].isdigit():
            a = np.asarray(p[key])
            out = np.zeros_like(a)
            for t in range(a.shape[0]):
                diag = a.shape[0] == 1 or t in (0, 3, 4)
                if not diag:
                    continue
                base = {"vacuum": 1.0}.get(how, 1.0 if key[0] == "m" else val_e)
                out[t] = base
                if how in ("c4", "c4_k0") and a.shape[-1] > 1 and key[0] == "e":
                    out[t] = base + pat * 3.0
            if key[0] == "e" and how not in ("all_equal", "vacuum") and a.shape[-1] == 1 and a.shape[0] == 1:
                out = a
            p[key] = jnp.asarray(out)
    # Orders at cutoff make any modal method singular.
    K = ref.kvecs(np.asarray(p["k"]), np.asarray(p["u"]), np.asarray(p["v"]), GS[gname])
    for key in list(p):
        if key[0] == "e" and key[1:].isdigit():
            for e in np.unique(np.asarray(p[key])[[0, -1]]):
                if np.min(np.abs(e * s["w"] ** 2 - np.sum(K**2, 1))) < 0.05 * s["w"] ** 2:
                    raise Discard("order near cutoff")
    val, grad, obs = compiled(name, gname)
    o = np.asarray(obs(p))
    p["obs"] = jnp.asarray(rng.normal(size=NUM_OBS) / np.maximum(np.abs(o), 1e-3))
    g = grad(p)
    L = val(p)
    if how in ("lossless_uniform", "vacuum", "all_equal") and not np.isfinite(np.asarray(L)):
        raise Discard("singular interface")  # documented: forward labels of tensor-described lossless layers
    for key, gk in g.items():
        ctx.finite("degenerate_finite", gk, key=key, how=how, structure=name)
    # Directions that keep the symmetry: thicknesses, currents and, at normal incidence, the wavelength.
    keys = ["th", "jx"] + (["wl"] if how in ("c4_k0", "uniform_array", "lossless_uniform") else [])
    if how in ("lossless_uniform", "vacuum", "all_equal"):
        return
    check(ctx, rng, "degenerate_value", val, grad, p, keys, 1e-3, steps=steps_of(p), how=how, structure=name)


# ---------------------------------------------------------------------------
# The eigendecomposition
# ---------------------------------------------------------------------------


@functools.lru_cache(maxsize=16)
def eig_fns(kind):
    def f(p):
        w, V = utils.eig(p["M"])
        Vi = jnp.linalg.inv(V)
        if kind == "exp":
            F = (V * jnp.exp(0.3j * w / p["scale"][..., None])[..., None, :]) @ Vi
            return jnp.real(jnp.sum(p["W"] * F))
        if kind == "values":  # symmetric functions of the eigenvalues
            return jnp.real(jnp.sum(p["W"][..., 0, :1] * jnp.sum(jnp.sin(w / p["scale"][..., None]), -1, keepdims=True)))
        if kind == "projector":  # weighted by a smooth function of the eigenvalue
            n = jnp.abs(V) ** 2 / jnp.sum(jnp.abs(V) ** 2, -2, keepdims=True)
            return jnp.sum(jnp.real(p["W"]) * n * jnp.cos(jnp.real(w) / p["scale"][..., None])[..., None, :] * jnp.ones_like(n))
        raise ValueError(kind)

    return jax.jit(f), jax.jit(lambda p: {"M": jax.grad(lambda M: f({**p, "M": M}))(p["M"])})


def eig(ctx, rng):
    """The custom derivative of the eigendecomposition, for functions independent of ordering and normalization."""
    kind = ["exp", "values", "projector"][ctx.index % 3]
    B = [(), (2,), (2, 3)][(ctx.index // 3) % 3]
    n = int(rng.choice([2, 5, 8]))
    scale = np.full(B, 10.0 ** rng.integers(-5, 6))
    if B and rng.random() < 0.6:  # entries of a batch need not be of one scale
        scale = 10.0 ** rng.integers(-5, 6, B)
    ss = np.asarray(scale)[..., None, None]
    M = scene.crandn(rng, *B, n, n)
    what = str(rng.choice(["general", "hermitian", "real", "diagonal", "triangular"]))
    if what == "hermitian":
        M = M + np.conj(np.swapaxes(M, -1, -2))
    if what == "real":
        M = M.real.astype(complex)
    if what == "diagonal":
        M = M * np.eye(n)
    if what == "triangular":
        M = np.triu(M)
    w, V = np.linalg.eig(M)
    d = np.abs(w[..., :, None] - w[..., None, :]) + 1e9 * np.eye(n)
    if np.min(d) < 0.05 * np.max(np.abs(w)) or np.max(np.linalg.cond(V)) > 1e3:
        raise Discard("near-degenerate")
    ctx.describe(M=M, kind=kind, scale=scale)
    ctx.tag(eig=kind, matrix=what, batch=str(B))
    # The scale of rows for the "projector" observable must break no symmetry: weights by row only.
    W = scene.crandn(rng, *B, n, 1 if kind == "projector" else n)
    p = dict(M=jnp.asarray(M * ss), W=jnp.asarray(W), scale=jnp.asarray(scale))
    val, grad = eig_fns(kind)
    check(ctx, rng, "eig_grad", val, grad, p, ["M"], 1e-5, steps={"M": ss}, what=what, kind=kind)
    if kind == "exp":
        # Exact derivative: divided differences of the exponential.
        g = np.asarray(grad(p)["M"])
        D = _dir(rng, M) * ss
        f = np.exp(0.3j * w)
        with np.errstate(all="ignore"):
            dd = (f[..., :, None] - f[..., None, :]) / (w[..., :, None] - w[..., None, :])
        ii = np.arange(n)
        dd[..., ii, ii] = 0.3j * f
        Vi = np.linalg.inv(V)
        dF = V @ (dd * (Vi @ (D / ss) @ V)) @ Vi
        want = np.real(np.sum(W * dF))
        got = np.real(np.sum(g * D))
        sc = max(abs(want), 0.05 * np.sqrt(np.sum(np.abs(g * ss) ** 2)))
        ctx.expect("eig_exact", abs(got - want) / sc, 1e-5, got=float(got), want=float(want))
    # Degenerate matrices have finite gradients.
    for Z in (np.eye(n) * ss, np.zeros((n, n)), np.diag(np.repeat([1.0, 2.0], [1, n - 1])) * ss):
        Z = np.broadcast_to(Z, B + (n, n)).astype(complex)

        def f(M):
            w, V = utils.eig(M)
            return jnp.real(jnp.sum(jnp.asarray(W) * V)) + jnp.sum(jnp.real(w * jnp.conj(w)))

        ctx.finite("degenerate_finite", jax.grad(f)(jnp.asarray(Z)), what="eig")


# ---------------------------------------------------------------------------
# Batches
# ---------------------------------------------------------------------------


@functools.lru_cache(maxsize=16)
def batch_fns(kind, form, gname):
    """Gradients of layer generators in a batch, with every input batched and with some shared."""
    exp = gen.expansion(GS[gname])

    def L(p, shared):
        lat = basis.LatticeVectors(u=p["u"], v=p["v"])
        f = fmm.Formulation.FFT
        if form == "custom":
            f = lambda arr, expansion, primitive_lattice_vectors: (p["tx"] + 0 * arr, p["ty"] + 0 * arr)
        common = dict(wavelength=p["wl"], in_plane_wavevector=p["k"], primitive_lattice_vectors=lat, expansion=exp, formulation=f)
        e = [p["e"][..., i, :, :] for i in range(p["e"].shape[-3])]
        if kind in ("iso", "uniform"):
            r = fmm.eigensolve_isotropic_media(permittivity=e[0], **common)
        else:
            e = {f"permittivity_{n}": x for n, x in zip(NAMES, e)}
            if kind == "aniso":
                r = fmm.eigensolve_anisotropic_media(**e, **common)
            else:
                m = {f"permeability_{n}": p["m"][..., i, :, :] for i, n in enumerate(NAMES)}
                r = fmm.eigensolve_general_anisotropic_media(**e, **m, **common)
        m = fields.field_conversion_matrix(r)
        q = r.eigenvalues
        lam = jnp.concatenate([1j * q, -1j * q], -1) * p["unit"][..., None]
        X = (m * lam[..., None, :]) @ jnp.linalg.inv(m)
        return jnp.real(jnp.sum(p["W4"] * X))

    keys = ("wl", "k", "u", "v", "e", "m", "tx", "ty")

    def grad(p):
        d, s = {k: x for k, x in p.items() if k in keys}, {k: x for k, x in p.items() if k not in keys}
        return jax.grad(lambda d: L({**d, **s}, False))(d)

    return jax.jit(grad)


def batch(ctx, rng):
    """The gradient in a batch equals that of every entry alone, also when entries are of very different scale."""
    j = ctx.index // PER
    kind, form = [("iso", "FFT"), ("iso", "custom"), ("aniso", "FFT"), ("general", "custom"), ("uniform", "FFT"), ("general", "FFT")][j % 6]
    gname = "ca"[(j // 6) % 2]
    shape = (5, 6)
    B = [2, 3][(j // 2) % 2]
    fn = batch_fns(kind, form, gname)
    wide = bool(rng.random() < 0.6)
    ps = []
    base = None
    for b in range(B):
        p, s, layers = params(ctx, rng, "batch", gname, shape, kinds=[(kind, form)])
        l = layers[1]
        if l.uniform and l.api == "iso":
            e = complex(l.eps[0].ravel()[0])
            if np.min(np.abs(e * s["w"] ** 2 - np.sum(s["K"] ** 2, 1))) < 0.03 * s["w"] ** 2:
                raise Discard("order near cutoff")
        else:
            gap_guard(l, s, l.tfield)
        sc = 10.0 ** rng.uniform(-3, 3) if wide else 1.0
        n = len(s["G"])
        q = dict(wl=p["wl"] * sc, k=p["k"] / sc, u=p["u"] * sc, v=p["v"] * sc, e=p["e1"], unit=jnp.asarray(sc))
        q["W4"] = jnp.asarray(scene.crandn(rng, 4 * n, 4 * n))
        if kind == "general":
            q["m"] = p["m1"]
        if form == "custom":
            q["tx"], q["ty"] = p["tx1"], p["ty1"]
        ps.append((q, sc))
    shared = [k for k in ("k", "u", "v", "e", "m", "tx", "ty") if k in ps[0][0] and rng.random() < 0.25 and not wide]
    if "e" in shared and "m" in ps[0][0] and "m" not in shared:
        shared.append("m")  # the library asks for material arrays of one shape
    if "m" in shared and "e" not in shared:
        shared.append("e")
    stacked = {}
    for k in ps[0][0]:
        if k in shared:
            stacked[k] = ps[0][0][k]
            for q, _ in ps[1:]:
                q[k] = ps[0][0][k]
        else:
            stacked[k] = jnp.stack([q[k] for q, _ in ps])
    if shared:  # mixtures of parameters: guard them again
        for q, _ in ps:
            u, v, k, wl = (np.asarray(q[z]) for z in ("u", "v", "k", "wl"))
            K = ref.kvecs(k, u, v, GS[gname])
            e = np.asarray(q["e"])
            if kind == "uniform":
                if np.min(np.abs(e.ravel()[0] * (2 * np.pi / wl) ** 2 - np.sum(K**2, 1))) < 0.03 * (2 * np.pi / wl) ** 2:
                    raise Discard("order near cutoff")
                continue
            l = gen.Layer("p", {"iso": "iso", "aniso": "aniso"}.get(kind, "general"), list(e), list(np.asarray(q["m"])) if kind == "general" else gen.unit_mu(shape), gen.FFT)
            if form == "custom":
                l.tfield = (np.asarray(q["tx"]), np.asarray(q["ty"]))
                l.formulation = gen.custom_vector_fn(*l.tfield)
            gap_guard(l, dict(K=K, w=2 * np.pi / wl, G=GS[gname]), l.tfield)
    ctx.describe(kind=kind, form=form, B=B, shared=shared, scales=[sc for _, sc in ps])
    ctx.tag(kind=kind, form=form, B=B, wide=wide, shared=len(shared))
    gb = fn(stacked)
    gs = [fn(q) for q, _ in ps]
    for k in gb:
        got = np.asarray(gb[k])
        if k in shared:
            want = np.sum([np.asarray(g[k]) for g in gs], axis=0)
            ctx.close("batch_grad", got, want, 1e-7, scale=max(np.max(np.abs(np.asarray(g[k]))) for g in gs), key=k, kind=kind)
            continue
        for b in range(B):
            ctx.close("batch_grad", got[b], np.asarray(gs[b][k]), 1e-7, key=k, kind=kind, wide=wide)


# ---------------------------------------------------------------------------
# Other differentiable functions
# ---------------------------------------------------------------------------


def functions(ctx, rng):
    """Derivatives of the helper functions with respect to their continuous arguments."""
    lk, u, v = gen.lattice(rng)
    lat = gen.lv(u, v)
    G = GS["b"]
    ex = gen.expansion(G)
    n = len(G)
    sh = (7, 8)
    c = lambda *s: jnp.asarray(scene.crandn(rng, *s))
    r = lambda *s: jnp.asarray(rng.uniform(0.2, 1.0, s))
    LV = lambda p: basis.LatticeVectors(u=p["u"], v=p["v"])
    luv = dict(u=jnp.asarray(u), v=jnp.asarray(v))
    sol, vo = rng.uniform(2, 12) + 1j * rng.uniform(0.01, 3), rng.uniform(1, 3) + 0.01j
    if rng.random() < 0.4:
        sol = sol - 20
    bz = (2, 2)
    kb = basis.brillouin_zone_in_plane_wavevector(bz, lat)

    def beam(p):
        def base(x, y, z):
            e = jnp.exp(-(x**2 + 0.5 * y**2) + 1j * z * 2)
            return (e, 0.5 * e, 0.1j * e), (e * x, e, y * e)

        x, y, z = p["xyz"]
        a = p["ang"]
        (ex_, ey_, ez_), (hx, hy, hz) = beams.shifted_rotated_fields(base, x, y, z, a[0], a[1], a[2], a[3], a[4], a[5])
        return jnp.stack([ex_, ey_, ez_, hx, hy, hz])

    from fmmax import beams

    table = {
        "fft": (lambda p: fft.fft(p["x"], ex), dict(x=c(*sh))),
        "ifft": (lambda p: fft.ifft(p["y"], ex, sh), dict(y=c(n))),
        "convolution": (lambda p: fft.fourier_convolution_matrix(p["x"], ex), dict(x=c(*sh))),
        "interpolate": (lambda p: utils.interpolate_permittivity(p["s"], p["v"], p["d"]), dict(s=jnp.asarray(sol), v=jnp.asarray(vo), d=r(*sh))),
        "pml": (lambda p: jnp.stack(jax.tree_util.tree_leaves(pml.apply_uniaxial_pml(p["x"], pml.PMLParams(2, 1)))), dict(x=c(*sh))),
        "wavevectors": (lambda p: basis.transverse_wavevectors(p["k"], LV(p), ex), dict(k=r(2), **luv)),
        "plane_wave": (lambda p: basis.plane_wave_in_plane_wavevector(p["wl"], p["po"], p["az"], p["e"]), dict(wl=r(), po=r(), az=r(), e=r() + 1)),
        "brillouin": (lambda p: basis.brillouin_zone_in_plane_wavevector((2, 3), LV(p)), luv),
        "coordinates": (lambda p: jnp.stack(basis.unit_cell_coordinates(LV(p), (3, 4), (2, 1))), luv),
        "gaussian": (lambda p: sources.gaussian_source(p["f"], p["loc"], p["k"], LV(p), ex), dict(f=r() * 0.3, loc=r(3, 2), k=r(2), **luv)),
        "dirac": (lambda p: sources.dirac_delta_source(p["loc"], p["k"], LV(p), ex), dict(loc=r(3, 2), k=r(2), **luv)),
        "farfield": (
            lambda p: farfield.integrated_flux(p["fl"], jnp.full((1, 1), 0.8), kb, lat, ex, (0, 1), lambda po, az: (po < 1.0), 2),
            dict(fl=r(*bz, 2 * n, 2)),
        ),
        "beams": (beam, dict(xyz=r(3, 2, 3), ang=r(6))),
        "gradient": (lambda p: vector.compute_gradient(p["x"], LV(p)), dict(x=c(*sh), **luv)),
    }
    for nm in [str(t) for t in rng.permutation(list(table))[:6]]:
        f, p = table[nm]
        out = f(p)
        w = np.asarray(scene.crandn(rng, *out.shape))
        w = jnp.asarray(w if np.iscomplexobj(np.asarray(out)) else w.real)
        loss = lambda p: jnp.real(jnp.sum(w * f(p))) + 0.3 * jnp.sum(jnp.abs(f(p)) ** 2)
        ctx.describe(function=nm)
        ctx.tag(function=nm)
        st = {k: float(np.max(np.abs(x))) for k, x in p.items()}
        check(ctx, rng, "function_grad", loss, jax.grad(loss), dict(p), list(p), 1e-5, steps=st, what=nm)


# ---------------------------------------------------------------------------
# Automatic tangent fields
# ---------------------------------------------------------------------------


@functools.lru_cache(maxsize=4)
def auto_fns(fname, kind):
    form = fmm.Formulation[fname]
    ex = gen.expansion(GS["a"])

    def L(p, form):
        r = _solve(kind, form, p, 1, ex)
        m = fields.field_conversion_matrix(r)
        q = r.eigenvalues
        lam = jnp.concatenate([1j * q, -1j * q], -1)
        X = (m * lam[..., None, :]) @ jnp.linalg.inv(m)
        return jnp.real(jnp.sum(p["W4"] * X))

    keys = ("W4",)
    auto = jax.jit(lambda p: L(p, form))
    grad = jax.jit(lambda p: jax.grad(lambda d: L({**p, **d}, form))({k: x for k, x in p.items() if k in ("wl", "k", "e1", "m1")}))
    frozen = jax.jit(lambda p: L(p, "custom"))
    field = jax.jit(lambda e, lat: vector.VECTOR_FIELD_SCHEMES[form.value](e, ex, lat))
    return auto, grad, frozen, field


def auto(ctx, rng):
    """Automatic vector formulations: the tangent field is a constant of the derivative; no density gives a non-finite gradient."""
    f = gen.VECTOR_FORMULATIONS[(ctx.index // 3) % 8]
    kind = ["iso", "aniso", "general"][(ctx.index // 3) % 3]
    shape = (8, 8)
    p, s, layers = params(ctx, rng, "auto", "a", shape, kinds=[(kind, "FFT")])
    p = {k: x for k, x in p.items() if k in ("wl", "k", "u", "v", "e1", "m1")}
    n = len(GS["a"])
    p["W4"] = jnp.asarray(scene.crandn(rng, 4 * n, 4 * n))
    pattern = ["rich", "uniform", "1d", "symmetric"][ctx.index % 4]
    ctx.describe(f=f.name, kind=kind, pattern=pattern)
    ctx.tag(formulation=f.name, pattern=pattern)
    i = np.arange(8)
    d = {
        "rich": np.clip(gen.rich_density(rng, shape), 0, 1), "uniform": np.full(shape, 0.5), "1d": np.repeat((i < 4)[:, None], 8, 1) * 1.0,
        "symmetric": ((np.minimum(i, 8 - i)[:, None] ** 2 + np.minimum(i, 8 - i)[None, :] ** 2) <= 5) * 1.0,
    }[pattern]
    if pattern in ("symmetric", "uniform"):
        p["u"], p["v"] = jnp.asarray([0.8, 0.0]), jnp.asarray([0.0, 0.8])
    e = (1.5 + 4 * d + 0.2j).astype(complex)
    if kind == "iso":
        p["e1"] = jnp.asarray(e[None])
    else:
        z = np.zeros_like(e)
        p["e1"] = jnp.asarray(np.stack([e, 0.1 * d + z, 0.1 * d + z, 0.9 * e, 1.1 * e]))
    val, grad, frozen, field = auto_fns(f.name, kind)
    g = grad(p)
    for key, gk in g.items():
        ctx.finite("auto_finite", gk, key=key, pattern=pattern, f=f.name)
    if pattern != "rich":
        return
    # Which array generates the field is an implementation detail: it is observed through the solve result.
    r = _solve(kind, f, p, 1, gen.expansion(GS["a"]))
    tx, ty = r.tangent_vector_field
    q = {**p, "tx1": tx, "ty1": ty}
    l = gen.Layer("p", {"iso": "iso"}.get(kind, "general"), [np.asarray(t) for t in p["e1"]], gen.unit_mu(shape) if kind != "general" else [np.asarray(t) for t in p["m1"]], gen.FFT)
    s.update(u=np.asarray(p["u"]), v=np.asarray(p["v"]))
    l.formulation, l.tfield = gen.custom_vector_fn(tx, ty), (np.asarray(tx), np.asarray(ty))
    gap_guard(l, s, l.tfield)
    ctx.close("auto_value", float(frozen(q)), float(val(p)), 1e-8)
    check(ctx, rng, "auto_grad", frozen, lambda _: g, q, list(g), 1e-4, steps=steps_of(p), f=f.name)


PROFILES = {
    "stack": dict(fn=stack, quick=36, split=9, cost=12),
    "degenerate": dict(fn=degenerate, quick=28, split=7, cost=10),
    "eig": dict(fn=eig, quick=60, split=2, cost=1),
    "batch": dict(fn=batch, quick=24, split=6, cost=8),
    "functions": dict(fn=functions, quick=24, split=4, cost=2),
    "auto": dict(fn=auto, quick=24, split=8, cost=12),
}
