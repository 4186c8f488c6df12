"""Shared helpers to drive layers and stacks and to observe them."""

import jax.numpy as jnp
import numpy as np

from fmmax import basis, fields, scattering
from vk import gen, ref
from vk.core import Discard


def crandn(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def np_(x):
    return np.asarray(x)


def setup(ctx, rng, n=None, kind=None, kkind=None, wl=None, one_d=None, max_order=None, tag=True, scale=None):
    """Lattice, orders, wavelength, in-plane wavevector."""
    lk, u, v = gen.lattice(rng, kind, scale)
    G = gen.orders(rng, n, one_d=one_d, max_order=max_order)
    wl = float(rng.uniform(0.5, 1.6)) if wl is None else wl
    w = 2 * np.pi / wl
    kk, k = gen.kvector(rng, u, v, w, kkind)
    ctx.describe(lattice=lk, u=u, v=v, G=G, wl=wl, k=k)
    if tag:
        ctx.tag(lattice=lk, k=kk, N=len(G))
    return dict(u=u, v=v, G=G, wl=wl, w=w, k0=k, K=ref.kvecs(k, u, v, G), lat=gen.lv(u, v), exp=gen.expansion(G), kk=kk)


def solve(layer, s):
    return gen.solve(layer, s["wl"], s["k0"], s["lat"], s["exp"])


def tfields(ef, hf):
    """Stack of transverse fields [Ex, Ey, Hx, Hy] along axis -2."""
    return np.concatenate([np_(ef[0]), np_(ef[1]), np_(hf[0]), np_(hf[1])], axis=-2)


def fields_at(result, a, b):
    ef, hf = fields.fields_from_wave_amplitudes(jnp.asarray(a), jnp.asarray(b), result)
    return [np_(x) for x in ef], [np_(x) for x in hf]


def conversion(result):
    """(4N, 4N) map from (a, b) to [Ex, Ey, Hx, Hy], observed through the public API."""
    m = np_(fields.field_conversion_matrix(result))
    n = m.shape[-1] // 4
    ney, ex, hx, hy = m[..., :n, :], m[..., n : 2 * n, :], m[..., 2 * n : 3 * n, :], m[..., 3 * n :, :]
    return np.concatenate([ex, -ney, hx, hy], axis=-2)


def layer_fd(result, d):
    return np.exp(1j * np_(result.eigenvalues) * d)


def check_layer(layer, s, tfield=None, **kw):
    """Discards ill-conditioned layers using the reference model only."""
    X = gen.ref_generator(layer, s["K"], s["w"], s["G"], tfield)
    q, V = gen.check_conditioning(X, s["w"], **kw)
    return X, q, V


def flux_rows(f):
    """Net z-flux Re(E x H*)_z summed over orders, from stacked transverse fields."""
    ex, ey, hx, hy = np.split(f, 4, axis=-2)
    return np.sum(np.real(ex * np.conj(hy) - ey * np.conj(hx)), axis=-2)


def stack_s(results, thick):
    return scattering.stack_s_matrix(tuple(results), tuple(jnp.asarray(t) for t in thick))


def sblocks(sm):
    return [np_(sm.s11), np_(sm.s12), np_(sm.s21), np_(sm.s22)]


# ---------------------------------------------------------------------------
# Stacks
# ---------------------------------------------------------------------------


def thickness(rng, wl, kind=None):
    kind = str(kind or rng.choice(["zero", "thin", "moderate", "moderate", "thick"], p=[0.12, 0.2, 0.25, 0.25, 0.18]))
    if kind == "zero":
        return kind, 0.0
    if kind == "thin":
        return kind, float(wl * 10 ** rng.uniform(-4, -1))
    if kind == "moderate":
        return kind, float(wl * rng.uniform(0.1, 1.2))
    if kind == "thick":
        return kind, float(wl * 10 ** rng.uniform(0.3, 1.5))
    raise ValueError(kind)


def build_stack(ctx, rng, s, layers, thick, cond=True, solver=None):
    """Solves the layers (discarding ill-conditioned ones by the reference)."""
    ctx.describe(layers=[l.describe() for l in layers], thick=thick)
    if cond:
        for l in layers:
            check_layer(l, s, l.tfield)
    for l in layers:
        ctx.tag(material=l.kind.split(":")[0], formulation=l.fname())
    ctx.tag(num_layers=len(layers))
    return [(solver or solve)(l, s) for l in layers]


def make_custom(ctx, rng, layer):
    tk, tx, ty = gen.custom_tfield(rng, layer.shape)
    layer.formulation = gen.custom_vector_fn(tx, ty)
    layer.tfield = (tx, ty)
    ctx.describe(tx=tx, ty=ty)
    ctx.tag(tfield=tk)
    return layer


def random_layers(ctx, rng, num, shape, lossless=False, reciprocal=False, ambient="uniform", custom=0.0, p_uniform=0.35):
    """A list of random layers; ambient: 'uniform', 'lossless_uniform' or 'any'."""
    out = []
    for i in range(num):
        edge = i in (0, num - 1)
        if edge and ambient == "uniform":
            l = gen.uniform_iso(rng, lossless)
        elif edge and ambient == "dielectric":
            l = gen.uniform_iso(rng, True, str(rng.choice(["vacuum", "dielectric"])))
        else:
            l = gen.any_layer(rng, shape, lossless, reciprocal=reciprocal, p_uniform=p_uniform)
        if custom and not l.uniform and rng.random() < custom:
            l = make_custom(ctx, rng, l)
        out.append(l)
    return out


def field_s(sm, r0=None, rN=None):
    """Scattering blocks mapped to magnetic field Fourier amplitudes (mode-basis free)."""
    r0 = r0 if r0 is not None else sm.start_layer_solve_result
    rN = rN if rN is not None else sm.end_layer_solve_result
    p0, pN = np_(r0.eigenvectors), np_(rN.eigenvectors)
    s11, s12, s21, s22 = sblocks(sm)
    i0, iN = np.linalg.inv(p0), np.linalg.inv(pN)
    return [pN @ s11 @ i0, pN @ s12 @ iN, p0 @ s21 @ i0, p0 @ s22 @ iN]


def observed_generator(result):
    """Maxwell generator implied by the library's modes: F diag(iq, -iq) F^-1."""
    Fm = conversion(result)
    q = np_(result.eigenvalues)
    lam = np.concatenate([1j * q, -1j * q], axis=-1)
    return (Fm * lam[..., None, :]) @ np.linalg.inv(Fm)


def interior(results, thick, a0, bN):
    si = scattering.stack_s_matrices_interior(tuple(results), tuple(jnp.asarray(t) for t in thick))
    amps = fields.stack_amplitudes_interior(si, jnp.asarray(a0), jnp.asarray(bN))
    return si, [(np_(a), np_(b)) for a, b in amps]


def layer_fields(result, a, b, z, d):
    """Stacked transverse fields at depth z of a layer of thickness d, via the library."""
    az, bz = fields.colocate_amplitudes(
        jnp.asarray(a), jnp.asarray(b), z_offset=jnp.asarray(z), layer_solve_result=result, layer_thickness=jnp.asarray(d)
    )
    ef, hf = fields_at(result, az, bz)
    return np.concatenate([ef[0], ef[1], hf[0], hf[1]], axis=-2), (np_(az), np_(bz)), (ef, hf)


def layer_fields_multi(result, a, b, zs, d):
    """As layer_fields at several depths at once: arrays (rows, nz, columns)."""
    a, b = np_(a), np_(b)
    nz, nc = len(zs), a.shape[-1]
    aa = np.repeat(a[:, None, :], nz, 1).reshape(a.shape[0], nz * nc)
    bb = np.repeat(b[:, None, :], nz, 1).reshape(b.shape[0], nz * nc)
    zz = np.repeat(np.asarray(zs, float)[:, None], nc, 1).reshape(-1)
    az, bz = fields.colocate_amplitudes(
        jnp.asarray(aa), jnp.asarray(bb), z_offset=jnp.asarray(zz), layer_solve_result=result, layer_thickness=jnp.asarray(d)
    )
    ef, hf = fields_at(result, az, bz)
    f = np.concatenate([ef[0], ef[1], hf[0], hf[1]], axis=-2)
    return f.reshape(f.shape[0], nz, nc), (np_(az), np_(bz)), (ef, hf)
