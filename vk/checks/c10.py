"""C10: grid, coordinate, layer and stack views of the same fields agree with the plane-wave sum."""

import jax.numpy as jnp
import numpy as np

from fmmax import basis, fft, fields
from vk import gen, ref, scene

RULE = (
    "Random layers and stacks, random amplitudes; every field view (xy grid, coordinates, layer 3D, stack 3D, automatic "
    "grid) is compared point by point with the directly summed plane waves at the physical points it claims to sample."
)
ASSUMPTIONS = ["near-cutoff and ill-conditioned layers (by the reference model) are discarded"]
REQUIRED = {"grid": 300, "coords": 300, "layer3d": 100, "stack3d": 200, "bloch": 100, "xy": 100, "z": 60, "auto_grid": 10}


def fourier6(layer, r, s, a, b, z, d):
    """Reference Fourier amplitudes (6, N, c) at depth z from colocated modal amplitudes."""
    q = scene.np_(r.eigenvalues)
    F = scene.conversion(r)
    amp = np.concatenate([a * np.exp(1j * q * z)[:, None], b * np.exp(1j * q * (d - z))[:, None]])
    f = F @ amp
    n = len(s["G"])
    ex, ey, hx, hy = (f[i * n : (i + 1) * n] for i in range(4))
    kx, ky = s["K"][:, :1], s["K"][:, 1:]
    ez = -ref.toeplitz(1 / np.asarray(layer.eps5[4]), s["G"]) @ (kx * hy - ky * hx) / s["w"]
    hz = ref.toeplitz(1 / np.asarray(layer.mu[4]), s["G"]) @ (kx * ey - ky * ex) / s["w"]
    return np.stack([ex, ey, ez, hx, hy, hz])


def points(f6, s, x, y):
    """Plane-wave sum at coordinates: (6,) + x.shape + (c,)."""
    ph = np.exp(1j * (np.multiply.outer(x, s["K"][:, 0]) + np.multiply.outer(y, s["K"][:, 1])))
    return np.einsum("fnc,...n->f...c", f6, ph)


def grid_xy(s, shape, cells):
    nx, ny = shape
    i, j = np.meshgrid(np.arange(nx * cells[0]) / nx, np.arange(ny * cells[1]) / ny, indexing="ij")
    r = i[..., None] * s["u"] + j[..., None] * s["v"]
    return r[..., 0], r[..., 1]


def _shape(rng, ex):
    m = fft.min_array_shape_for_expansion(ex)
    return (int(m[0] + rng.integers(0, 4)), int(m[1] + rng.integers(0, 4)))


def _cells(rng):
    return [(1, 1), (2, 1), (1, 3), (2, 2)][int(rng.integers(4))]


def _close6(ctx, name, got, want, tol):
    """Field family by field family so that small components are not hidden."""
    sc_e = np.max(np.abs(want[:3]))
    sc_h = np.max(np.abs(want[3:]))
    for c in range(6):
        ctx.close(name, got[c], want[c], tol, scale=sc_e if c < 3 else sc_h, floor=1e-12, component=c)


def single(ctx, rng, tol=1e-9, x32=False):
    s = scene.setup(ctx, rng, n=int(rng.choice([1, 5, 7])), max_order=2)
    layer = gen.any_layer(rng, (12, 11))
    if rng.random() < 0.3 and not layer.uniform:
        layer = scene.make_custom(ctx, rng, layer)
    scene.check_layer(layer, s, layer.tfield, **(dict(max_cond=100, min_q=0.15) if x32 else {}))
    ctx.describe(layer=layer.describe())
    r = scene.solve(layer, s)
    n2 = 2 * len(s["G"])
    c = int(rng.integers(1, 4))
    a, b = scene.crandn(rng, n2, c), scene.crandn(rng, n2, c)
    ef, hf = fields.fields_from_wave_amplitudes(jnp.asarray(a), jnp.asarray(b), r)
    f6 = fourier6(layer, r, s, a, b, 0.0, 0.0)
    _close6(ctx, "fourier", [scene.np_(x) for x in (*ef, *hf)], f6, tol)
    shape, cells = _shape(rng, s["exp"]), _cells(rng)
    ctx.describe(shape=shape, cells=cells)
    ctx.tag(cells=cells, c=c)
    eg, hg, (x, y) = fields.fields_on_grid(ef, hf, r, shape, cells)
    X, Y = grid_xy(s, shape, cells)
    L = np.linalg.norm(s["u"]) + np.linalg.norm(s["v"])
    ctx.close("xy", x, X, tol, scale=L)
    ctx.close("xy", y, Y, tol, scale=L)
    want = points(f6, s, X, Y)
    G6 = [scene.np_(q) for q in (*eg, *hg)]
    _close6(ctx, "grid", G6, want, tol * 10)
    # Coordinates of any shape, outside the cell, also negative.
    cs = [(7,), (3, 2), (1,), (2, 2, 2), ()][int(rng.integers(5))]
    px, py = rng.uniform(-3, 3, cs), rng.uniform(-3, 3, cs)
    ec, hc, (xo, yo) = fields.fields_on_coordinates(ef, hf, r, jnp.asarray(px), jnp.asarray(py))
    C6 = [scene.np_(q) for q in (*ec, *hc)]
    _close6(ctx, "coords", C6, points(f6, s, px, py), tol * 10)
    ctx.close("xy", xo, px, tol, scale=L)
    ctx.close("xy", yo, py, tol, scale=L)
    # Bloch phase between neighbouring cells.
    m = rng.integers(-2, 3, 2)
    sh = m @ np.array([s["u"], s["v"]])
    e2, h2, _ = fields.fields_on_coordinates(ef, hf, r, jnp.asarray(px + sh[0]), jnp.asarray(py + sh[1]))
    ph = np.exp(1j * (s["k0"] @ sh))
    _close6(ctx, "bloch", [scene.np_(q) for q in (*e2, *h2)], np.array(C6) * ph, tol * 100)
    if cells[0] > 1:
        ph = np.exp(1j * (s["k0"] @ s["u"]))
        _close6(ctx, "bloch", [g[shape[0] : 2 * shape[0]] for g in G6], np.array([g[: shape[0]] for g in G6]) * ph, tol * 100)
    if cells[1] > 1:
        ph = np.exp(1j * (s["k0"] @ s["v"]))
        _close6(ctx, "bloch", [g[:, shape[1] : 2 * shape[1]] for g in G6], np.array([g[:, : shape[1]] for g in G6]) * ph, tol * 100)
    # Layer 3D views.
    d = float(s["wl"] * rng.uniform(0.05, 0.6))
    zn = int(rng.choice([1, 2, 4]))
    e3, h3, (x3, y3, z3) = fields.layer_fields_3d(jnp.asarray(a), jnp.asarray(b), r, jnp.asarray(d), zn, shape, cells)
    Z = np.linspace(0, d, zn)
    ctx.close("z", z3, Z, tol, scale=d)
    ctx.close("xy", x3, X, tol, scale=L)
    want = np.stack([points(fourier6(layer, r, s, a, b, z, d), s, X, Y) for z in Z], axis=-2)
    _close6(ctx, "layer3d", [*scene.np_(e3), *scene.np_(h3)], want, tol * 100)
    e3, h3, (x3, y3, z3) = fields.layer_fields_3d_on_coordinates(
        jnp.asarray(a), jnp.asarray(b), r, jnp.asarray(d), zn, jnp.asarray(px), jnp.asarray(py)
    )
    want = np.stack([points(fourier6(layer, r, s, a, b, z, d), s, px, py) for z in Z], axis=-2)
    _close6(ctx, "layer3d", [*scene.np_(e3), *scene.np_(h3)], want, tol * 100)
    ctx.close("z", z3, Z, tol, scale=d)


def x32(ctx, rng):
    single(ctx, rng, tol=5e-5, x32=True)


def stack(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=1)
    num = int(rng.integers(1, 5))
    layers = scene.random_layers(ctx, rng, num, (8, 9), ambient="any", custom=0.2)
    thick = [min(scene.thickness(rng, s["wl"])[1], 1.5 * s["wl"]) for _ in layers]
    res = scene.build_stack(ctx, rng, s, layers, thick)
    n2 = 2 * len(s["G"])
    c = int(rng.integers(1, 3))
    amps = [(scene.crandn(rng, n2, c), scene.crandn(rng, n2, c)) for _ in layers]
    znum = [int(rng.integers(1, 5)) for _ in layers]
    shape, cells = _shape(rng, s["exp"]), _cells(rng)
    px, py = rng.uniform(-2, 2, 5), rng.uniform(-2, 2, 5)
    ctx.describe(znum=znum, shape=shape, cells=cells)
    X, Y = grid_xy(s, shape, cells)
    jamps = [(jnp.asarray(a), jnp.asarray(b)) for a, b in amps]
    jth = [jnp.asarray(t) for t in thick]

    def want(xx, yy, zn):
        out, Z, z0 = [], [], 0.0
        for l, r, d, (a, b), m in zip(layers, res, thick, amps, zn):
            for z in np.linspace(0, d, m):
                out.append(points(fourier6(l, r, s, a, b, z, d), s, xx, yy))
                Z.append(z0 + z)
            z0 += d
        return np.stack(out, axis=-2), np.array(Z)

    W, Z = want(X, Y, znum)
    e, h, (x, y, z) = fields.stack_fields_3d(jamps, res, jth, znum, shape, cells)
    zs = max(sum(thick), 1e-9)
    ctx.close("z", z, Z, 1e-9, scale=zs)
    ctx.close("xy", x, X, 1e-9)
    ctx.close("xy", y, Y, 1e-9, scale=np.max(np.abs(X)) + np.max(np.abs(Y)))
    _close6(ctx, "stack3d", [*scene.np_(e), *scene.np_(h)], W, 1e-8)
    W, Z = want(px, py, znum)
    e, h, (x, y, z) = fields.stack_fields_3d_on_coordinates(jamps, res, jth, znum, jnp.asarray(px), jnp.asarray(py))
    ctx.close("z", z, Z, 1e-9, scale=zs)
    _close6(ctx, "stack3d", [*scene.np_(e), *scene.np_(h)], W, 1e-8)
    if num >= 2 and ctx.index % 3 == 0:
        # Automatic grid: sampling counts are the rounded ratios to the requested spacing.
        lu, lv_ = np.linalg.norm(s["u"]), np.linalg.norm(s["v"])
        m = fft.min_array_shape_for_expansion(s["exp"])
        g = float(min(lu / (m[0] + 0.6), lv_ / (m[1] + 0.6)) * rng.uniform(0.6, 1))
        sh = (int(round(lu / g)), int(round(lv_ / g)))
        zn = [int(round(t / g)) for t in thick]
        fr = [abs(t / g - np.floor(t / g) - 0.5) for t in [lu, lv_] + thick]
        if min(fr) > 1e-6 and sum(zn) > 0 and max(zn) < 40 and sh[0] * sh[1] < 900:
            X, Y = grid_xy(s, sh, (1, 1))
            W, Z = want(X, Y, zn)
            e, h, (x, y, z) = fields.stack_fields_3d_auto_grid(jamps, res, jth, g, (1, 1))
            ctx.close("auto_grid", z, Z, 1e-9, scale=zs)
            ctx.close("auto_grid", x, X, 1e-9, scale=lu + lv_)
            _close6(ctx, "auto_grid", [*scene.np_(e), *scene.np_(h)], W, 1e-8)


PROFILES = {
    "single": dict(fn=single, quick=60, split=3),
    "stack": dict(fn=stack, quick=40, split=3, cost=1.5),
    "x32": dict(fn=x32, quick=20, x64=False),
}
