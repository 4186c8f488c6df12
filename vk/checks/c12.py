"""C12: fields -> amplitudes -> fields round trips, also over Brillouin-zone grids."""

import jax.numpy as jnp
import numpy as np

from fmmax import basis, fft, fields, sources
from vk import gen, ref, scene
from vk.checks.c10 import grid_xy

RULE = (
    "Random layers and lattices, random fields representable in the expansion sampled on grids of varying shape (and on "
    "supercells with Brillouin-zone grids in varying batch positions); amplitudes are converted to fields and back."
)
ASSUMPTIONS = ["near-cutoff and ill-conditioned layers (by the reference model) are discarded"]
REQUIRED = {"amplitudes": 100, "fields_back": 100, "bz_fields": 30, "bz_amplitudes": 20, "inputs_untouched": 100}


def _grid(rng, G):
    m = np.asarray(fft.min_array_shape_for_expansion(gen.expansion(G)))
    return (int(m[0] + rng.integers(0, 4)), int(m[1] + rng.integers(0, 4)))


def _sample(c, K, x, y):
    """(N, c) Fourier coefficients -> x.shape + (c,)."""
    ph = np.exp(1j * (np.multiply.outer(x, K[:, 0]) + np.multiply.outer(y, K[:, 1])))
    return np.einsum("nc,...n->...c", c, ph)


def single(ctx, rng, tol=1e-8, x32=False):
    s = scene.setup(ctx, rng, n=int(rng.choice([1, 5, 7])), max_order=2)
    if rng.random() < 0.3:  # any order list, not inversion symmetric
        keep = np.concatenate([[0], 1 + rng.permutation(len(s["G"]) - 1)[: max(0, len(s["G"]) - 2)]])
        s["G"] = s["G"][keep]
        s["K"] = ref.kvecs(s["k0"], s["u"], s["v"], s["G"])
        s["exp"] = gen.expansion(s["G"])
    n = len(s["G"])
    layer = gen.any_layer(rng, (10, 11))
    if rng.random() < 0.3 and not layer.uniform:
        layer = scene.make_custom(ctx, rng, layer)
    scene.check_layer(layer, s, layer.tfield, **(dict(max_cond=50, min_q=0.2) if x32 else dict(max_cond=1e5)))
    ctx.describe(layer=layer.describe(), G2=s["G"])
    ctx.tag(material=layer.kind.split(":")[0], n=n)
    r = scene.solve(layer, s)
    F = scene.conversion(r).astype(complex)
    c = int(rng.integers(1, 4))
    co = scene.crandn(rng, 4 * n, c)
    shape = _grid(rng, s["G"])
    ctx.describe(shape=shape)
    x, y = grid_xy(s, shape, (1, 1))
    fl = [_sample(co[i * n : (i + 1) * n], s["K"], x, y) for i in range(4)]
    as_np = bool(rng.random() < 0.3)
    keep = [f.copy() for f in fl]
    args = fl if as_np else [jnp.asarray(f) for f in fl]
    a, b = sources.amplitudes_for_fields(*args, r, brillouin_grid_axes=None)
    ctx.true("inputs_untouched", all(np.array_equal(f, k) for f, k in zip(fl, keep)))
    want = np.linalg.solve(F, co)
    ctx.close("amplitudes", np.concatenate([a, b]), want, tol)
    ef, hf = fields.fields_from_wave_amplitudes(a, b, r)
    eg, hg, _ = fields.fields_on_grid(ef, hf, r, shape, (1, 1))
    got = np.stack([scene.np_(q) for q in (eg[0], eg[1], hg[0], hg[1])])
    ctx.close("fields_back", got, np.stack(fl), tol)
    # And the other way: amplitudes -> grid fields -> amplitudes.
    a0, b0 = scene.crandn(rng, 2 * n, c), scene.crandn(rng, 2 * n, c)
    ef, hf = fields.fields_from_wave_amplitudes(jnp.asarray(a0), jnp.asarray(b0), r)
    eg, hg, _ = fields.fields_on_grid(ef, hf, r, shape, (1, 1))
    a1, b1 = sources.amplitudes_for_fields(eg[0], eg[1], hg[0], hg[1], r)
    ctx.close("amplitudes", np.concatenate([a1, b1]), np.concatenate([a0, b0]), tol * 10)


def bz(ctx, rng):
    """Supercell fields over a Brillouin-zone grid, in several batch layouts."""
    lk, u, v = gen.lattice(rng)
    B = [(2, 1), (1, 3), (2, 2), (3, 2), (1, 1)][int(rng.integers(5))]
    G = gen.orders(rng, int(rng.choice([1, 3])), max_order=1)
    n = len(G)
    wl = float(rng.uniform(0.5, 1.5))
    lat = gen.lv(u, v)
    k = np.asarray(basis.brillouin_zone_in_plane_wavevector(B, lat))
    ctx.describe(u=u, v=v, G=G, wl=wl, B=B)
    layout = str(rng.choice(["plain", "lead", "mid", "trail"]))
    ctx.tag(B=B, layout=layout, n=n)
    if layout == "plain":
        wls, kk, axes = np.array(wl), k, (0, 1)
    elif layout == "lead":  # (W, B1, B2)
        wls, kk, axes = np.array([wl, wl * 1.13])[:, None, None], k[None], (1, 2)
    elif layout == "mid":  # (B1, W, B2)
        wls, kk, axes = np.array([wl, wl * 1.13])[None, :, None], k[:, None], (0, 2)
    else:  # (B1, B2, W)
        wls, kk, axes = np.array([wl, wl * 1.13]), k[:, :, None], (0, 1)
    lay = gen.uniform_iso(rng) if rng.random() < 0.6 else gen.patterned_iso(rng, (7, 6))
    for w_ in np.ravel(wls):
        for q in k.reshape(-1, 2):
            s = dict(K=ref.kvecs(q, u, v, G), w=2 * np.pi / w_, G=G)
            scene.check_layer(lay, s)
    flip = bool(rng.random() < 0.4)
    ctx.tag(flip=flip)
    if flip:  # the grid axes may come in any order
        i, j = axes
        wls = np.swapaxes(wls, i, j) if wls.ndim > max(i, j) else wls
        kk = np.swapaxes(kk, i, j)
        axes = (j, i)
    ctx.describe(layer=lay.describe(), axes=axes)
    ex = gen.expansion(G)
    r = gen.solve(lay, wls, kk, lat, ex)
    bs = r.batch_shape
    shape = _grid(rng, G)
    c = 2
    # Field = sum over the Brillouin zone of plane waves with k + G.
    cos = scene.crandn(rng, *k.shape[:2], 4, n, c)
    x, y = grid_xy(dict(u=u, v=v), shape, B)
    fl = [np.zeros(x.shape + (c,), complex) for _ in range(4)]
    for i in range(B[0]):
        for j in range(B[1]):
            K = ref.kvecs(k[i, j], u, v, G)
            for q in range(4):
                fl[q] += _sample(cos[i, j, q], K, x, y)
    nb = len(bs)
    give = str(rng.choice(["bare", "ones", "full"]))
    ctx.tag(give=give)
    if give == "ones":
        args = [f.reshape((1,) * nb + f.shape) for f in fl]
    elif give == "full":
        args = [np.broadcast_to(f, bs + f.shape) for f in fl]
    else:
        args = fl
    a, b = sources.amplitudes_for_fields(*[jnp.asarray(f) for f in args], r, brillouin_grid_axes=axes)
    ctx.true("bz_shape", a.shape == bs + (2 * n, c) and b.shape == a.shape, got=a.shape)
    ef, hf = fields.fields_from_wave_amplitudes(a, b, r)
    eg, hg, (xx, yy) = fields.fields_on_grid(ef, hf, r, shape, B)
    got = np.stack([scene.np_(q) for q in (eg[0], eg[1], hg[0], hg[1])])
    mean = np.mean(got, axis=(axes[0] + 1, axes[1] + 1))
    want = np.stack(fl)
    ctx.close("bz_fields", mean, np.broadcast_to(want.reshape(want.shape[:1] + (1,) * (nb - 2) + want.shape[1:]), mean.shape), 1e-8)
    # Element by element: Fourier coefficients at each k times the number of cells.
    F = scene.conversion(r)
    amp = np.concatenate([scene.np_(a), scene.np_(b)], axis=-2)
    for idx in np.ndindex(*bs):
        i, j = idx[axes[0]], idx[axes[1]]
        co = np.concatenate(list(cos[i, j])) * (B[0] * B[1])
        ctx.close("bz_amplitudes", amp[idx], np.linalg.solve(F[idx], co), 1e-7)


PROFILES = {
    "single": dict(fn=single, quick=110, split=4),
    "bz": dict(fn=bz, quick=40, split=3),
    "x32": dict(fn=lambda c, r: single(c, r, 2e-3, True), quick=25, x64=False),
}
