"""C14: far-field unfolding, angles, solid angles and integrated flux."""

import jax.numpy as jnp
import numpy as np

from fmmax import basis, farfield
from vk import gen, ref, scene

RULE = (
    "Random lattices, Brillouin grids, expansions and batch layouts with random fluxes; unfolded positions, angles, solid "
    "angles, powers and angular integrals are compared with values computed from each wavevector's lattice coordinates."
)
ASSUMPTIONS = [
    "Brillouin grid axes are given in increasing order",
    "cells at the border of the sampled k-space region, at and beyond grazing angles are excluded from the solid-angle oracle",
]
REQUIRED = {
    "placed_once": 50, "wavevectors_sorted": 50, "angles": 50, "solid_angle": 15, "power": 50, "integral_all": 50,
    "integral_masked": 8, "integral_additive": 50, "integral_linear": 50, "weight_inside": 6, "weight_outside": 3,
}

# (batch layout letters): b1, b2 Brillouin axes, w wavelength batch, e extra batch
LAYOUTS = ["ab", "wab", "awb", "abw", "weab", "waeb", "aweb", "abwe"]


def run(ctx, rng, tol=1e-9):
    lk, u, v = gen.lattice(rng)
    lat = gen.lv(u, v)
    B = (int(rng.integers(1, 5)), int(rng.integers(1, 5)))
    kind = str(rng.choice(["circular", "parallelogram", "full", "custom", "custom"]))
    if kind == "custom":
        G = gen.orders(rng, int(rng.choice([5, 7])))
        drop = str(rng.choice(["none", "last", "some", "half_u", "half_v"]))
        if drop == "last":
            G = G[:-1]
        elif drop == "some":
            G = G[np.concatenate([[True], rng.random(len(G) - 1) < 0.5])]
        elif drop != "none":  # one-sided along an axis
            G = G[G[:, 0 if drop == "half_u" else 1] * rng.choice([-1, 1]) >= 0]
        ctx.tag(drop=drop)
    elif kind == "full":
        m1, m2 = int(rng.integers(0, 3)), int(rng.integers(1, 3))
        G = np.array([(i, j) for i in range(-m1, m1 + 1) for j in range(-m2, m2 + 1)])
        G = np.concatenate([[[0, 0]], G[np.any(G != 0, axis=1)]])
    else:
        tr = basis.Truncation.CIRCULAR if kind == "circular" else basis.Truncation.PARALLELOGRAMIC
        G = np.asarray(basis.generate_expansion(lat, int(rng.integers(5, 26)), tr).basis_coefficients)
    n = len(G)
    ex = gen.expansion(G)
    lay = LAYOUTS[ctx.index % len(LAYOUTS)]
    dims = dict(a=B[0], b=B[1], w=2, e=3)
    shape = tuple(dims[c] for c in lay)
    axes = (lay.index("a"), lay.index("b"))
    S = int(rng.integers(1, 3))
    kmax = np.max(np.linalg.norm(ref.kvecs(np.zeros(2), u, v, G), axis=1)) if n > 1 else 5.0
    wl = 2 * np.pi / kmax * rng.uniform(0.5, 2.5, 2)
    wshape = tuple(2 if c == "w" else 1 for c in lay)
    wls = wl.reshape(wshape) if "w" in lay else np.array(wl[0])
    k = np.asarray(basis.brillouin_zone_in_plane_wavevector(B, lat)).astype(float)
    kk = np.expand_dims(k, tuple(i for i, c in enumerate(lay) if c not in "ab"))
    flux = rng.normal(size=shape + (2 * n, S))
    ctx.describe(u=u, v=v, B=B, G=G, layout=lay, S=S, wl=wl, flux=flux)
    ctx.tag(kind=kind, layout=lay, B=B)
    neg = bool(rng.random() < 0.3)
    ax_arg = tuple(a - flux.ndim for a in axes) if neg else axes
    # Reference placement: lattice coordinates of each wavevector.
    K = k[:, :, None, :] + (G @ ref.recip(u, v))[None, None]
    co = K @ np.array([u, v]).T / (2 * np.pi)
    lo = np.array([np.min(co[..., 0]), np.min(co[..., 1])])
    r = np.rint((co[..., 0] - lo[0]) * B[0]).astype(int)
    c = np.rint((co[..., 1] - lo[1]) * B[1]).astype(int)
    n1 = (G[:, 0].max() - G[:, 0].min() + 1) * B[0]
    n2 = (G[:, 1].max() - G[:, 1].min() + 1) * B[1]
    rest = tuple(d for ch, d in zip(lay, shape) if ch not in "ab")
    fl = np.moveaxis(flux, axes, (-4, -3)).reshape(rest + B + (2, n, S))
    want = np.full(rest + (n1, n2, 2, S), np.nan)
    for i in range(B[0]):
        for j in range(B[1]):
            for g in range(n):
                want[..., r[i, j, g], c[i, j, g], :, :] = fl[..., i, j, :, g, :]
    got = scene.np_(farfield.unflatten_flux(jnp.asarray(flux), ex, ax_arg))
    ok = got.shape == want.shape and np.array_equal(np.isnan(got), np.isnan(want)) and np.allclose(
        np.nan_to_num(got), np.nan_to_num(want), rtol=0, atol=tol)
    ctx.true("placed_once", ok, got=got.shape, want=want.shape)
    # Wavevectors.
    kx = np.full((n1, n2), np.nan)
    ky = np.full((n1, n2), np.nan)
    kx[r, c], ky[r, c] = K[..., 0], K[..., 1]
    tw = np.broadcast_to(np.expand_dims(K, tuple(i for i, ch in enumerate(lay) if ch not in "ab")), shape + (n, 2))
    gk = scene.np_(farfield.unflatten_transverse_wavevectors(jnp.asarray(tw), ex, axes))
    wk = np.broadcast_to(np.stack([kx, ky], -1), rest + (n1, n2, 2))
    ok = gk.shape == wk.shape and np.array_equal(np.isnan(gk), np.isnan(wk)) and np.allclose(
        np.nan_to_num(gk), np.nan_to_num(wk), rtol=0, atol=1e-9 * kmax)
    ctx.true("wavevectors_sorted", ok)
    # Profile.
    args = (jnp.asarray(wls), jnp.asarray(kk), lat, ex, ax_arg)
    pol, azi, sol, ff = (scene.np_(x) for x in farfield.farfield_profile(jnp.asarray(flux), *args))
    wb = np.broadcast_to(wls, tuple(1 if ch in "ab" else d for ch, d in zip(lay, shape))) if "w" in lay else np.full(
        tuple(1 if ch in "ab" else d for ch, d in zip(lay, shape)), wl[0])
    wb = wb.reshape(rest) if rest else wb.reshape(())
    valid = ~np.isnan(kx)
    sin = np.sqrt(kx**2 + ky**2) * wb[..., None, None] / (2 * np.pi)
    with np.errstate(all="ignore"):
        wp = np.where(sin > 1, np.pi / 2, np.arcsin(np.minimum(sin, 1)))
    wa = np.broadcast_to(np.angle(kx + 1j * ky), wp.shape)
    pb = np.broadcast_to(pol, wp.shape)
    ab = np.broadcast_to(azi, wp.shape)
    ctx.expect("angles", np.max(np.abs(pb - wp)[..., valid] * np.minimum(1, np.abs(np.cos(wp))[..., valid] + 1e-3)), 1e-7)
    off = valid & (np.hypot(kx, ky) > 1e-9 * kmax)
    if np.any(off):
        ctx.expect("angles", np.max(np.abs(np.exp(1j * ab) - np.exp(1j * wa))[..., off]), 1e-7)
    inner = np.zeros((n1, n2), bool)
    if n1 > 2 and n2 > 2:
        pad = np.isnan(kx)
        for i in range(1, n1 - 1):
            for j in range(1, n2 - 1):
                inner[i, j] = not pad[i - 1 : i + 2, j - 1 : j + 2].any()
    sb = np.broadcast_to(sol, wp.shape)
    cell = abs(np.linalg.det(ref.recip(u, v))) / (B[0] * B[1])
    for idx in np.ndindex(*rest) if rest else [()]:
        use = inner & (sin[idx] < 0.98)
        if np.any(use):
            w_ = cell * (wb[idx] / (2 * np.pi)) ** 2 / np.cos(wp[idx][use])
            ctx.close("solid_angle", sb[idx][use] / w_, np.ones_like(w_), 1e-6)
    with np.errstate(all="ignore"):
        back = ff * sol[..., None, None]
    fin = np.isfinite(sb) & (np.abs(sb) > 0)
    if np.any(fin):
        ctx.expect("power", np.max(np.abs((back - want)[fin])), 1e-7)
        ctx.true("power", np.all(np.isfinite(ff[fin])) and ff.shape == want.shape)
    ctx.true("solid_angle_finite", np.all(fin[..., inner & valid][sin[..., inner & valid] < 0.98]))
    # Integrated flux.
    up = int(rng.choice([1, 1, 2, 3]))
    ctx.tag(upsample=up)

    def integ(f, fn):
        return scene.np_(
            farfield.integrated_flux(jnp.asarray(f), *args, angle_bounds_fn=fn, upsample_factor=up)
        )

    everything = lambda p, a: jnp.ones_like(p, dtype=bool)
    tot = np.sum(fl, axis=(-5, -4, -3, -2))
    sc = np.sqrt(np.sum(fl**2)) + 1e-12
    ctx.close("integral_all", integ(flux, everything), tot, 1e-8, scale=sc)
    p0, a0 = float(rng.uniform(0.2, 1.2)), float(rng.uniform(-np.pi, np.pi))
    fns = [
        lambda p, a: p < p0,
        lambda p, a: jnp.cos(a - a0) > 0,
        lambda p, a: (p < p0) & (jnp.cos(a - a0) > 0),
    ]
    q = int(rng.choice([0, 0, 1, 1, 2]))
    fn = fns[q]
    inv = lambda p, a: ~fn(p, a)
    i1, i2 = integ(flux, fn), integ(flux, inv)
    ctx.close("integral_additive", i1 + i2, tot, 1e-8, scale=sc)
    f2 = rng.normal(size=flux.shape)
    x, y = rng.normal(), rng.normal()
    ctx.close("integral_linear", integ(x * flux + y * f2, fn), x * i1 + y * integ(f2, fn), 1e-8, scale=sc)
    # Points whose cell lies inside (outside) a convex region count fully (not at all).
    th = [wp < p0, np.cos(wa - a0) > 0, (wp < p0) & (np.cos(wa - a0) > 0)][q]
    e1 = np.abs(wp - p0)
    e2 = np.abs(np.cos(wa - a0)) * np.broadcast_to(np.hypot(kx, ky) > 1e-9 * kmax, wp.shape)
    edge = [e1, e2, np.minimum(e1, e2)][q]
    thi = np.where(edge < 1e-6, -1, th.astype(int))
    if up == 1:
        m = thi == 1
        amb = (thi < 0) & valid
        w_ = np.nansum(np.where(m[..., None, None], want, 0), axis=(-4, -3, -2))
        if not np.any(amb):
            ctx.close("integral_masked", i1, w_, 1e-8, scale=sc)
        ctx.tag(exact_mask=not np.any(amb))
    # Single-pixel response.
    for want_in in (True, False):
        if q != 1 and not want_in:
            continue  # the outside of a disc is not convex
        cand = []
        for i in range(n1):
            for j in range(n2):
                if not valid[i, j]:
                    continue
                nb = np.s_[max(i - 1, 0) : i + 2, max(j - 1, 0) : j + 2]
                if not valid[nb].all():
                    continue
                t = thi[(0,) * len(rest)][nb]
                if np.all(t == (1 if want_in else 0)):
                    cand.append((i, j))
        if cand:
            i, j = cand[int(rng.integers(len(cand)))]
            bi, bj, g = (int(z[0]) for z in np.nonzero((r == i) & (c == j)))
            one = np.zeros(rest + B + (2, n, S))
            one[..., bi, bj, 1, g, :] = 1.0
            one = np.moveaxis(one.reshape(rest + B + (2 * n, S)), (-4, -3), axes)
            o = integ(one, fn)
            o = o[(0,) * len(rest)]
            ctx.close("weight_inside" if want_in else "weight_outside", o, np.full(S, 1.0 if want_in else 0.0), 1e-7, scale=1.0)


PROFILES = {"x64": dict(fn=run, quick=72, thorough=1200, split=8)}
