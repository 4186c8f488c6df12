"""C02: power conservation in lossless stacks, passivity in absorbing ones."""

import jax.numpy as jnp
import numpy as np

from fmmax import fields
from vk import gen, scene

RULE = (
    "Random stacks (2-6 layers) of Hermitian or absorbing materials, random two-sided excitation over all "
    "orders; net flux is observed at several depths of every layer through the flux functions and the fields."
)
ASSUMPTIONS = ["near-cutoff and ill-conditioned layers (by the reference model) are discarded"]
REQUIRED = {"flux_constant": 200, "flux_decreasing": 200, "grating_flux": 20, "channel_power": 40}


def _fluxes(ctx, rng, results, thick, a0, bN, tol, name="flux_field_agree"):
    """List of (layer, z, flux, scale) down the stack, per amplitude column."""
    _, amps = scene.interior(results, thick, a0, bN)
    out = []
    nc = np.shape(a0)[-1]
    floor = 1e-20 * (np.sum(np.abs(a0) ** 2, 0) + np.sum(np.abs(bN) ** 2, 0))
    for i, (r, d, (a, b)) in enumerate(zip(results, thick, amps)):
        zs = [0.0, d] if d == 0 else [0.0, float(rng.uniform(0, d)), d]
        f, (az, bz), _ = scene.layer_fields_multi(r, a, b, zs, d)
        ex, ey, hx, hy = np.split(f, 4, axis=0)
        scale = np.sqrt(np.sum(np.abs(ex) ** 2 + np.abs(ey) ** 2, 0) * np.sum(np.abs(hx) ** 2 + np.abs(hy) ** 2, 0))
        scale = np.maximum(scale, floor)
        pf, pb = fields.amplitude_poynting_flux(jnp.asarray(az), jnp.asarray(bz), r)
        flux = np.sum(np.asarray(pf) + np.asarray(pb), axis=0).reshape(scale.shape)
        df, db = fields.directional_poynting_flux(jnp.asarray(az), jnp.asarray(bz), r)
        dflux = np.sum(np.asarray(df) + np.asarray(db), axis=0).reshape(scale.shape)
        ff = np.sum(np.real(ex * np.conj(hy) - ey * np.conj(hx)), axis=0)
        for j, z in enumerate(zs):
            for c in range(nc):
                ctx.expect(name, abs(flux[j, c] - ff[j, c]) / scale[j, c], tol)
                ctx.expect(name, abs(dflux[j, c] - ff[j, c]) / scale[j, c], tol)
            out.append((i, z, ff[j], scale[j]))
    return out


def _judge(ctx, fl, lossless_layer, tol, name_const="flux_constant", name_dec="flux_decreasing"):
    for (i0, z0, f0, s0), (i1, z1, f1, s1) in zip(fl[:-1], fl[1:]):
        same = i0 == i1
        for c in range(len(f0)):
            sc = max(s0[c], s1[c])
            if (same and lossless_layer[i0]) or not same:
                ctx.expect(name_const, abs(f0[c] - f1[c]) / sc, tol, layer=i0, z=z1)
            else:
                # Non-increasing along +z.
                ctx.expect(name_dec, max(0.0, f1[c] - f0[c]) / sc, tol, layer=i0, z=z1)


def _excite(rng, n):
    a0 = scene.crandn(rng, 2 * n, 3)
    bN = scene.crandn(rng, 2 * n, 3)
    bN[:, 1] = 0
    a0[:, 2] = 0
    if rng.random() < 0.5:  # a single incoming order
        i = int(rng.integers(2 * n))
        a0[:, 1] = 0
        a0[i, 1] = 1
    return a0, bN


def lossless(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=2)
    num = int(rng.integers(2, 6))
    layers = scene.random_layers(ctx, rng, num, (12, 11), lossless=True, ambient=str(rng.choice(["uniform", "any"])))
    thick = [min(scene.thickness(rng, s["wl"])[1], 3 * s["wl"]) for _ in layers]
    res = scene.build_stack(ctx, rng, s, layers, thick)
    a0, bN = _excite(rng, len(s["G"]))
    fl = _fluxes(ctx, rng, res, thick, a0, bN, 1e-7)
    _judge(ctx, fl, [True] * num, 1e-6)
    ctx.expect("end_to_end", np.max(np.abs(fl[0][2] - fl[-1][2]) / np.maximum(fl[0][3], fl[-1][3])), 1e-6)


def passive(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=2)
    num = int(rng.integers(2, 6))
    layers = scene.random_layers(ctx, rng, num, (12, 11), lossless=False, ambient=str(rng.choice(["uniform", "dielectric", "any"])))
    thick = [scene.thickness(rng, s["wl"])[1] for _ in layers]
    res = scene.build_stack(ctx, rng, s, layers, thick)
    a0, bN = _excite(rng, len(s["G"]))
    fl = _fluxes(ctx, rng, res, thick, a0, bN, 1e-7)
    lossless_layer = [_is_lossless(l) for l in layers]
    ctx.tag(lossy_layers=sum(not x for x in lossless_layer))
    _judge(ctx, fl, lossless_layer, 1e-6)


def _is_lossless(l):
    for t in (l.eps5, l.mu):
        xx, xy, yx, yy, zz = [np.asarray(a) for a in t]
        if any(np.any(np.abs(np.imag(a)) > 0) for a in (xx, yy, zz)) or np.any(np.abs(xy - np.conj(yx)) > 0):
            return False
    return True


def grating(ctx, rng):
    """One-dimensional gratings keep energy exactly in every vector formulation too."""
    one_d = "x" if rng.random() < 0.5 else "y"
    lk, u, v = gen.lattice(rng, str(rng.choice(["square", "rect", "rotated", "lefthanded", "oblique", "hex"])))
    if lk not in ("square", "rect"):
        # Keep a rectangular cell in a random orientation, so the second vector is along the grooves.
        a = rng.uniform(0, 2 * np.pi)
        p, q = rng.uniform(0.5, 1.5, 2)
        u = p * np.array([np.cos(a), np.sin(a)])
        v = q * np.array([-np.sin(a), np.cos(a)])
    G = gen.orders(rng, 7, one_d=one_d)
    G = np.array(sorted(G.tolist(), key=lambda g: (abs(g[0]) + abs(g[1]), g)))
    wl = float(rng.uniform(0.5, 1.6))
    w = 2 * np.pi / wl
    kk, k = gen.kvector(rng, u, v, w)
    from vk import ref

    s = dict(u=u, v=v, G=G, wl=wl, w=w, k0=k, K=ref.kvecs(k, u, v, G), lat=gen.lv(u, v), exp=gen.expansion(G))
    f = gen.VECTOR_FORMULATIONS[int(rng.integers(len(gen.VECTOR_FORMULATIONS)))]
    prof = rng.random(12) < 0.5
    prof[0], prof[1] = True, False
    lossy = bool(rng.random() < 0.5)
    e = np.where(prof, 1.0 + 0j, rng.uniform(2, 6) + (1j * rng.uniform(0.05, 1) if lossy else 0))
    arr = np.tile(e[:, None], (1, 12)) if one_d == "x" else np.tile(e[None, :], (12, 1))
    grat = gen.Layer("grating", "iso", [arr], gen.unit_mu(arr.shape), f)
    layers = [gen.uniform_iso(rng, True), grat, gen.uniform_iso(rng, True)]
    thick = [0.1 * wl, float(rng.uniform(0.05, 0.8) * wl), 0.1 * wl]
    ctx.describe(u=u, v=v, wl=wl, k=k)
    t = (v if one_d == "x" else u) / np.linalg.norm(v if one_d == "x" else u)
    scene.check_layer(grat, s, (np.full(arr.shape, t[0]), np.full(arr.shape, t[1])))
    for l in (layers[0], layers[2]):
        scene.check_layer(l, s)
    res = scene.build_stack(ctx, rng, s, layers, thick, cond=False)
    a0, bN = _excite(rng, len(G))
    fl = _fluxes(ctx, rng, res, thick, a0, bN, 1e-7)
    _judge(ctx, fl, [True, not lossy, True], 1e-6, "grating_flux", "grating_flux_decreasing")


def channels(ctx, rng):
    """Power balance between propagating channels of dielectric surroundings, by S matrix only."""
    s = scene.setup(ctx, rng, n=5, max_order=2, kkind=str(rng.choice(["zero", "generic", "x"])))
    num = int(rng.integers(3, 6))
    lossy = bool(rng.random() < 0.5)
    layers = scene.random_layers(ctx, rng, num, (12, 11), lossless=not lossy, ambient="dielectric")
    thick = [0.0] + [scene.thickness(rng, s["wl"])[1] if lossy else scene.thickness(rng, s["wl"], "moderate")[1] for _ in layers[2:]] + [0.0]
    res = scene.build_stack(ctx, rng, s, layers, thick)
    sm = scene.stack_s(res, thick)
    S = scene.field_s(sm)
    n = len(s["G"])
    kt2 = np.sum(s["K"] ** 2, axis=1)

    def props(l):
        e = float(np.real(l.eps[0][0, 0]))
        q2 = e * s["w"] ** 2 - kt2
        return e, q2

    def power(h, e, q2):
        """Power of outgoing/incoming plane waves from (hx, hy) amplitudes (propagating only)."""
        p = 0.0
        for g in range(n):
            if q2[g] <= 0:
                continue
            q = np.sqrt(q2[g])
            K = s["K"][g]
            kt = np.hypot(*K)
            kh = K / kt if kt > 0 else np.array([1.0, 0.0])
            hk = h[g] * kh[0] + h[n + g] * kh[1]
            hs = -h[g] * kh[1] + h[n + g] * kh[0]
            p += (s["w"] / q) * np.abs(hk) ** 2 + q / (s["w"] * e) * np.abs(hs) ** 2
        return p

    e0, q0 = props(layers[0])
    eN, qN = props(layers[-1])
    m0 = np.tile(q0 > 0, 2)
    mN = np.tile(qN > 0, 2)
    a = scene.crandn(rng, 2 * n) * m0
    b = scene.crandn(rng, 2 * n) * mN * float(rng.random() < 0.7)
    pin = power(a, e0, q0) + power(b, eN, qN)
    if pin == 0:
        from vk.core import Discard

        raise Discard("no incoming channel")
    pout = power(S[0] @ a + S[1] @ b, eN, qN) + power(S[2] @ a + S[3] @ b, e0, q0)
    if lossy:
        ctx.expect("channel_power", max(0.0, pout - pin) / pin, 1e-6)
    else:
        ctx.expect("channel_power", abs(pout - pin) / pin, 1e-6)


PROFILES = {
    "lossless": dict(fn=lossless, quick=120, split=3),
    "passive": dict(fn=passive, quick=120, split=3),
    "grating": dict(fn=grating, quick=20, cost=4, split=1),
    "channels": dict(fn=channels, quick=70),
}
