"""C21: finite, non-growing, convergent solutions for passive structures."""

import jax.numpy as jnp
import numpy as np

from fmmax import fields, scattering
from vk import gen, ref, scene
from vk.core import Discard

RULE = (
    "Random passive layers (single modes checked one by one against the reference spectrum and for growth) and stress stacks: "
    "up to 48 layers, thickness zero to 1e9 wavelengths, metals, evanescent orders, degenerate and high-symmetry layers, 32 "
    "and 64 bit; outputs are checked for finiteness, exact scalar multilayers, thick-limit decoupling and decay with depth."
)
ASSUMPTIONS = [
    "orders exactly at cutoff are excluded",
    "forward labelling of lossless modes of numerically solved layers is only claimed up to the sign of real wavenumbers (documented)",
]
REQUIRED = {
    "no_growth": 70, "spectrum": 70, "decay_with_depth": 40, "lossy_forward_flux": 40, "finite_scattering": 60, "finite_interior": 60,
    "power_bounded": 4, "thick_decoupled": 30, "thick_reflection": 30, "many_layers_exact": 20, "repeated_layers": 8,
    "uniform_forward": 12, "finite_x32": 40,
}


def modes(ctx, rng):
    """Every forward mode of a layer decays or propagates; the spectrum is that of the layer."""
    s = scene.setup(ctx, rng, n=7, max_order=2)
    shape = (11, 12)
    lossless = bool(ctx.index % 3 == 0)
    layer = gen.any_layer(rng, shape, lossless)
    if not layer.uniform and rng.random() < 0.3:
        layer = scene.make_custom(ctx, rng, layer)
    ctx.describe(layer=layer.describe())
    ctx.tag(material=layer.kind.split(":")[0], lossless=lossless, formulation=layer.fname())
    X, q, V = scene.check_layer(layer, s, layer.tfield)
    r = scene.solve(layer, s)
    ql = scene.np_(r.eigenvalues)
    sc = np.max(np.abs(q))
    custom = layer.tfield is not None
    if layer.uniform and layer.api == "iso":
        want = [ref.csqrt(layer.eps[0][0, 0] * s["w"] ** 2 - np.sum(k**2)) for k in s["K"]]
        ctx.expect("uniform_forward", match(ql, np.tile(want, 2)) / np.max(np.abs(want)), 1e-7)
    ctx.expect("no_growth", np.max(-np.imag(ql)) / sc, 1e-9)
    # {q, -q} is the spectrum of the generator (greedy matching).
    ctx.expect("spectrum", match(np.concatenate([ql, -ql]), q) / sc, 1e-7)
    if custom:
        return
    # A single mode through the layer.
    n2 = len(ql)
    im = np.imag(ql)
    d = float(rng.uniform(0.5, 3)) / max(np.median(im), 1e-3 * sc)
    zs = [0.0, 0.4 * d, d]
    I = np.eye(n2, dtype=complex)
    f, _, _ = scene.layer_fields_multi(r, I, 0 * I, zs, d)
    nf = np.linalg.norm(f, axis=0)
    ctx.expect("decay_with_depth", np.max((nf[1:] - nf[:-1]) / nf[:1]), 1e-7)
    f, _, _ = scene.layer_fields_multi(r, 0 * I, I, zs, d)
    nb = np.linalg.norm(f, axis=0)
    ctx.expect("decay_with_depth", np.max((nb[:-1] - nb[1:]) / nb[-1:]), 1e-7)
    # Absorption: forward modes that decay carry power forward.
    f0 = fields_stack(r, I)
    fl = scene.flux_rows(f0) / np.linalg.norm(f0, axis=0) ** 2
    lossy = im > 1e-6 * sc
    if np.any(lossy):
        ctx.expect("lossy_forward_flux", np.max(-fl[lossy]), 1e-8)


def match(a, b):
    """Largest distance in a greedy one-to-one matching of two spectra."""
    left = list(b)
    worst = 0.0
    for x in a:
        i = int(np.argmin(np.abs(np.array(left) - x)))
        worst = max(worst, abs(left.pop(i) - x))
    return worst


def fields_stack(r, a):
    ef, hf = scene.fields_at(r, a, np.zeros_like(a))
    return scene.tfields(ef, hf)


def extreme_thickness(rng, wl):
    return float(rng.choice([0.0, wl * 10 ** rng.uniform(-8, -1), wl * rng.uniform(0.1, 2), wl * 10 ** rng.uniform(1, 4), wl * 1e9]))


def stress(ctx, rng, x32=False):
    """Many or very thick layers of anything passive; no discards except exact cutoffs."""
    s = scene.setup(ctx, rng, n=5, max_order=2)
    if rng.random() < 0.3:  # high symmetry
        s = sym_setup(ctx, rng)
    shape = (9, 10)
    num = int(rng.integers(2, 9))
    amb = gen.uniform_iso(rng, True, str(rng.choice(["vacuum", "dielectric"])))
    amb2 = gen.uniform_iso(rng, True, str(rng.choice(["vacuum", "dielectric"])))
    pool = []
    for _ in range(3):
        l = gen.any_layer(rng, shape, bool(rng.random() < 0.3), p_uniform=0.4)
        if not l.uniform and rng.random() < 0.3:
            l = scene.make_custom(ctx, rng, l)
        pool.append(l)
    if rng.random() < 0.3:  # fully degenerate: a constant array solved numerically
        pool.append(gen.Layer("const", "iso", [np.full(shape, gen.scalar_eps(rng)[1])], gen.unit_mu(shape), gen.FFT))
    ids = [int(rng.integers(len(pool))) for _ in range(num)]
    reps = int(rng.choice([1, 1, 2, 6]))
    ids = (ids * reps)[:48]
    thick = [extreme_thickness(rng, s["wl"]) for _ in ids]
    ctx.describe(pool=[l.describe() for l in pool], amb=(amb.describe(), amb2.describe()), ids=ids, thick=thick)
    ctx.tag(layers=len(ids) + 2)
    kt2 = np.sum(s["K"] ** 2, axis=1)
    es = [l.eps[0][0, 0] for l in (amb, amb2)] + [l.eps[0].ravel()[0] for l in pool if l.uniform and l.api == "iso"]
    lim = 1e-3 if x32 else 1e-6
    for e in es:
        if np.min(np.abs(e * s["w"] ** 2 - kt2)) < lim * s["w"] ** 2:
            raise Discard("order at cutoff")
    # Modes at cutoff inside numerically solved layers: the reference spectrum decides.
    cond = True
    for l in pool:
        q, V = ref.modes(gen.ref_generator(l, s["K"], s["w"], s["G"], l.tfield))
        if np.min(np.abs(q)) < (3e-2 if x32 else 1e-5) * s["w"]:
            raise Discard("mode at cutoff")
        qs = np.min(np.abs(q))
        c = np.linalg.cond(V)
        if not np.isfinite(c) or c > (1e3 if x32 else 1e8):
            raise Discard("defective layer")
        if qs < 0.03 * s["w"] or c > 1e5 or l.kind == "const":
            cond = False
    sol = [scene.solve(l, s) for l in pool]
    res = [scene.solve(amb, s)] + [sol[i] for i in ids] + [scene.solve(amb2, s)]
    th = [0.0] + thick + [0.0]
    sm = scene.stack_s(res, th)
    nm = "finite_x32" if x32 else "finite_scattering"
    ctx.finite(nm, *scene.sblocks(sm))
    n = len(s["G"])
    # Propagating incidence on both sides.
    q0 = np.real(es[0]) * s["w"] ** 2 - kt2
    qN = np.real(es[1]) * s["w"] ** 2 - kt2
    a0 = scene.crandn(rng, 2 * n, 2) * np.tile(q0 > 0, 2)[:, None]
    bN = scene.crandn(rng, 2 * n, 2) * np.tile(qN > 0, 2)[:, None]
    a0[:, 1] *= rng.random() < 0.5
    use = res if len(res) <= 12 else res[:6] + res[-6:]
    tuse = th if len(res) <= 12 else th[:6] + th[-6:]
    si, amps = scene.interior(use, tuse, a0, bN)
    ctx.finite("finite_x32" if x32 else "finite_interior", *[x for ab in amps for x in ab])
    i = int(rng.integers(len(use)))
    z = float(rng.uniform(0, 1)) * tuse[i]
    f, _, _ = scene.layer_fields(use[i], *amps[i], z, tuse[i])
    ctx.finite("finite_x32" if x32 else "finite_interior", f)
    if x32 or not cond or any(l.tfield is not None for l in pool):
        return
    if np.any(q0 > 0) and max(thick) < 2e4 * s["wl"]:
        S = scene.field_s(sm)
        pin = power(a0, np.real(es[0]), q0, s)
        pout = power(S[2] @ a0, np.real(es[0]), q0, s) + power(S[0] @ a0, np.real(es[1]), qN, s)
        ok = pin > 0
        if np.any(ok):
            ctx.expect("power_bounded", np.max((pout - pin)[ok] / pin[ok]), 1e-5)


def power(h, e, q2, s):
    """Power of outgoing/incoming plane waves from (hx, hy) amplitudes (propagating orders only)."""
    n = len(q2)
    p = np.zeros(h.shape[1])
    for g in range(n):
        if q2[g] <= 0:
            continue
        q = np.sqrt(q2[g])
        kt = np.hypot(*s["K"][g])
        kh = s["K"][g] / kt if kt > 0 else np.array([1.0, 0.0])
        hk = h[g] * kh[0] + h[n + g] * kh[1]
        hs = -h[g] * kh[1] + h[n + g] * kh[0]
        p += (s["w"] / q) * np.abs(hk) ** 2 + q / (s["w"] * e) * np.abs(hs) ** 2
    return p


def sym_setup(ctx, rng):
    p = float(rng.uniform(0.5, 1.5))
    u, v = p * np.array([1.0, 0.0]), p * np.array([0.0, 1.0])
    G = np.array([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]])
    wl = float(rng.uniform(0.5, 1.6))
    k = np.zeros(2)
    ctx.describe(u=u, v=v, G=G, wl=wl, k=k)
    return dict(u=u, v=v, G=G, wl=wl, w=2 * np.pi / wl, k0=k, K=ref.kvecs(k, u, v, G), lat=gen.lv(u, v), exp=gen.expansion(G))


def thick(ctx, rng):
    """An absorbing layer, thick: transmission vanishes, the two interfaces decouple."""
    s = scene.setup(ctx, rng, n=5, max_order=2)
    shape = (9, 10)
    l = gen.any_layer(rng, shape, False, p_uniform=0.3)
    if l.api == "iso":
        l.eps = [l.eps[0] + 1j * rng.uniform(0.05, 1)]
    else:
        l.eps = [x + (1j * rng.uniform(0.05, 1) if i in (0, 3, 4) else 0) for i, x in enumerate(l.eps)]
    if not l.uniform and rng.random() < 0.25:
        l = scene.make_custom(ctx, rng, l)
    A, B = gen.uniform_iso(rng), gen.uniform_iso(rng)
    layers = [A, l, B]
    qm = []
    for x in layers:
        X, q, V = scene.check_layer(x, s, x.tfield)
        qm.append(np.min(np.abs(np.imag(q))))
    if qm[1] < 1e-4 * s["w"]:
        raise Discard("layer hardly absorbs")
    d = float(rng.uniform(24, 60)) / qm[1] * float(rng.choice([1, 1, 1e3, 1e7]))
    ctx.describe(layers=[x.describe() for x in layers], d=d)
    ctx.tag(material=l.kind.split(":")[0], formulation=l.fname())
    r = [scene.solve(x, s) for x in layers]
    full = scene.field_s(scene.stack_s(r, [0.0, d, 0.0]), r[0], r[2])
    left = scene.field_s(scene.stack_s(r[:2], [0.0, 0.0]), r[0], r[1])
    right = scene.field_s(scene.stack_s(r[1:], [0.0, 0.0]), r[1], r[2])
    ctx.finite("finite_scattering", *full)
    ctx.expect("thick_decoupled", max(np.max(np.abs(full[0])), np.max(np.abs(full[3]))), 1e-7)
    ctx.close("thick_reflection", full[2], left[2], 1e-7, scale=max(np.max(np.abs(left[2])), 1e-2))
    ctx.close("thick_reflection", full[1], right[1], 1e-7, scale=max(np.max(np.abs(right[1])), 1e-2))
    n = len(s["G"])
    a0 = scene.crandn(rng, 2 * n, 1)
    bN = scene.crandn(rng, 2 * n, 1)
    _, amps = scene.interior(r, [0.0, d, 0.0], a0, bN)
    ctx.finite("finite_interior", *[x for ab in amps for x in ab])
    f, _, _ = scene.layer_fields_multi(r[1], *amps[1], [0.0, d / 2, d], d)
    n_ = np.linalg.norm(f, axis=0)[:, 0]
    # At mid depth nothing is left.
    ctx.expect("decay_with_depth", n_[1] / max(n_[0], n_[2]), 1e-3)


def many(ctx, rng):
    """Up to 48 uniform layers with extreme thicknesses against the exact scalar solution; repeated patterned layers."""
    s = scene.setup(ctx, rng, n=5, max_order=2)
    if ctx.index % 4 == 3:
        l = gen.patterned_iso(rng, (9, 10)) if rng.random() < 0.5 else gen.patterned_aniso(rng, (9, 10), lossless=False)
        A, B = gen.uniform_iso(rng), gen.uniform_iso(rng)
        for x in (l, A, B):
            scene.check_layer(x, s)
        m, d = int(rng.integers(10, 40)), float(rng.uniform(0.02, 0.4)) * s["wl"]
        ctx.describe(l=l.describe(), amb=(A.describe(), B.describe()), m=m, d=d)
        r, ra, rb = scene.solve(l, s), scene.solve(A, s), scene.solve(B, s)
        got = scene.field_s(scene.stack_s([ra] + [r] * m + [rb], [0.0] + [d] * m + [0.0]), ra, rb)
        want = scene.field_s(scene.stack_s([ra, r, rb], [0.0, m * d, 0.0]), ra, rb)
        for g, w in zip(got, want):
            ctx.close("repeated_layers", g, w, 1e-6, scale=max(np.max(np.abs(w)), 1e-2))
        return
    num = int(rng.integers(20, 49))
    pool = [gen.scalar_eps(rng)[1] for _ in range(4)]
    eps = [pool[int(rng.integers(4))] for _ in range(num)]
    kt2 = np.sum(s["K"] ** 2, 1)
    for e in pool:
        if np.min(np.abs(e * s["w"] ** 2 - kt2)) < 0.02 * s["w"] ** 2:
            raise Discard("order near cutoff")
    for a, b in zip(eps[:-1], eps[1:]):
        if abs(a + b) < 0.3 * abs(a):
            raise Discard("surface-mode pole")
    th = [extreme_thickness(rng, s["wl"]) for _ in eps]
    # Phase of a propagating layer must be representable: cap lossless propagating thicknesses.
    th = [min(t, 100 * s["wl"]) if np.imag(e) < 1e-2 and np.real(e) > 0 else t for t, e in zip(th, eps)]
    ctx.describe(eps=eps, thick=th)
    ctx.tag(num=num // 10 * 10)
    cache = {e: scene.solve(gen.Layer("u", "iso", [np.array([[e]])], gen.unit_mu((1, 1)), gen.FFT), s) for e in pool}
    sm = scene.stack_s([cache[e] for e in eps], th)
    ctx.finite("finite_scattering", *scene.sblocks(sm))
    S = scene.field_s(sm, cache[eps[0]], cache[eps[-1]])
    n = len(s["G"])
    want = [np.zeros((2 * n, 2 * n), complex) for _ in range(4)]
    for g in range(n):
        o = ref.thin_film_s(eps, th, s["K"][g], s["w"])
        for w_, key in zip(want, ("s11", "s12", "s21", "s22")):
            w_[np.ix_([g, n + g], [g, n + g])] = o[key]
    for g_, w_ in zip(S, want):
        ctx.close("many_layers_exact", g_, w_, 1e-5, scale=max(np.max(np.abs(w_)), 1e-2))


PROFILES = {
    "modes": dict(fn=modes, quick=100, thorough=1500, split=3),
    "stress": dict(fn=stress, quick=60, thorough=800, split=3, cost=2),
    "thick": dict(fn=thick, quick=48, thorough=700, split=2),
    "many": dict(fn=many, quick=40, thorough=600, split=2, cost=2),
    "x32": dict(fn=lambda c, r: stress(c, r, True), quick=32, thorough=500, split=2, cost=2, x64=False),
}
