"""C11: reported Poynting fluxes against the fluxes of the reconstructed fields."""

import jax.numpy as jnp
import numpy as np

from fmmax import fft, fields
from vk import gen, scene

RULE = (
    "Random layers (all media, custom tangent fields) and random, one-sided and single-mode amplitudes; reported fluxes per "
    "order and part are compared with Re(E x H*) of the reconstructed fields, in Fourier space and averaged over a grid."
)
ASSUMPTIONS = [
    "modes whose own flux is within 1e-7 of zero relative to the largest (evanescent modes) get zero amplitude when the "
    "directional split is judged, because the side such a mode belongs to is decided by rounding",
    "near-cutoff and ill-conditioned layers (by the reference model) are discarded",
]
REQUIRED = {"total_fourier": 100, "total_grid": 100, "per_order": 100, "forward_part": 100, "backward_part": 100, "eigenmode": 100, "directional": 100}


def _rows(f):
    """Per-row flux density in the library's order: rows (-ey hx*), (ex hy*)."""
    ex, ey, hx, hy = np.split(f, 4, axis=-2)
    return np.real(np.concatenate([-ey * np.conj(hx), ex * np.conj(hy)], axis=-2))


def _sym(f, g):
    """Interference part: 1/2 Re(E_f x H_g* + E_g x H_f*) per row."""
    def x(p, q):
        ex, ey, _, _ = np.split(p, 4, axis=-2)
        _, _, hx, hy = np.split(q, 4, axis=-2)
        return np.real(np.concatenate([-ey * np.conj(hx), ex * np.conj(hy)], axis=-2))
    return 0.5 * (x(f, g) + x(g, f))


def run(ctx, rng, tol=1e-9, x32=False):
    s = scene.setup(ctx, rng, n=int(rng.choice([1, 5, 7])), max_order=2)
    layer = gen.any_layer(rng, (10, 11), lossless=bool(rng.random() < 0.4))
    if rng.random() < 0.3 and not layer.uniform:
        layer = scene.make_custom(ctx, rng, layer)
    scene.check_layer(layer, s, layer.tfield, **(dict(max_cond=100, min_q=0.15) if x32 else {}))
    ctx.describe(layer=layer.describe())
    ctx.tag(material=layer.kind.split(":")[0])
    r = scene.solve(layer, s)
    n = len(s["G"])
    F = scene.conversion(r).astype(complex)
    # Eigenmode flux equals that of one-hot amplitudes.
    em = scene.np_(fields.eigenmode_poynting_flux(r))
    want = scene.flux_rows(F[:, : 2 * n])
    nrm = np.sum(np.abs(F[: 2 * n, : 2 * n]) * np.abs(np.concatenate([F[3 * n :, : 2 * n], F[2 * n : 3 * n, : 2 * n]])), axis=0)
    ctx.close("eigenmode", em, want, tol, scale=np.max(nrm))
    # Amplitudes: two-sided, forward only, backward only, single modes.
    a = scene.crandn(rng, 2 * n, 5)
    b = scene.crandn(rng, 2 * n, 5)
    b[:, 1] = 0
    a[:, 2] = 0
    j = int(rng.integers(2 * n))
    a[:, 3], b[:, 3] = 0, 0
    a[j, 3] = scene.crandn(rng)
    a[:, 4] = 0
    a[:, 4] = a[:, 3]
    b[:, 4] = 0
    b[(j + 1) % (2 * n), 4] = scene.crandn(rng)
    amp = np.concatenate([a, b])
    f = F @ amp
    ff = F[:, : 2 * n] @ a
    fb = F[:, 2 * n :] @ b
    rows = _rows(f)
    scale = np.sum(np.abs(ff[: 2 * n]) + np.abs(fb[: 2 * n]), 0) * np.sum(np.abs(ff[2 * n :]) + np.abs(fb[2 * n :]), 0)
    scale = np.maximum(scale / (2 * n), 1e-300)
    ef, hf = scene.fields_at(r, a, b)
    # Grid average.
    sh = fft.min_array_shape_for_expansion(s["exp"])
    sh = (int(sh[0]) + int(rng.integers(0, 3)), int(sh[1]) + int(rng.integers(0, 3)))
    eg, hg, _ = fields.fields_on_grid(
        tuple(jnp.asarray(x) for x in ef), tuple(jnp.asarray(x) for x in hf), r, sh, (1, 1)
    )
    eg, hg = [scene.np_(x) for x in eg], [scene.np_(x) for x in hg]
    avg = np.mean(np.real(eg[0] * np.conj(hg[1]) - eg[1] * np.conj(hg[0])), axis=(0, 1))
    sf, sb = (scene.np_(x) for x in fields.amplitude_poynting_flux(jnp.asarray(a), jnp.asarray(b), r))
    ctx.true("real", not np.iscomplexobj(sf) and not np.iscomplexobj(sb))
    cross = _sym(ff, fb)
    for c in range(5):
        ctx.expect("total_fourier", abs(np.sum(sf[:, c] + sb[:, c]) - np.sum(rows[:, c])) / scale[c], tol, column=c)
        ctx.expect("total_grid", abs(np.sum(sf[:, c] + sb[:, c]) - avg[c]) / scale[c], tol, column=c)
        ctx.expect("per_order", np.max(np.abs(sf[:, c] + sb[:, c] - rows[:, c])) / scale[c], tol, column=c)
        ctx.expect("forward_part", np.max(np.abs(sf[:, c] - (_rows(ff) + cross)[:, c])) / scale[c], tol, column=c)
        ctx.expect("backward_part", np.max(np.abs(sb[:, c] - (_rows(fb) + cross)[:, c])) / scale[c], tol, column=c)
    # Directional split.
    rel = np.abs(want) / np.max(nrm)
    amb = rel < (1e-3 if x32 else 1e-7)
    a2, b2 = a.copy(), b.copy()
    a2[amb], b2[amb] = 0, 0
    pos = want > 0
    fwd = np.concatenate([np.where(pos[:, None], a2, 0), np.where(pos[:, None], 0, b2)])
    bwd = np.concatenate([np.where(pos[:, None], 0, a2), np.where(pos[:, None], b2, 0)])
    ff, fb = F @ fwd, F @ bwd
    cross = _sym(ff, fb)
    df, db = (scene.np_(q) for q in fields.directional_poynting_flux(jnp.asarray(a2), jnp.asarray(b2), r))
    for c in range(5):
        ctx.expect("directional", np.max(np.abs(df[:, c] - (_rows(ff) + cross)[:, c])) / scale[c], tol, column=c, part="forward")
        ctx.expect("directional", np.max(np.abs(db[:, c] - (_rows(fb) + cross)[:, c])) / scale[c], tol, column=c, part="backward")
    ctx.tag(ambiguous=bool(np.any(amb)), negative_forward=bool(np.any((want < 0) & ~amb)))


PROFILES = {
    "x64": dict(fn=run, quick=180, split=6),
    "x32": dict(fn=lambda c, r: run(c, r, 1e-4, True), quick=40, x64=False, split=1),
}
