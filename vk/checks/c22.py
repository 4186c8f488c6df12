"""C22: interpolated permittivities are physical."""

import jax
import jax.numpy as jnp
import numpy as np

from fmmax import basis, fmm, utils
from vk import gen, scene

RULE = (
    "Random permittivity pairs (vacuum, dielectric, index below one, absorbing, metallic, real negative, zero, gain; python "
    "scalars, numpy and jax arrays, real, integer or complex dtype; broadcasting and batched shapes) interpolated over random and ordered "
    "densities (0, 1, denormal distance from the ends, arrays); end values, index monotonicity, Lipschitz continuity, passivity, distance from zero, "
    "elementwise consistency, jit and derivative with respect to the density are monitored, and the value is compared with "
    "the documented index interpolation evaluated in numpy."
)
ASSUMPTIONS = [
    "passive means Im(eps) >= 0 for exp(-i w t)",
    "monotonicity is of the refractive index and extinction, the principal square root of the permittivity",
]
REQUIRED = {
    "end_void": 500, "end_solid": 500, "monotone_n": 500, "monotone_k": 500, "continuous": 500, "passive": 200, "no_zero_crossing": 60,
    "scheme": 500, "broadcast": 100, "jit": 50, "derivative": 100, "end_single": 100, "solved_ends": 5, "real_dtype": 80,
}

KINDS = ("vacuum", "dielectric", "high", "subunit", "lossy", "tiny_loss", "metal", "negative_real", "negative_small", "gain", "extreme")


def value(rng, kind=None):
    kind = str(kind or rng.choice(KINDS))
    if kind == "vacuum":
        e = 1.0
    elif kind == "dielectric":
        e = float(rng.uniform(1.1, 6))
    elif kind == "high":
        e = float(rng.uniform(6, 20))
    elif kind == "subunit":
        e = float(rng.uniform(0.01, 1))
    elif kind == "lossy":
        e = complex(rng.uniform(0.5, 6), 10 ** rng.uniform(-3, 1))
    elif kind == "tiny_loss":
        e = complex(rng.uniform(-6, 6), 10 ** rng.uniform(-14, -6))
    elif kind == "metal":
        e = complex(-rng.uniform(0.5, 40), rng.uniform(0.01, 8))
    elif kind == "negative_real":
        e = -float(rng.uniform(1, 40))
    elif kind == "negative_small":
        e = -float(10 ** rng.uniform(-4, 0))
    elif kind == "gain":
        e = complex(rng.uniform(1, 6), -rng.uniform(1e-3, 1))
    elif kind == "extreme":
        e = complex(-rng.uniform(1, 3) * 10 ** rng.uniform(2, 4), 10 ** rng.uniform(0, 4))
    return kind, e


def dress(rng, e):
    """The same value in some type a user may pass."""
    r = rng.integers(5)
    if isinstance(e, float):
        if e == int(e) and rng.random() < 0.3:
            return "int", int(e)
        return [("float", e), ("np", np.float64(e)), ("jnp", jnp.asarray(e)), ("complex", complex(e)), ("jnpc", jnp.asarray(complex(e)))][r]
    return [("complex", e), ("np", np.complex128(e)), ("jnp", jnp.asarray(e)), ("np0", np.asarray(e)), ("complex", e)][r]


def _nk(e):
    r = np.sqrt(np.asarray(e, complex))
    return r.real, r.imag


def _sweep(ctx, rng, tol, f=utils.interpolate_permittivity):
    ks, es = value(rng)
    kv, ev = value(rng)
    if rng.random() < 0.08:
        kv, ev = ks, es
    ts, a = dress(rng, es)
    tv, b = dress(rng, ev)
    ctx.describe(solid=es, void=ev, types=(ts, tv))
    ctx.tag(solid=ks, void=kv, dtype=f"{ts}/{tv}")
    inner = np.sort(np.concatenate([rng.random(12), 10.0 ** -rng.uniform(1, 12, 3), 1 - 10.0 ** -rng.uniform(1, 6, 3)]))
    d = np.concatenate([[0.0], inner, [1.0]])
    out = np.asarray(f(a, b, jnp.asarray(d)))
    real = not isinstance(es, complex) and not isinstance(ev, complex)
    if real:
        ctx.true("real_dtype", out.shape == d.shape and bool(np.all(np.isfinite(out))), shape=out.shape)
    big = max(abs(es), abs(ev))
    ctx.close("end_void", out[0], ev, tol, scale=abs(ev))
    ctx.close("end_solid", out[-1], es, tol, scale=abs(es))
    ctx.close("end_single", np.asarray(f(a, b, 0)).reshape(()), ev, tol, scale=abs(ev))
    ctx.close("end_single", np.asarray(f(a, b, 1)).reshape(()), es, tol, scale=abs(es))
    # The index: continue the branch of the square root given by the ends (gain: k < 0).
    ns, ks_ = _nk(es)
    nv, kv_ = _nk(ev)
    root = np.sqrt(out)
    want = d * (ns + 1j * ks_) + (1 - d) * (nv + 1j * kv_)
    root = np.where(np.abs(root - want) <= np.abs(root + want), root, -root)
    m = np.sqrt(big)
    for nm, v, lo, hi in (("monotone_n", root.real, nv, ns), ("monotone_k", root.imag, kv_, ks_)):
        sgn = np.sign(hi - lo) if hi != lo else 0.0
        step = np.diff(v)
        bad = np.max(np.abs(step)) if sgn == 0 else max(0.0, float(np.max(-sgn * step)))
        # Square roots amplify rounding near zero: eps^2 in the value is sqrt in the root there.
        ctx.expect(nm, bad / m, 1e-6 if tol < 1e-9 else 2e-3)
    # Lipschitz bound with respect to the density over the whole sweep.
    L = 4 * abs((ns + 1j * ks_) - (nv + 1j * kv_)) * m
    ctx.expect("continuous", float(np.max(np.abs(np.diff(out)) - 1.5 * L * np.diff(d))) / big, tol * 10)
    ctx.close("scheme", out, want**2, tol, scale=big)
    if np.imag(es) >= 0 and np.imag(ev) >= 0:
        ctx.expect("passive", float(max(0.0, np.max(-out.imag))) / big, tol)
    if (np.real(es) < 0) != (np.real(ev) < 0) and np.imag(es) >= 0 and np.imag(ev) >= 0:
        # Between a metal (n1 + i k1) and a dielectric the straight index line stays away from the origin.
        A, B = ns + 1j * ks_, nv + 1j * kv_
        t = np.clip(-np.real(B * np.conj(A - B)) / max(abs(A - B) ** 2, 1e-300), 0, 1)
        dist = abs(t * A + (1 - t) * B)
        ctx.true("no_zero_crossing", bool(np.all(np.abs(root) >= 0.99 * dist)), dist=dist, got=float(np.min(np.abs(root))))
    if rng.random() < 0.3:
        x = float(rng.uniform(0.02, 0.98))
        gr = jax.grad(lambda t: jnp.real(f(a, b, t)))(x) + 1j * jax.grad(lambda t: jnp.imag(f(a, b, t)))(x)
        c = (ns + 1j * ks_) - (nv + 1j * kv_)
        ctx.close("derivative", complex(gr), 2 * c * (nv + 1j * kv_ + x * c), tol * 10, scale=2 * big)
    if rng.random() < 0.12:
        g = jax.jit(f)(jnp.asarray(a), jnp.asarray(b), jnp.asarray(d))
        ctx.close("jit", g, out, tol, scale=big)


def sweep(ctx, rng):
    _sweep(ctx, rng, 1e-12)


def sweep32(ctx, rng):
    _sweep(ctx, rng, 1e-5)


def arrays(ctx, rng):
    """Array-valued permittivities and densities of any broadcasting shapes equal the scalar results."""
    shp = [((), (4, 5)), ((3, 1, 1), (4, 5)), ((2, 1, 1), (3, 4)), ((4, 5), ()), ((2, 3), (2, 3)), ((1,), (7,)), ((3, 1, 1, 1), (2, 3, 4))]
    i = ctx.index % len(shp)
    sa, sd = shp[i]
    sb = [sa, ()][int(rng.integers(2))]
    real = rng.random() < 0.4
    pick = lambda: value(rng, str(rng.choice(["vacuum", "dielectric", "negative_real", "subunit"])) if real else None)[1]
    A = np.array([pick() for _ in range(int(np.prod(sa, dtype=int)))]).reshape(sa)
    B = np.array([pick() for _ in range(int(np.prod(sb, dtype=int)))]).reshape(sb)
    D = gen.density(rng, sd if len(sd) == 2 else (6, 5))[1] if len(sd) == 2 else rng.random(sd)
    if np.size(D) > 1 and rng.random() < 0.5:
        D = np.round(D)
    ctx.describe(A=A, B=B, D=D)
    ctx.tag(shapes=f"{sa}/{sb}/{sd}", real=real)
    out = np.asarray(utils.interpolate_permittivity(jnp.asarray(A), jnp.asarray(B), jnp.asarray(D)))
    Ab, Bb, Db = np.broadcast_arrays(A, B, D)
    if not ctx.true("broadcast", out.shape == Ab.shape, got=out.shape, want=Ab.shape):
        return
    ref = (Db * np.sqrt(Ab.astype(complex)) + (1 - Db) * np.sqrt(Bb.astype(complex))) ** 2
    ctx.close("broadcast", out, ref, 1e-12)
    for _ in range(3):
        j = tuple(int(rng.integers(n)) for n in out.shape)
        one = utils.interpolate_permittivity(Ab[j].item(), Bb[j].item(), Db[j].item())
        ctx.close("broadcast", np.asarray(one).reshape(()), out[j], 1e-12, scale=np.max(np.abs(out)))
    for x, e in ((0.0, B), (1.0, A)):
        o = np.asarray(utils.interpolate_permittivity(jnp.asarray(A), jnp.asarray(B), jnp.full(sd, x)))
        ctx.close("end_void" if x == 0 else "end_solid", o, np.broadcast_to(e, o.shape), 1e-12)


def solved(ctx, rng):
    """A density of zero or one everywhere solves as the pure material, and passive mixtures give decaying or forward modes."""
    s = scene.setup(ctx, rng, n=5, max_order=1)
    mats = [str(rng.choice(["dielectric", "lossy", "metal", "negative_real"])) for _ in range(2)]
    (ka, a), (kb, b) = (value(rng, m) for m in mats)
    ctx.describe(solid=a, void=b)
    ctx.tag(solid=ka, void=kb)
    kw = dict(wavelength=jnp.asarray(s["wl"]), in_plane_wavevector=jnp.asarray(s["k0"]), primitive_lattice_vectors=s["lat"], expansion=s["exp"], formulation=gen.FFT)
    for x, e in ((0.0, b), (1.0, a)):
        scene.check_layer(gen.Layer("u", "iso", [np.array([[e]])], gen.unit_mu((1, 1)), gen.FFT), s)
        r = fmm.eigensolve_isotropic_media(permittivity=utils.interpolate_permittivity(a, b, jnp.full((1, 1), x)), **kw)
        q2 = (e * s["w"] ** 2 - np.sum(s["K"] ** 2, -1))
        got = np.asarray(r.eigenvalues) ** 2
        ctx.close("solved_ends", got, np.concatenate([q2, q2]), 1e-10, scale=np.max(np.abs(q2)))
    d = gen.rich_density(rng, (8, 8))
    r = fmm.eigensolve_isotropic_media(permittivity=utils.interpolate_permittivity(a, b, jnp.asarray(d)), **kw)
    ctx.finite("finite_modes", r.eigenvalues, r.eigenvectors)


PROFILES = {
    "sweep": dict(fn=sweep, quick=900, split=4, cost=0.02),
    "sweep32": dict(fn=sweep32, quick=300, split=1, cost=0.02, x64=False),
    "arrays": dict(fn=arrays, quick=160, split=1, cost=0.02),
    "solved": dict(fn=solved, quick=40, split=2, cost=0.1),
}
