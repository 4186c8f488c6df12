"""C05: uniform stacks reproduce the exact thin-film solution for every order."""

import jax.numpy as jnp
import numpy as np

from fmmax import basis, fmm, scattering
from vk import gen, ref, scene
from vk.core import Discard

RULE = (
    "Random uniform stacks of 1-7 layers described through every eigensolve entry point; all scattering blocks for "
    "every order are compared with a globally solved scalar multilayer problem per polarization."
)
ASSUMPTIONS = ["scenarios with an order within 2% of cutoff in a layer are discarded"]
REQUIRED = {"s": 300, "no_coupling": 100, "angle": 30}


def _check(ctx, s, eps, thick, sm, tol, floor=1e-6):
    S = scene.field_s(sm)
    n = len(s["G"])
    want = [np.zeros((2 * n, 2 * n), complex) for _ in range(4)]
    for g in range(n):
        o = ref.thin_film_s(eps, thick, s["K"][g], s["w"])
        for w_, key in zip(want, ("s11", "s12", "s21", "s22")):
            w_[np.ix_([g, n + g], [g, n + g])] = o[key]
    mask = np.kron(np.ones((2, 2)), 1 - np.eye(n)) > 0
    for got, w_, name in zip(S, want, ("s11", "s12", "s21", "s22")):
        sc = max(1e-3, np.max(np.abs(w_)))
        # Order by order, so small orders are not hidden by large ones.
        for g in range(n):
            ix = np.ix_([g, n + g], [g, n + g])
            ctx.close("s", got[ix], w_[ix], tol, scale=max(np.max(np.abs(w_[ix])), floor), block=name, order=g)
        ctx.expect("no_coupling", np.max(np.abs(got[mask])) / sc if n > 1 else 0.0, tol, block=name)


def _guard(s, eps, lim=0.02):
    kt2 = np.sum(s["K"] ** 2, 1)
    for e in eps:
        if np.min(np.abs(e * s["w"] ** 2 - kt2)) < lim * s["w"] ** 2:
            raise Discard("order near cutoff")


def _layer(rng, e, how):
    one = np.ones((1, 1))
    if how == "iso":
        return gen.Layer("uniform", "iso", [e * one], gen.unit_mu((1, 1)), gen.FFT)
    t = [e * one, 0 * one, 0 * one, e * one, e * one]
    f = gen.FFT if rng.random() < 0.5 else gen.VECTOR_FORMULATIONS[int(rng.integers(8))]
    return gen.Layer("uniform", how, t, gen.unit_mu((1, 1)), f)


def _eps_list(rng, num):
    """Permittivities of which no adjacent pair sums to nearly zero (surface-mode pole at all k)."""
    out = []
    while len(out) < num:
        e = gen.scalar_eps(rng)[1]
        if not out or abs(out[-1] + e) > 0.3 * abs(e):
            out.append(e)
    return out


def stack(ctx, rng, x32=False):
    s = scene.setup(ctx, rng, n=7)
    num = int(rng.integers(1, 4 if x32 else 8))
    eps = _eps_list(rng, num)
    if rng.random() < 0.2 and num > 2:
        eps[1] = eps[0]
    _guard(s, eps, 0.1 if x32 else 0.02)
    thick = [scene.thickness(rng, s["wl"])[1] for _ in range(num)]
    if x32:
        thick = [min(t, 1.5 * s["wl"]) for t in thick]
    hows = [str(rng.choice(["iso", "iso", "aniso", "general"])) for _ in range(num)]
    for i in range(num):
        # Which of +-q is labelled forward is documented to be arbitrary for lossless modes of the
        # numerical eigensolve, so these media are tensor-described only inside, between other media.
        if np.real(eps[i]) > 0 and np.imag(eps[i]) < 1e-3:
            nb = [eps[j] for j in (i - 1, i + 1) if 0 <= j < num]
            if x32 or len(nb) < 2 or any(abs(b - eps[i]) < 0.3 * abs(eps[i]) for b in nb):
                hows[i] = "iso"
    layers = [_layer(rng, e, h) for e, h in zip(eps, hows)]
    ctx.describe(eps=eps, thick=thick, how=hows)
    ctx.tag(num_layers=num)
    for h in hows:
        ctx.tag(how=h)
    res = [scene.solve(l, s) for l in layers]
    sm = scene.stack_s(res, thick)
    _check(ctx, s, eps, thick, sm, 2e-2 if x32 else 1e-7, 0.1 if x32 else 1e-6)


def iso_only(ctx, rng):
    """Isotropic entry point only: many layers, real and complex dtype permittivity."""
    s = scene.setup(ctx, rng, n=int(rng.choice([1, 5, 9])))
    num = int(rng.integers(2, 12))
    eps = _eps_list(rng, num)
    _guard(s, eps)
    thick = [scene.thickness(rng, s["wl"])[1] for _ in range(num)]
    ctx.describe(eps=eps, thick=thick)
    ctx.tag(num_layers=num)
    res = [scene.solve(_layer(rng, e, "iso"), s) for e in eps]
    sm = scene.stack_s(res, thick)
    _check(ctx, s, eps, thick, sm, 1e-7)


def angles(ctx, rng):
    """Oblique incidence specified by angles, beyond the critical angle too; zeroth order Fresnel."""
    lk, u, v = gen.lattice(rng)
    wl = float(rng.uniform(0.4, 1.6))
    w = 2 * np.pi / wl
    n1, n2 = rng.uniform(1, 3.5), rng.uniform(1, 3.5)
    th = float(rng.uniform(-1.5, 1.5)) if rng.random() < 0.85 else 0.0
    ph = float(rng.uniform(-np.pi, np.pi))
    e1 = n1**2 + (0.0 if rng.random() < 0.6 else 0.1j)
    k = np.asarray(basis.plane_wave_in_plane_wavevector(jnp.asarray(wl), jnp.asarray(th), jnp.asarray(ph), jnp.asarray(e1)))
    want = n1 * w * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
    ctx.describe(u=u, v=v, wl=wl, n1=n1, n2=n2, th=th, ph=ph, e1=e1)
    ctx.tag(tir=bool(n1 * abs(np.sin(th)) > n2))
    ctx.close("angle", k, want, 1e-9, scale=w)
    # Batched angles, mixed broadcasting.
    ths = rng.uniform(-1.5, 1.5, 3)
    kb = np.asarray(basis.plane_wave_in_plane_wavevector(jnp.asarray(wl), jnp.asarray(ths), jnp.asarray(ph), jnp.asarray(e1)))
    wb = n1 * w * np.sin(ths)[:, None] * np.array([np.cos(ph), np.sin(ph)])
    ctx.close("angle", kb, wb, 1e-9, scale=w)
    G = np.array([[0, 0]])
    s = dict(u=u, v=v, G=G, wl=wl, w=w, k0=want, K=ref.kvecs(want, u, v, G), lat=gen.lv(u, v), exp=gen.expansion(G))
    eps = [n1**2, n2**2]
    _guard(s, eps, 0.01)
    res = [scene.solve(_layer(rng, e, "iso"), s) for e in eps]
    sm = scene.stack_s(res, [0.0, 0.0])
    _check(ctx, s, eps, [0.0, 0.0], sm, 1e-7)
    # Fresnel power reflection for both polarizations.
    S21 = scene.field_s(sm)[2]
    c1 = np.cos(th)
    c2 = ref.csqrt(1 - (n1 / n2 * np.sin(th)) ** 2)
    rs = (n1 * c1 - n2 * c2) / (n1 * c1 + n2 * c2)
    rp = (n2 * c1 - n1 * c2) / (n2 * c1 + n1 * c2)
    kh = np.array([np.cos(ph), np.sin(ph)])
    sh = np.array([-kh[1], kh[0]])
    ctx.expect("fresnel", abs(abs(kh @ S21 @ kh) - abs(rs)), 1e-7)
    ctx.expect("fresnel", abs(abs(sh @ S21 @ sh) - abs(rp)), 1e-7)


PROFILES = {
    "stack": dict(fn=stack, quick=110, split=3),
    "iso_only": dict(fn=iso_only, quick=110, split=2),
    "angles": dict(fn=angles, quick=120),
    "x32": dict(fn=lambda c, r: stack(c, r, True), quick=70, x64=False),
}
