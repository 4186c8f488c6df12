"""C18: uniaxial perfectly matched layers."""

import jax.numpy as jnp
import numpy as np

from fmmax import pml
from vk import gen, scene

RULE = (
    "Random permittivity arrays (any shape parity, batch axes, real or complex), widths including zero and asymmetric ones, "
    "and strengths; tensors are checked for matching, confinement, symmetry, monotone stretch recovered from the tensors "
    "themselves, and against the documented uniaxial formula; eigenmodes of a matched layer are compared with the unmatched one."
)
ASSUMPTIONS = [
    "lattice vectors along x and y (documented)",
    "passivity is claimed for the stretch factors (Re >= 1, Im >= 0), not element by element of the uniaxial tensor",
]
REQUIRED = {
    "matched": 150, "unit_permeability_inside": 100, "unchanged_inside": 100, "edge_extended": 60, "off_diagonal_zero": 150,
    "stretch_factors": 150, "stretch_separable": 150, "stretch_monotone": 60, "stretch_symmetric": 60, "stretch_strength": 60,
    "stretch_passive": 150, "impossible_width": 80, "determinant": 150, "batch": 60, "no_pml_identity": 10, "shapes": 150,
}


def make(tol):
    def run(ctx, rng):
        nx, ny = int(rng.integers(1, 25)), int(rng.integers(1, 25))
        lead = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
        wx = int(rng.integers(0, (nx - 1) // 2 + 1)) if rng.random() < 0.85 else 0
        wy = int(rng.integers(0, (ny - 1) // 2 + 1)) if rng.random() < 0.85 else 0
        if ctx.index % 10 == 9:
            wx = wy = 0
        if rng.random() < 0.2:  # extreme: a single cell in the middle
            wx, wy = (nx - 1) // 2, (ny - 1) // 2
        kind = str(rng.choice(["real", "complex", "metal", "uniform"]))
        e = 1 + 5 * rng.random(lead + (nx, ny))
        if kind == "complex":
            e = e + 1j * rng.random(e.shape)
        if kind == "metal":
            e = np.where(rng.random(e.shape) < 0.5, e + 0j, -8 + 1.2j)
        if kind == "uniform":
            e = np.full(e.shape, 2.1)
        default = rng.random() < 0.3
        a, p, s = (4.0, 4.0, 1.0) if default else (rng.uniform(0, 8), rng.uniform(0.5, 5), rng.uniform(0, 6))
        ctx.describe(shape=(nx, ny), lead=lead, w=(wx, wy), kind=kind, a=a, p=p, s=s, e=e)
        ctx.tag(kind=kind, w="both" if wx and wy else "x" if wx else "y" if wy else "none", default=default)
        prm = pml.PMLParams(num_x=wx, num_y=wy) if default else pml.PMLParams(num_x=wx, num_y=wy, a_max=a, p=p, sigma_max=s)
        eps, mu = pml.apply_uniaxial_pml(jnp.asarray(e), prm)
        eps, mu = [scene.np_(t) for t in eps], [scene.np_(t) for t in mu]
        ctx.true("shapes", len(eps) == 5 and len(mu) == 5 and all(t.shape == e.shape for t in eps + mu))
        ctx.true("off_diagonal_zero", not any(np.any(t) for t in (eps[1], eps[2], mu[1], mu[2])))
        ci = np.clip(np.arange(nx), wx, nx - wx - 1)
        cj = np.clip(np.arange(ny), wy, ny - wy - 1)
        ext = e[..., ci[:, None], cj[None, :]]
        for t, m in zip((eps[0], eps[3], eps[4]), (mu[0], mu[3], mu[4])):
            ctx.close("matched", t, ext * m, tol)
        ins = np.s_[..., wx : nx - wx, wy : ny - wy]
        for t, m in zip((eps[0], eps[3], eps[4]), (mu[0], mu[3], mu[4])):
            ctx.close("unchanged_inside", t[ins], e[ins], tol)
            ctx.close("unit_permeability_inside", m[ins], np.ones_like(e[ins]), tol)
        if wx == wy == 0:
            for t in (eps[0], eps[3], eps[4]):
                ctx.close("no_pml_identity", t, e, tol)
        # Stretch recovered from the permeability alone: sx^2 = myy mzz, sy^2 = mxx mzz, sz^2 = mxx myy.
        mx, my, mz = ([t[(0,) * len(lead)] for t in (mu[0], mu[3], mu[4])])
        ctx.close("determinant", mx * my, np.ones((nx, ny)), 10 * tol)
        sx, sy = root(my * mz), root(mx * mz)
        big = max(np.max(np.abs(sx)), np.max(np.abs(sy)), 1.0)
        ctx.expect("stretch_separable", max(np.max(np.abs(sx - sx[:, :1])), np.max(np.abs(sy - sy[:1]))), 20 * tol * big**2)
        sx, sy = sx[:, 0], sy[0]
        for st, n, w in ((sx, nx, wx), (sy, ny, wy)):
            ctx.expect("stretch_passive", max(np.max(1 - np.real(st)), np.max(-np.imag(st))), 20 * tol * big)
            d = np.maximum(np.maximum(w - np.arange(n), np.arange(n) - (n - w - 1)), 0) / max(w, 1)
            want = (1 + a * d**p) * (1 + 1j * s * np.sin(np.pi / 2 * d) ** 2)
            ctx.close("stretch_factors", st, want, 20 * tol)
            if w:
                ctx.close("stretch_symmetric", st, st[::-1], 20 * tol)
                ctx.close("stretch_strength", st[0], (1 + a) * (1 + 1j * s), 20 * tol)
                half = st[: w + 1][::-1]
                ctx.expect("stretch_monotone", max(np.max(-np.diff(half.real), initial=0), np.max(-np.diff(half.imag), initial=0)), 20 * tol * big)
                ctx.true("edge_extended", np.allclose(eps[4] / mu[4], ext, rtol=100 * tol, atol=0))
        if lead:
            i = tuple(int(rng.integers(d)) for d in lead)
            e1, m1 = pml.apply_uniaxial_pml(jnp.asarray(e[i]), prm)
            ctx.true("batch", all(np.allclose(scene.np_(x), y[i], rtol=100 * tol, atol=100 * tol) for x, y in zip(e1 + m1, eps + mu)))
        # Widths leaving no interior.
        bx, by = int(rng.integers((nx + 1) // 2, nx + 3)), int(rng.integers((ny + 1) // 2, ny + 3))
        for w in ((bx, wy), (wx, by), (bx, by)):
            ctx.raises("impossible_width", lambda w=w: pml.apply_uniaxial_pml(jnp.asarray(e), pml.PMLParams(num_x=w[0], num_y=w[1])),
                       widths=w, shape=(nx, ny))

    return run


def root(x):
    """Square root in the closed first quadrant's half plane (Re >= 0)."""
    r = np.sqrt(np.asarray(x, complex))
    return np.where(r.real < 0, -r, r)


PROFILES = {
    "x64": dict(fn=make(1e-12), quick=240, thorough=8000, split=5),
    "x32": dict(fn=make(2e-6), quick=100, thorough=3000, split=3, x64=False),
}
