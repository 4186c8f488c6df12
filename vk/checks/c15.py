"""C15: expansions, reciprocal lattices, wavevector sets, grids."""

import jax.numpy as jnp
import numpy as np

from fmmax import basis
from vk import gen, ref, scene
from vk.core import Discard

RULE = (
    "Random lattices (all orientations, handednesses, aspect ratios, shears, length units) with 1-500 requested terms; the "
    "generated orders are compared with an exhaustive enumeration of the truncation region, and every wavevector and "
    "coordinate set with direct linear algebra."
)
ASSUMPTIONS = [
    "lattice angle above 0.2 rad and aspect ratio below 12",
    "orders within 1e-5 (relative) of the truncation circle may be in or out as long as inversion closure holds",
]
REQUIRED = {
    "zeroth_first": 250, "no_duplicates": 250, "inversion_closed": 250, "sorted_by_magnitude": 250,
    "circle_complete": 80, "circle_tight": 80, "full_parallelogram": 80, "parallelogram_balanced": 80, "size_close": 250,
    "dual": 250, "double_reciprocal": 250, "transverse": 250, "brillouin_tiling": 250, "brillouin_batch": 60,
    "coordinates": 250, "plane_wave": 250, "min_shape": 250,
}


def lattice(rng):
    r = rng.random()
    if r < 0.5:
        lk, u, v = gen.lattice(rng)
    elif r < 0.75:  # very elongated or very oblique cells
        a, th, asp = rng.uniform(0, 2 * np.pi), rng.uniform(0.25, np.pi - 0.25), 10 ** rng.uniform(-1, 1)
        u = np.array([np.cos(a), np.sin(a)])
        v = asp * np.array([np.cos(a + th), np.sin(a + th)]) * rng.choice([-1, 1])
        lk = "extreme"
    else:  # sheared (non-reduced) description of a lattice
        lk, u, v = gen.lattice(rng, str(rng.choice(["square", "hex", "rect", "rotated"])))
        m = int(rng.integers(1, 4)) * int(rng.choice([-1, 1]))
        if rng.random() < 0.5:
            v = v + m * u
        else:
            u = u + m * v
        lk = "sheared"
    unit = float(rng.choice([1.0, 1.0, 1e-6, 1e3, 7.3e-9]))
    return lk, u * unit, v * unit, unit


def make(tol):
    def run(ctx, rng):
        lk, u, v, unit = lattice(rng)
        lat = gen.lv(u, v)
        num = int(rng.choice([1, 2, 3, int(rng.integers(4, 30)), int(rng.integers(30, 120)), int(rng.integers(120, 500))]))
        circ = ctx.index % 2 == 0
        ctx.describe(lattice=lk, u=u, v=v, num=num, circular=circ)
        ctx.tag(lattice=lk, circular=circ, unit=unit, num="1-3" if num < 4 else "4-29" if num < 30 else "30-119" if num < 120 else "120+")
        tr = basis.Truncation.CIRCULAR if circ else basis.Truncation.PARALLELOGRAMIC
        ex = basis.generate_expansion(lat, num, tr)
        G = np.asarray(ex.basis_coefficients)
        b = ref.recip(u, v)
        K = G @ b
        mag = np.linalg.norm(K, axis=1)
        scale = np.max(np.linalg.norm(b, axis=1))
        ctx.true("zeroth_first", G.shape == (ex.num_terms, 2) and np.all(G[0] == 0) and np.issubdtype(G.dtype, np.integer))
        S = {tuple(g) for g in G.tolist()}
        ctx.true("no_duplicates", len(S) == len(G))
        ctx.true("inversion_closed", S == {(-x, -y) for x, y in S})
        ctx.true("sorted_by_magnitude", len(G) < 2 or np.all(np.diff(mag) >= -10 * tol * max(scale, mag.max())))
        area = abs(np.linalg.det(b))
        if circ:
            R = np.sqrt(num * area / np.pi)
            # All lattice points within R: coefficients bounded by |K||u|/(2 pi).
            n1 = int(1.01 * R * np.linalg.norm(u) / (2 * np.pi)) + 2
            n2 = int(1.01 * R * np.linalg.norm(v) / (2 * np.pi)) + 2
            gi, gj = np.meshgrid(np.arange(-n1, n1 + 1), np.arange(-n2, n2 + 1), indexing="ij")
            A = np.stack([gi.ravel(), gj.ravel()], -1)
            m = np.linalg.norm(A @ b, axis=1)
            inside = {tuple(x) for x in A[m < R * (1 - 20 * tol)].tolist()}
            maybe = {tuple(x) for x in A[m < R * (1 + 20 * tol)].tolist()}
            ctx.true("circle_complete", inside <= S, missing=list(inside - S)[:4])
            ctx.true("circle_tight", S <= maybe, extra=list(S - maybe)[:4])
            # Every point owns one Voronoi cell, whose circumradius is at most half the reduced diagonal.
            D = 0.5 * (np.linalg.norm(reduce(b)[0]) + np.linalg.norm(reduce(b)[1]))
            lim = np.pi * ((R + D) ** 2 - R**2) / area
            ctx.true("size_close", abs(len(G) - num) <= lim + 1, n=len(G), lim=lim)
        else:
            nu, nv = np.max(np.abs(G[:, 0])), np.max(np.abs(G[:, 1]))
            ctx.true("full_parallelogram", len(G) == (2 * nu + 1) * (2 * nv + 1) and
                     S == {(i, j) for i in range(-nu, nu + 1) for j in range(-nv, nv + 1)})
            ku, kv = np.linalg.norm(b, axis=1)
            ctx.true("parallelogram_balanced", abs(nu * ku - nv * kv) <= 0.5 * (ku + kv) * (1 + 1e-4), nu=nu, nv=nv)
            ctx.true("size_close", abs(len(G) - num) <= (2 * nu + 2) + (2 * nv + 2) + 1, n=len(G))
        # Reciprocal vectors.
        r = lat.reciprocal
        rm = np.array([scene.np_(r.u), scene.np_(r.v)], float)
        ctx.close("dual", rm @ np.array([u, v]).T, np.eye(2), 20 * tol * cond(u, v))
        rr = r.reciprocal
        ctx.close("double_reciprocal", np.array([scene.np_(rr.u), scene.np_(rr.v)]), np.array([u, v]), 40 * tol * cond(u, v))
        # Transverse wavevectors, batched over lattice and wavevector.
        nb = int(rng.integers(0, 3))
        bs = tuple(int(x) for x in rng.integers(1, 4, nb))
        k = rng.normal(size=bs + (2,)) * scale
        rot = rng.uniform(0, 6.28, bs)
        R_ = np.stack([np.stack([np.cos(rot), -np.sin(rot)], -1), np.stack([np.sin(rot), np.cos(rot)], -1)], -2)
        ub, vb = (R_ @ u[:, None])[..., 0], (R_ @ v[:, None])[..., 0]
        if rng.random() < 0.5:
            ub, vb = u, v
        kt = scene.np_(basis.transverse_wavevectors(jnp.asarray(k), gen.lv(ub, vb), ex))
        want = np.empty(bs + (len(G), 2))
        for i in np.ndindex(*bs):
            uu, vv = (ub[i], vb[i]) if np.ndim(ub) > 1 else (ub, vb)
            want[i] = ref.kvecs(k[i], uu, vv, G)
        ctx.close("transverse", kt, want, 40 * tol * cond(u, v))
        # Brillouin grid.
        B = (int(rng.integers(1, 12)), int(rng.integers(1, 12)))
        kb = scene.np_(basis.brillouin_zone_in_plane_wavevector(B, lat))
        i, j = np.meshgrid((np.arange(B[0]) + 0.5) / B[0] - 0.5, (np.arange(B[1]) + 0.5) / B[1] - 0.5, indexing="ij")
        ctx.close("brillouin_tiling", kb, np.stack([i, j], -1) @ b, 40 * tol * cond(u, v), floor=scale)
        if np.ndim(ub) > 1:
            kb = scene.np_(basis.brillouin_zone_in_plane_wavevector(B, gen.lv(ub, vb)))
            w = np.empty(bs + B + (2,))
            for q in np.ndindex(*bs):
                w[q] = np.stack([i, j], -1) @ ref.recip(ub[q], vb[q])
            ctx.close("brillouin_batch", kb, w, 40 * tol * cond(u, v), floor=scale)
        # Unit cell coordinates.
        shape = (int(rng.integers(1, 14)), int(rng.integers(1, 14)))
        cells = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        x, y = basis.unit_cell_coordinates(gen.lv(ub, vb), shape, cells)
        p, q = np.meshgrid(np.arange(shape[0] * cells[0]) / shape[0], np.arange(shape[1] * cells[1]) / shape[1], indexing="ij")
        U, V = ub[..., None, None, :], vb[..., None, None, :]
        want = p[..., None] * U + q[..., None] * V
        ctx.close("coordinates", np.stack([scene.np_(x), scene.np_(y)], -1), want, 20 * tol, floor=np.linalg.norm(u))
        # Plane wave.
        wl = unit * rng.uniform(0.3, 2, size=(2, 1))
        th, ph = rng.uniform(-1.5, 1.5, size=3), rng.uniform(-7, 7, size=3)
        e = rng.uniform(1, 9) + (1j * rng.uniform(0, 1) if rng.random() < 0.3 else 0)
        kp = scene.np_(basis.plane_wave_in_plane_wavevector(jnp.asarray(wl), jnp.asarray(th), jnp.asarray(ph), jnp.asarray(e)))
        m = np.sqrt(np.real(e)) * 2 * np.pi / wl * np.sin(th)
        ctx.close("plane_wave", kp, np.stack([m * np.cos(ph), m * np.sin(ph)], -1), 20 * tol)
        from fmmax import fft

        ms = fft.min_array_shape_for_expansion(ex)
        ctx.true("min_shape", tuple(ms) == (2 * np.abs(G[:, 0]).max() + 1, 2 * np.abs(G[:, 1]).max() + 1), got=ms)

    return run


def cond(u, v):
    """Conditioning of the lattice matrix (element rounding is amplified by it)."""
    a = np.array([u, v])
    return float(np.linalg.cond(a)) ** 1.0 + 1.0


def reduce(b):
    """Gauss reduction of a 2D basis."""
    a, c = np.array(b[0]), np.array(b[1])
    for _ in range(100):
        if np.linalg.norm(a) > np.linalg.norm(c):
            a, c = c, a
        m = np.rint(a @ c / (a @ a))
        if m == 0:
            break
        c = c - m * a
    return a, c


PROFILES = {
    "x64": dict(fn=make(1e-13), quick=400, thorough=12000, split=4),
    "x32": dict(fn=make(5e-7), quick=200, thorough=6000, split=4, x64=False),
}
