"""C19: rotated and shifted beams."""

import jax
import jax.numpy as jnp
import numpy as np

from fmmax import beams
from vk import gen, scene

RULE = (
    "Random angles over several turns (including multiples of 90 degrees), origins and coordinate arrays of zero to four axes; "
    "analytic electromagnetic fields (sums of plane waves) are reoriented and compared with the rotated field evaluated at "
    "independently mapped points, checked against Maxwell's equations."
)
ASSUMPTIONS = ["field functions are smooth and defined everywhere"]
REQUIRED = {
    "orthogonal": 200, "proper": 200, "z_axis": 200, "composition": 200, "polarization_axis": 200, "efield": 200, "hfield": 200,
    "direction": 60, "maxwell_preserved": 150, "identity": 20, "energy_preserved": 200, "composition_of_shifts": 100,
    "jit": 10,
}


def rz(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])


def ry(a):
    return np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])


def about(u, a):
    k = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * k @ k


def angle(rng):
    r = rng.random()
    if r < 0.25:
        return float(rng.integers(-6, 7)) * np.pi / 2
    if r < 0.4:
        return 0.0
    return float(rng.uniform(-7, 7))


def make(tol):
    def run(ctx, rng):
        al, az, po = angle(rng), angle(rng), angle(rng)
        if ctx.index % 10 == 9:
            al = az = po = 0.0
        o = rng.normal(size=3) * float(rng.choice([0, 1, 5]))
        nd = int(rng.integers(0, 5))
        sh = tuple(int(x) for x in rng.integers(1, 5, nd))
        r = rng.normal(size=sh + (3,)) * 2
        ctx.describe(polar=al, azimuth=az, pol=po, origin=o, shape=sh, r=r)
        ctx.tag(ndim=nd, origin="zero" if not np.any(o) else "shifted")
        cast = (lambda x: jnp.asarray(x)) if rng.random() < 0.7 else (lambda x: x)
        M = scene.np_(beams.rotation_matrix(cast(al), cast(az), cast(po))).astype(float)
        u = np.array([np.cos(az) * np.sin(al), np.sin(az) * np.sin(al), np.cos(al)])
        W = about(u, po) @ rz(az) @ ry(al)
        ctx.true("shape", M.shape == (3, 3))
        ctx.close("orthogonal", M @ M.T, np.eye(3), 10 * tol)
        ctx.expect("proper", abs(np.linalg.det(M) - 1), 10 * tol)
        ctx.close("z_axis", M @ np.array([0, 0, 1.0]), u, 10 * tol)
        ctx.close("composition", M, W, 10 * tol)
        # Polarization rotation is about the propagation axis: same as a rotation about z applied first.
        ctx.close("polarization_axis", M, rz(az) @ ry(al) @ rz(po), 10 * tol)
        # Electromagnetic field in vacuum (k0 = 1): sum of plane waves around +z.
        npw = int(rng.integers(1, 5))
        kk, ee = [], []
        for i in range(npw):
            d = rng.normal(size=3) * 0.3 + np.array([0, 0, 1.0])
            d = d / np.linalg.norm(d) if i or npw > 1 else np.array([0, 0, 1.0])
            e = np.cross(d, rng.normal(size=3) + 1j * rng.normal(size=3))
            kk.append(d)
            ee.append(e)
        kk, ee = np.array(kk), np.array(ee)
        hh = np.cross(kk, ee)
        def fn(x, y, z):
            ph = jnp.exp(1j * (x[..., None] * kk[:, 0] + y[..., None] * kk[:, 1] + z[..., None] * kk[:, 2]))
            return (
                tuple(jnp.sum(ph * ee[:, q], axis=-1) for q in range(3)),
                tuple(jnp.sum(ph * hh[:, q], axis=-1) for q in range(3)),
            )

        def call(rr, oo=o, a=(al, az, po)):
            E, H = beams.shifted_rotated_fields(
                fn, *(jnp.asarray(rr[..., q]) for q in range(3)), *(jnp.asarray(q) for q in oo), *(jnp.asarray(q) for q in a)
            )
            return np.stack([scene.np_(q) for q in E], -1), np.stack([scene.np_(q) for q in H], -1)

        E, H = call(r)
        back = (r - o) @ W  # rows: W^T (r - o)
        ph = np.exp(1j * back @ kk.T)
        we, wh = (ph @ ee) @ W.T, (ph @ hh) @ W.T
        sc = np.sum(np.linalg.norm(ee, axis=1))
        pt = tol * (10 + 10 * np.max(np.abs(back), initial=0) + 10 * np.max(np.abs(o)))
        ctx.close("efield", E, we, pt, scale=sc)
        ctx.close("hfield", H, wh, pt, scale=sc)
        ctx.close("energy_preserved", np.sum(np.abs(E) ** 2 + np.abs(H) ** 2, -1), np.sum(np.abs(ph @ ee) ** 2 + np.abs(ph @ hh) ** 2, -1), 2 * pt, scale=sc**2)
        if npw == 1:
            # A wave along z leaves along u: phase at o + d u advances by d, fields are transverse.
            E1, H1 = call(np.array([o, o + 0.7 * u, o - 1.9 * u]))
            ctx.close("direction", E1, np.exp(1j * np.array([0, 0.7, -1.9]))[:, None] * E1[:1], pt, scale=sc)
            ctx.close("direction", np.cross(u, E1), H1, pt, scale=sc)
        # curl E = i H by fitting the known plane waves of the rotated field.
        K = kk @ W.T
        pts = rng.normal(size=(4 * npw + 4, 3))
        Ep, Hp = call(pts + o)
        A = np.exp(1j * pts @ K.T)
        ce, *_ = np.linalg.lstsq(A, Ep, rcond=None)
        ctx.close("maxwell_preserved", A @ ce, Ep, 100 * pt, scale=sc)
        chh = np.cross(K, ce)
        ctx.close("maxwell_preserved", A @ chh, Hp, 1000 * pt * np.linalg.cond(A), scale=sc)
        if al == az == po == 0:
            ph = np.exp(1j * (r - o) @ kk.T)
            ctx.close("identity", E, ph @ ee, pt, scale=sc)
        # Moving the origin and the points together changes nothing.
        sft = rng.normal(size=3)
        E2, H2 = call(r + sft, o + sft)
        ctx.close("composition_of_shifts", E2, E, 4 * pt, scale=sc)
        ctx.close("composition_of_shifts", H2, H, 4 * pt, scale=sc)
        if ctx.index % 20 == 0:
            f = jax.jit(lambda x, y, z, a, b, c: beams.shifted_rotated_fields(fn, x, y, z, *(jnp.asarray(q) for q in o), a, b, c))
            Ej, Hj = f(*(jnp.asarray(r[..., q]) for q in range(3)), al, az, po)
            ctx.close("jit", np.stack(Ej, -1), E, pt, scale=sc)
            ctx.close("jit", np.stack(Hj, -1), H, pt, scale=sc)

    return run


PROFILES = {
    "x64": dict(fn=make(1e-12), quick=200, thorough=6000, split=5),
    "x32": dict(fn=make(5e-6), quick=80, thorough=2000, split=3, x64=False),
}
