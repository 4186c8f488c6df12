"""C06: Lorentz reciprocity of symmetric-tensor stacks, monitored through every depth."""

import numpy as np

from vk import gen, ref, scene

RULE = (
    "Random stacks of layers with symmetric (also lossy, metallic, magnetic) tensors are solved at k and at -k; the "
    "Lorentz bilinear form of the two solutions, excited from independent sides, is evaluated at several depths of every layer."
)
ASSUMPTIONS = [
    "expansions closed under inversion; FFT formulation",
    "near-cutoff and ill-conditioned layers (by the reference model) are discarded",
]
REQUIRED = {"lorentz": 700, "lorentz_ends": 80, "order_pairs": 35}


def _neg(G):
    idx = {tuple(g): i for i, g in enumerate(np.asarray(G).tolist())}
    return np.array([idx[(-a, -b)] for a, b in np.asarray(G).tolist()])


def lorentz(f1, f2, perm):
    """All pairs: f1 (4N, c1), f2 (4N, c2) -> (c1, c2)."""
    n = f1.shape[0] // 4
    e1x, e1y, h1x, h1y = (f1[i * n : (i + 1) * n] for i in range(4))
    e2x, e2y, h2x, h2y = (f2[i * n : (i + 1) * n][perm] for i in range(4))
    t = lambda a, b: a.T @ b
    return t(e1x, h2y) - t(e1y, h2x) - t(h1y, e2x) + t(h1x, e2y)


def _run(ctx, rng, s, layers, thick, tol):
    n = len(s["G"])
    s2 = dict(s, k0=-s["k0"], K=ref.kvecs(-s["k0"], s["u"], s["v"], s["G"]))
    r1 = scene.build_stack(ctx, rng, s, layers, thick)
    r2 = [scene.solve(l, s2) for l in layers]
    perm = _neg(s["G"])

    def exc(side):
        a = np.zeros((2 * n, 3), complex)
        b = np.zeros((2 * n, 3), complex)
        x = scene.crandn(rng, 2 * n, 3)
        if side in ("left", "both"):
            a = x
        if side in ("right", "both"):
            b = scene.crandn(rng, 2 * n, 3)
        return a, b

    sides = [("left", "right"), ("left", "left"), ("right", "right"), ("both", "both")][int(rng.integers(4))]
    ctx.tag(sides="-".join(sides))
    (a1, b1), (a2, b2) = exc(sides[0]), exc(sides[1])
    _, am1 = scene.interior(r1, thick, a1, b1)
    _, am2 = scene.interior(r2, thick, a2, b2)
    vals, scales, where = [], [], []
    for i, (x1, x2, d) in enumerate(zip(r1, r2, thick)):
        zs = [0.0, 0.37 * d, d]
        f1, _, _ = scene.layer_fields_multi(x1, *am1[i], zs, d)
        f2, _, _ = scene.layer_fields_multi(x2, *am2[i], zs, d)
        for j in range(3):
            vals.append(lorentz(f1[:, j], f2[:, j], perm))
            n1 = np.linalg.norm(f1[:, j], axis=0)
            n2 = np.linalg.norm(f2[:, j], axis=0)
            scales.append(np.outer(n1, n2))
            where.append((i, j))
    scale = np.max(scales, axis=0)
    ref_val = vals[0]
    for v, w_ in zip(vals, where):
        ctx.expect("lorentz", np.max(np.abs(v - ref_val) / scale), tol, layer=w_[0], depth=w_[1])
    ctx.expect("lorentz_ends", np.max(np.abs(vals[-1] - ref_val) / np.maximum(scales[0], scales[-1])), tol)
    return r1, r2, perm


def _pairs(ctx, rng, s, r1, r2, thick, perm, tol):
    """Every (incoming order, outgoing order) pair in uniform ambients, in Fourier amplitudes."""
    n = len(s["G"])
    S1 = scene.field_s(scene.stack_s(r1, thick))
    S2 = scene.field_s(scene.stack_s(r2, thick))

    def imp(r):  # E = Z H for forward modes, blocks (ex, ey) from (hx, hy)
        F = scene.conversion(r)
        return F[: 2 * n, : 2 * n] @ np.linalg.inv(F[2 * n :, : 2 * n])

    Z0, ZN = imp(r1[0]), imp(r1[-1])
    P = np.zeros((n, n))
    P[np.arange(n), perm] = 1  # (P f)_G = f_{-G}
    z = np.zeros((n, n))
    # L(forward h, backward g) = h^T M g with M built from the impedances of both solutions
    Z02, ZN2 = imp(r2[0]), imp(r2[-1])
    J = np.block([[z, P], [-P, z]])  # e1x h2y - e1y h2x

    def M(Za, Zb):
        # Wave 1 forward (E1 = Za h), wave 2 backward (E2 = -Zb g): E1 x H2 - E2 x H1.
        K = np.block([[z, -P], [P, z]])
        return Za.T @ J + K @ Zb

    # wave 1 from the left (transmits with s11), wave 2 from the right (transmits with s22)
    left = M(Z0, Z02) @ S2[3]  # h_in^T ... s22 g_in, at the left end (phases included in S)
    right = S1[0].T @ M(ZN, ZN2)
    # The first layer's forward amplitude is at its start while the backward one is at its end and
    # conversely at the last layer; evaluate with zero-thickness ambients only.
    sc = max(np.max(np.abs(left)), np.max(np.abs(right)), 1e-12)
    ctx.expect("order_pairs", np.max(np.abs(left - right)) / sc, tol)


def symmetric(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=2)
    num = int(rng.integers(2, 6))
    layers = scene.random_layers(ctx, rng, num, (10, 9), reciprocal=True, ambient=str(rng.choice(["uniform", "any"])))
    for l in layers:
        if rng.random() < 0.4 and l.api != "iso":  # absorbing off-diagonals as well
            o = l.eps[1] * (1 + 0.3j)
            l.eps = [l.eps[0] + 0.5j, o, o, l.eps[3] + 0.4j, l.eps[4] + 0.2j]
            ctx.tag(complex_symmetric=True)
    thick = [min(scene.thickness(rng, s["wl"])[1], 2 * s["wl"]) for _ in layers]
    _run(ctx, rng, s, layers, thick, 1e-8)


def pairs(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=2)
    num = int(rng.integers(3, 5))
    layers = scene.random_layers(ctx, rng, num, (10, 9), reciprocal=True, ambient="uniform")
    thick = [0.0] + [min(scene.thickness(rng, s["wl"])[1], 0.7 * s["wl"]) for _ in layers[1:-1]] + [0.0]
    r1, r2, perm = _run(ctx, rng, s, layers, thick, 1e-8)
    _pairs(ctx, rng, s, r1, r2, thick, perm, 1e-8)


def x32(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=1)
    layers = scene.random_layers(ctx, rng, 3, (10, 10), reciprocal=True, ambient="uniform")
    for l in layers:
        scene.check_layer(l, s, max_cond=100, min_q=0.15)
    thick = [min(scene.thickness(rng, s["wl"])[1], 0.7 * s["wl"]) for _ in layers]
    _run(ctx, rng, s, layers, thick, 1e-2)


PROFILES = {
    "symmetric": dict(fn=symmetric, quick=60, split=4),
    "pairs": dict(fn=pairs, quick=60, split=3),
    "x32": dict(fn=x32, quick=25, x64=False),
}
