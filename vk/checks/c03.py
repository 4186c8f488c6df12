"""C03: tangential continuity at every interface, prescribed and scattered amplitudes, linearity."""

import jax.numpy as jnp
import numpy as np

from fmmax import fields, scattering
from vk import gen, ref, scene

RULE = (
    "Random stacks of 1-6 layers (repeated, zero-thickness and very thick layers, vector formulations), random "
    "two-sided excitations; fields on both sides of each interface are reconstructed from the interior amplitudes."
)
ASSUMPTIONS = ["near-cutoff and ill-conditioned layers (by the reference model) are discarded"]
REQUIRED = {"continuity": 400, "first_forward": 100, "last_backward": 100, "first_backward": 100, "last_forward": 100, "linear": 100}


def _run(ctx, rng, s, layers, thick, res, tol):
    n2 = 2 * len(s["G"])
    num = len(layers)
    a0 = scene.crandn(rng, n2, 4)
    bN = scene.crandn(rng, n2, 4)
    bN[:, 1] = 0
    a0[:, 2] = 0
    x, y = scene.crandn(rng), scene.crandn(rng)
    a0[:, 3] = x * a0[:, 0] + y * a0[:, 1]
    bN[:, 3] = x * bN[:, 0] + y * bN[:, 1]
    si, amps = scene.interior(res, thick, a0, bN)
    ctx.true("one_entry_per_layer", len(amps) == num and len(si) == num)
    ends = []
    for r, d, (a, b) in zip(res, thick, amps):
        f, _, _ = scene.layer_fields_multi(r, a, b, [0.0, d], d)
        ends.append((f[:, 0, :], f[:, 1, :]))
        ctx.finite("finite", a, b, f)
    peak = np.max([np.max(np.abs(np.stack(e)), axis=(0, 1)) for e in ends], axis=0)
    for i in range(num - 1):
        up, dn = ends[i][1], ends[i + 1][0]
        for c in range(4):
            loc = max(np.max(np.abs(up[:, c])), np.max(np.abs(dn[:, c])), 1e-6 * peak[c])
            ctx.expect("continuity", np.max(np.abs(up[:, c] - dn[:, c])) / loc, tol, interface=i, column=c)
    sm = scene.stack_s(res, thick)
    s11, s12, s21, s22 = scene.sblocks(sm)
    sc = max(np.max(np.abs(a0)), np.max(np.abs(bN)))
    ctx.close("first_forward", amps[0][0], a0, tol, scale=sc)
    ctx.close("last_backward", amps[-1][1], bN, tol, scale=sc)
    b0 = s21 @ a0 + s22 @ bN
    aN = s11 @ a0 + s12 @ bN
    ctx.close("first_backward", amps[0][1], b0, tol, scale=max(np.max(np.abs(b0)), sc))
    ctx.close("last_forward", amps[-1][0], aN, tol, scale=max(np.max(np.abs(aN)), sc))
    for a, b in amps:
        m = np.concatenate([a, b])
        ctx.close("linear", m[:, 3], x * m[:, 0] + y * m[:, 1], tol, scale=np.max(np.abs(m)))
    # Single-layer entry point agrees with the stack entry point.
    i = int(rng.integers(num))
    a1, b1 = fields.amplitudes_interior(si[i][0], si[i][1], jnp.asarray(a0), jnp.asarray(bN))
    ctx.close("single_entry", np.concatenate([a1, b1]), np.concatenate(amps[i]), tol)
    # Before / after bookkeeping: substack 0..i and i..N.
    bef, aft = si[i]
    sb = scene.stack_s(res[: i + 1], thick[: i + 1])
    sa = scene.stack_s(res[i:], thick[i:])
    for name, got, want in (("before", bef, sb), ("after", aft, sa)):
        for g, w_ in zip(scene.sblocks(got), scene.sblocks(want)):
            ctx.close(f"substack_{name}", g, w_, tol * 10, scale=max(1.0, np.max(np.abs(w_))))


def mixed(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=2)
    num = int(rng.integers(1, 7))
    layers = scene.random_layers(
        ctx, rng, num, (12, 11), ambient=str(rng.choice(["uniform", "any"])), custom=0.4
    )
    if num > 2 and rng.random() < 0.3:  # repeated adjacent layers
        i = int(rng.integers(0, num - 1))
        layers[i + 1] = layers[i]
        ctx.tag(repeated=True)
    thick = [scene.thickness(rng, s["wl"])[1] for _ in layers]
    res = scene.build_stack(ctx, rng, s, layers, thick)
    _run(ctx, rng, s, layers, thick, res, 1e-7)


def repeats(ctx, rng):
    """Few solve results, each reused at several places of the stack with its own thickness there."""
    s = scene.setup(ctx, rng, n=int(rng.choice([1, 3, 5])), max_order=2)
    seq = str(rng.choice(["ABA", "ABBA", "ABCBA", "ABAB", "ABABA", "AAB", "BAA", "AA", "AAA", "ABCABC", "ABACA"]))
    names = sorted(set(seq))
    pool = [
        gen.uniform_iso(rng) if i == 0 or rng.random() < 0.3 else gen.any_layer(rng, (9, 10)) for i in range(len(names))
    ]
    same = bool(rng.random() < 0.7)  # the very same objects, or equal ones
    ctx.tag(sequence=seq, same=same)
    ctx.describe(sequence=seq)
    thick = [scene.thickness(rng, s["wl"])[1] for _ in seq]
    layers = [pool[names.index(c)] for c in seq]
    if same:
        solved = scene.build_stack(ctx, rng, s, pool, [0.0] * len(pool))
        ctx.describe(thick=thick)
        res = [solved[names.index(c)] for c in seq]
    else:
        res = scene.build_stack(ctx, rng, s, layers, thick)
    _run(ctx, rng, s, layers, thick, res, 1e-7)


def lossless(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=2)
    num = int(rng.integers(3, 6))
    layers = scene.random_layers(ctx, rng, num, (12, 11), lossless=True)
    thick = [min(scene.thickness(rng, s["wl"])[1], 2 * s["wl"]) for _ in layers]
    res = scene.build_stack(ctx, rng, s, layers, thick)
    _run(ctx, rng, s, layers, thick, res, 1e-6)


def generated(ctx, rng):
    """Expansions from generate_expansion, larger sizes, automatic vector fields sometimes."""
    from fmmax import basis

    lk, u, v = gen.lattice(rng)
    tr = basis.Truncation.CIRCULAR if rng.random() < 0.5 else basis.Truncation.PARALLELOGRAMIC
    ex = basis.generate_expansion(gen.lv(u, v), int(rng.integers(9, 28)), tr)
    G = np.asarray(ex.basis_coefficients)
    wl = float(rng.uniform(0.5, 1.6))
    w = 2 * np.pi / wl
    kk, k = gen.kvector(rng, u, v, w)
    ctx.describe(lattice=lk, u=u, v=v, G=G, wl=wl, k=k)
    ctx.tag(lattice=lk, truncation=tr.value)
    s = dict(u=u, v=v, G=G, wl=wl, w=w, k0=k, K=ref.kvecs(k, u, v, G), lat=gen.lv(u, v), exp=ex)
    m = 4 * int(np.max(np.abs(G))) + 1
    layers = scene.random_layers(ctx, rng, 3, (m, m), p_uniform=0.1)
    thick = [scene.thickness(rng, wl)[1] for _ in layers]
    res = scene.build_stack(ctx, rng, s, layers, thick)
    _run(ctx, rng, s, layers, thick, res, 1e-6)


def x32(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=1)
    num = int(rng.integers(2, 5))
    layers = scene.random_layers(ctx, rng, num, (12, 12), ambient="uniform")
    for l in layers:
        scene.check_layer(l, s, max_cond=100, min_q=0.15)
    thick = [min(scene.thickness(rng, s["wl"])[1], 1.0 * s["wl"]) for _ in layers]
    res = scene.build_stack(ctx, rng, s, layers, thick, cond=False)
    _run(ctx, rng, s, layers, thick, res, 2e-2)


PROFILES = {
    "mixed": dict(fn=mixed, quick=150, split=4),
    "repeats": dict(fn=repeats, quick=60, split=2),
    "lossless": dict(fn=lossless, quick=60, split=1),
    "generated": dict(fn=generated, quick=10, split=1, cost=4),
    "x32": dict(fn=x32, quick=50, x64=False),
}
