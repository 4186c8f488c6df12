"""C13: internal current sources: jump conditions, continuity, outgoing waves, power, coefficients."""

import jax.numpy as jnp
import numpy as np

from fmmax import fields, scattering, sources
from vk import gen, ref, scene

RULE = (
    "Random stacks split at a random interface carrying random (also dirac and gaussian) in-plane and normal currents; fields "
    "on both sides of every interface are reconstructed from the returned amplitudes and compared with the jump conditions."
)
ASSUMPTIONS = [
    "the normal current is screened by the inverse zz permittivity of the layer before the source",
    "near-cutoff and ill-conditioned layers (by the reference model) are discarded",
]
REQUIRED = {
    "jump_h": 80, "jump_e": 80, "continuity": 80, "outgoing": 80, "linear": 80, "work": 25, "dirac": 80, "gaussian": 80,
    "six_amplitudes": 80, "fictitious": 30,
}


def _solve_source(pool, before, after, j):
    sb = scattering.stack_s_matrix(tuple(pool[i] for i, _ in before), tuple(jnp.asarray(d) for _, d in before))
    sa = scattering.stack_s_matrix(tuple(pool[i] for i, _ in after), tuple(jnp.asarray(d) for _, d in after))
    out = sources.amplitudes_for_source(*[jnp.asarray(x) for x in j], sb, sa)
    return [scene.np_(x) for x in out]


def run(ctx, rng, mode, tol=1e-7):
    x32 = mode == "x32"
    s = scene.setup(ctx, rng, n=int(rng.choice([3, 5])), max_order=1)
    n = len(s["G"])
    lossless = mode == "lossless"
    num = int(rng.integers(2, 6))
    layers = scene.random_layers(
        ctx, rng, num, (8, 9), lossless=lossless, ambient="uniform" if x32 else str(rng.choice(["uniform", "any"])),
        custom=0.0 if lossless or x32 else 0.3,
    )
    src = int(rng.integers(1, num))  # source between layers src-1 and src
    if rng.random() < 0.5:  # fictitious interface inside one material, as in typical use
        layers[src] = layers[src - 1]
        ctx.tag(same_material=True)
    thick = [min(scene.thickness(rng, s["wl"])[1], (0.5 if x32 else 1.5) * s["wl"]) for _ in layers]
    if x32:
        for l in layers:
            scene.check_layer(l, s, max_cond=50, min_q=0.2)
    res = scene.build_stack(ctx, rng, s, layers, thick, cond=not x32)
    ctx.describe(src=src)
    ctx.tag(before=src, after=num - src)
    # Currents.
    c = 4
    j = [scene.crandn(rng, n, c) for _ in range(3)]
    j[2][:, 0] = 0
    j[0][:, 1], j[1][:, 1] = 0, 0
    loc = rng.uniform(-1.5, 1.5, (c, 2))
    dd = scene.np_(sources.dirac_delta_source(jnp.asarray(loc), jnp.asarray(s["k0"]), s["lat"], s["exp"]))
    want_dd = np.exp(-1j * (s["K"] @ loc.T))
    ctx.close("dirac", dd, want_dd, 1e-4 if x32 else 1e-9)
    fw = float(rng.uniform(0.01, 1.0))
    gg = scene.np_(sources.gaussian_source(jnp.asarray(fw), jnp.asarray(loc), jnp.asarray(s["k0"]), s["lat"], s["exp"]))
    sig = fw / (2 * np.sqrt(2 * np.log(2)))
    ctx.close("gaussian", gg, want_dd * np.exp(-(sig**2) * np.sum(s["K"] ** 2, 1) / 2)[:, None], 1e-4 if x32 else 1e-9, scale=1.0)
    j[0][:, 2] = dd[:, 2] * scene.crandn(rng)
    j[2][:, 2] = gg[:, 2]
    x, y = scene.crandn(rng), scene.crandn(rng)
    for q in j:
        q[:, 3] = x * q[:, 0] + y * q[:, 2]
    pool = dict(enumerate(res))
    before = [(i, thick[i]) for i in range(src)]
    after = [(i, thick[i]) for i in range(src, num)]
    six = _solve_source(pool, before, after, j)
    b0, ab_, bb, aa, ba, aN = six
    ctx.finite("finite", *six)
    # Interior amplitudes of all layers.
    sib = scattering.stack_s_matrices_interior(tuple(res[:src]), tuple(jnp.asarray(t) for t in thick[:src]))
    sia = scattering.stack_s_matrices_interior(tuple(res[src:]), tuple(jnp.asarray(t) for t in thick[src:]))
    amps = fields.stack_amplitudes_interior_with_source(sib, sia, jnp.asarray(bb), jnp.asarray(aa))
    amps = [(scene.np_(p), scene.np_(q)) for p, q in amps]
    ctx.true("one_entry_per_layer", len(amps) == num)
    sc = max(np.max(np.abs(q)) for pq in amps for q in pq)
    for got, want in (
        (b0, amps[0][1]), (ab_, amps[src - 1][0]), (bb, amps[src - 1][1]),
        (aa, amps[src][0]), (ba, amps[src][1]), (aN, amps[-1][0]),
    ):
        ctx.close("six_amplitudes", got, want, tol, scale=sc)
    ctx.expect("outgoing", max(np.max(np.abs(amps[0][0])), np.max(np.abs(amps[-1][1]))) / sc, tol)
    # Fields at both ends of each layer.
    ends = []
    for r, d, (p, q) in zip(res, thick, amps):
        f, _, _ = scene.layer_fields_multi(r, p, q, [0.0, d], d)
        ends.append((f[:, 0], f[:, 1]))
    peak = np.max([np.max(np.abs(np.stack(e)), axis=(0, 1)) for e in ends], axis=0)
    # Very evanescent stacks: amplitudes far from the source are tiny; local scales.
    eta = ref.toeplitz(1 / np.asarray(layers[src - 1].eps5[4]), s["G"])
    kx, ky = s["K"][:, :1], s["K"][:, 1:]
    for i in range(num - 1):
        up, dn = ends[i][1], ends[i + 1][0]
        loc_s = np.maximum(np.max(np.abs(up), 0), np.max(np.abs(dn), 0))
        if i == src - 1:
            dE = np.concatenate([kx * (eta @ j[2]), ky * (eta @ j[2])]) / s["w"]
            dH = np.concatenate([j[1], -j[0]])
            ctx.expect("jump_e", np.max(np.abs(dn[: 2 * n] - up[: 2 * n] - dE) / loc_s), tol)
            ctx.expect("jump_h", np.max(np.abs(dn[2 * n :] - up[2 * n :] - dH) / loc_s), tol)
        else:
            ctx.expect("continuity", np.max(np.abs(dn - up) / np.maximum(loc_s, 1e-6 * peak)), tol, interface=i)
    # Linearity.
    st = np.concatenate([np.concatenate(pq) for pq in amps])
    ctx.close("linear", st[:, 3], x * st[:, 0] + y * st[:, 2], tol, scale=np.max(np.abs(st)))
    # Power balance.
    if lossless:
        up, dn = ends[src - 1][1], ends[src][0]
        em, hm = 0.5 * (up + dn)[: 2 * n], 0.5 * (up + dn)[2 * n :]
        ez = -eta @ (kx * hm[n:] - ky * hm[:n]) / s["w"]
        work = -np.real(np.sum(np.conj(j[0]) * em[:n] + np.conj(j[1]) * em[n:] + np.conj(j[2]) * ez, axis=0))
        net = scene.flux_rows(ends[-1][1]) - scene.flux_rows(ends[0][0])
        ctx.expect("work", np.max(np.abs(net - work) / np.max(peak) ** 2), tol)
    # Fictitious interfaces on either side away from the source do not change what leaves the stack.
    if not x32 and num >= 3:
        i = int(rng.integers(num))
        if i not in (0, num - 1):
            fr = float(rng.uniform(0, 1))
            parts = [(i, thick[i] * fr), (i, thick[i] * (1 - fr))]
            b2 = [p for q in before for p in (parts if q[0] == i else [q])]
            a2 = [p for q in after for p in (parts if q[0] == i else [q])]
            o2 = _solve_source(pool, b2, a2, j)
            ctx.close("fictitious", o2[0], b0, tol, scale=max(np.max(np.abs(b0)), 1e-6 * sc), side="before")
            ctx.close("fictitious", o2[5], aN, tol, scale=max(np.max(np.abs(aN)), 1e-6 * sc), side="after")


def coefficients(ctx, rng):
    """Source coefficients as Fourier integrals of a periodic Gaussian, batched wavevectors."""
    lk, u, v = gen.lattice(rng)
    G = gen.orders(rng, 9)
    ex, lat = gen.expansion(G), gen.lv(u, v)
    ks = rng.uniform(-4, 4, (2, 3, 2))
    loc = rng.uniform(-1, 1, (2, 2))
    # Narrow relative to the lattice vectors so that a dense sampling integrates it exactly.
    fw = float(rng.uniform(0.25, 0.6))
    ctx.describe(u=u, v=v, G=G, fw=fw, loc=loc)
    got = scene.np_(sources.gaussian_source(jnp.asarray(fw), jnp.asarray(loc), jnp.asarray(ks), lat, ex))
    ctx.true("coefficient_shape", got.shape == (2, 3, len(G), 2))
    m = 40
    A = np.array([u, v])
    i, jj = np.meshgrid(np.arange(m) / m, np.arange(m) / m, indexing="ij")
    sig = fw / (2 * np.sqrt(2 * np.log(2)))
    area = abs(np.linalg.det(A))
    R = 8 * sig
    ext = int(np.ceil(R / min(np.abs(np.linalg.det(A)) / np.linalg.norm(u), np.abs(np.linalg.det(A)) / np.linalg.norm(v)))) + 1
    s_, t_ = np.meshgrid(np.arange(-ext, ext + 1), np.arange(-ext, ext + 1), indexing="ij")
    f = np.stack([(i[..., None, None] + s_).ravel(), (jj[..., None, None] + t_).ravel()], -1)
    r = f @ A  # offsets from the source
    w = np.exp(-np.sum(r**2, -1) / (2 * sig**2)) / (2 * np.pi * sig**2) * area / (m * m)
    near = w > 1e-14
    r, w = r[near], w[near]
    for idx in [(0, 0), (1, 2)]:
        K = ref.kvecs(ks[idx], u, v, G)
        for q in range(2):
            want = np.exp(-1j * (K @ loc[q])) * (np.exp(-1j * (K @ r.T)) @ w)
            ctx.close("gaussian", got[idx][:, q], want, 1e-6, scale=1.0)
    dd = scene.np_(sources.dirac_delta_source(jnp.asarray(loc), jnp.asarray(ks), lat, ex))
    K = np.stack([[ref.kvecs(ks[a, b], u, v, G) for b in range(3)] for a in range(2)])
    ctx.close("dirac", dd, np.exp(-1j * (K @ loc.T)), 1e-9)


PROFILES = {
    "mixed": dict(fn=lambda c, r: run(c, r, "mixed"), quick=70, split=4),
    "lossless": dict(fn=lambda c, r: run(c, r, "lossless", 1e-6), quick=40, split=3),
    "x32": dict(fn=lambda c, r: run(c, r, "x32", 2e-2), quick=25, x64=False),
    "coefficients": dict(fn=coefficients, quick=40),
}
