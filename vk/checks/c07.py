"""C07: covariance under scaling, translation, rotation, mirrors, lattice basis changes and supercells."""

import numpy as np

from vk import gen, ref, scene

RULE = (
    "Random stacks are solved together with a transformed twin (scaled, translated, rotated, mirrored, relabelled lattice "
    "axes, sheared lattice basis, supercell, reversed); scattering blocks in Fourier-amplitude form are compared after "
    "undoing the transformation."
)
ASSUMPTIONS = [
    "mirror covariance of the complex Jones formulations is not claimed",
    "near-cutoff and ill-conditioned layers (by the reference model) are discarded",
]
REQUIRED = {
    "scaling": 60, "translation": 40, "rotation": 60, "mirror": 60, "swap": 40, "shear": 40, "supercell": 40, "reversal": 40,
}


def _fs(s, layers, thick, res=None):
    res = res or [scene.solve(l, s) for l in layers]
    return scene.field_s(scene.stack_s(res, thick)), res


def _with(s, u=None, v=None, k=None, wl=None, G=None):
    u = s["u"] if u is None else u
    v = s["v"] if v is None else v
    k = s["k0"] if k is None else k
    wl = s["wl"] if wl is None else wl
    G = s["G"] if G is None else G
    return dict(u=u, v=v, G=G, wl=wl, w=2 * np.pi / wl, k0=k, K=ref.kvecs(k, u, v, G), lat=gen.lv(u, v), exp=gen.expansion(G))


def _map(l, fa=None, tens=None, tf=None):
    """New layer with arrays mapped by fa, in-plane tensors by the 2x2 orthogonal matrix tens."""
    import dataclasses

    fa = fa or (lambda a: a)

    def t5(t):
        t = [np.asarray(a) for a in t]
        if tens is not None:
            e = np.stack([np.stack([t[0] + 0j * t[1], t[1] + 0j * t[0]]), np.stack([t[2] + 0j * t[0], t[3] + 0j * t[0]])])
            r = np.einsum("ab,bcij,dc->adij", tens, e, tens)
            if not any(np.iscomplexobj(a) for a in t):
                r = r.real
            t = [r[0, 0], r[0, 1], r[1, 0], r[1, 1], t[4]]
        return [fa(a) if a.shape != (1, 1) else a for a in t]

    eps = [fa(l.eps[0]) if l.eps[0].shape != (1, 1) else l.eps[0]] if l.api == "iso" else t5(l.eps)
    mu = t5(l.mu)
    n = dataclasses.replace(l, eps=eps, mu=mu)
    if l.tfield is not None:
        tx, ty = l.tfield
        if tens is not None:
            tx, ty = tens[0, 0] * tx + tens[0, 1] * ty, tens[1, 0] * tx + tens[1, 1] * ty
        n.tfield = (fa(tx), fa(ty))
        n.formulation = gen.custom_vector_fn(*n.tfield)
    return n


def _cmp(ctx, name, got, want, tol, **kw):
    for g, w_, b in zip(got, want, ("s11", "s12", "s21", "s22")):
        ctx.close(name, g, w_, tol, scale=max(np.max(np.abs(w_)), 1e-2), block=b, **kw)


def _two(m, n):
    """2x2 polarization matrix acting on stacked (hx, hy) with N orders each."""
    return np.kron(m, np.eye(n))


def _rot(a):
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


M_Y = np.diag([1.0, -1.0])


def _transform(ctx, rng, kind, s, layers, thick, S, tol, shape):
    n = len(s["G"])
    if kind == "scaling":
        al = float(10 ** rng.uniform(-2, 2)) if rng.random() < 0.5 else float(10 ** rng.uniform(-9, 9))
        s2 = _with(s, al * s["u"], al * s["v"], s["k0"] / al, s["wl"] * al)
        got, _ = _fs(s2, layers, [t * al for t in thick])
        want = S
        ctx.describe(alpha=al)
    elif kind == "translation":
        a, b = int(rng.integers(shape[0])), int(rng.integers(shape[1]))
        l2 = [_map(l, lambda x: np.roll(x, (a, b), (-2, -1))) for l in layers]
        got, _ = _fs(s, l2, thick)
        p = np.exp(-2j * np.pi * (s["G"] @ np.array([a / shape[0], b / shape[1]])))
        p = np.concatenate([p, p])
        want = [p[:, None] * x / p[None, :] for x in S]
        ctx.describe(shift=(a, b))
    elif kind == "rotation":
        a = float(rng.choice([np.pi / 2, np.pi, rng.uniform(0, 2 * np.pi), rng.uniform(0, 2 * np.pi)]))
        R = _rot(a)
        s2 = _with(s, R @ s["u"], R @ s["v"], R @ s["k0"])
        got, _ = _fs(s2, [_map(l, tens=R) for l in layers], thick)
        W = _two(R, n)
        want = [W @ x @ W.T for x in S]
        ctx.describe(angle=a)
    elif kind == "mirror":
        a = float(rng.uniform(0, np.pi)) if rng.random() < 0.5 else 0.0
        R = _rot(a) @ M_Y @ _rot(-a)
        s2 = _with(s, R @ s["u"], R @ s["v"], R @ s["k0"])
        got, _ = _fs(s2, [_map(l, tens=R) for l in layers], thick)
        W = _two(R, n)  # H is a pseudovector; the overall sign cancels
        want = [W @ x @ W.T for x in S]
        ctx.describe(axis=a)
    elif kind == "swap":
        s2 = _with(s, s["v"], s["u"], G=s["G"][:, ::-1])
        got, _ = _fs(s2, [_map(l, lambda x: np.swapaxes(x, -1, -2)) for l in layers], thick)
        want = S
    elif kind == "negate":  # u -> -u : same lattice, pattern and orders flipped along u
        s2 = _with(s, -s["u"], s["v"], G=s["G"] * np.array([-1, 1]))
        got, _ = _fs(s2, [_map(l, lambda x: np.roll(x[::-1], 1, 0)) for l in layers], thick)
        want = S
    elif kind == "shear":
        m = int(rng.choice([-1, 1]))
        i, j = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
        s2 = _with(s, s["u"], s["v"] + m * s["u"], G=np.stack([s["G"][:, 0], m * s["G"][:, 0] + s["G"][:, 1]], -1))
        got, _ = _fs(s2, [_map(l, lambda x: x[(i + m * j) % shape[0], j]) for l in layers], thick)
        want = S
    elif kind == "reversal":
        got, _ = _fs(s, layers[::-1], thick[::-1])
        want = [S[3], S[2], S[1], S[0]]
    else:
        raise ValueError(kind)
    _cmp(ctx, kind, got, want, tol)


def generic(ctx, rng, kinds, tol=1e-7, custom=0.4):
    kind = kinds[ctx.index % len(kinds)]
    s = scene.setup(ctx, rng, n=5, max_order=1)
    shape = (10, 10) if kind == "shear" else (9, 12)
    num = int(rng.integers(3, 5))
    layers = scene.random_layers(ctx, rng, num, shape, ambient="uniform", custom=custom, p_uniform=0.2)
    thick = [min(scene.thickness(rng, s["wl"])[1], s["wl"]) for _ in layers]
    ctx.tag(kind=kind)
    for i, l in enumerate(layers):
        if l.tfield is not None and kind in ("rotation", "mirror") and l.api != "iso":
            # Where the tangent field vanishes a fixed direction is used for tensors: no zeros here.
            tk, tx, ty = gen.custom_tfield(rng, l.shape, str(rng.choice(["real", "jones", "constant", "scaled"])))
            l.tfield, l.formulation = (tx, ty), gen.custom_vector_fn(tx, ty)
    res = scene.build_stack(ctx, rng, s, layers, thick)
    S, _ = _fs(s, layers, thick, res)
    _transform(ctx, rng, kind, s, layers, thick, S, tol, shape)


def geometric(ctx, rng):
    generic(ctx, rng, ["scaling", "rotation", "mirror"])


def lattice_views(ctx, rng):
    generic(ctx, rng, ["translation", "swap", "negate", "shear", "reversal"])


def supercell(ctx, rng):
    s = scene.setup(ctx, rng, n=3, max_order=1)
    shape = (6, 7)
    layers = scene.random_layers(ctx, rng, 3, shape, ambient="uniform", custom=0.3, p_uniform=0.1)
    thick = [min(scene.thickness(rng, s["wl"])[1], s["wl"]) for _ in layers]
    mx, my = [(2, 1), (1, 2), (3, 1), (1, 3)][int(rng.integers(4))]
    ctx.describe(super=(mx, my))
    ctx.tag(super=(mx, my))
    offs = [(a, b) for a in range(mx) for b in range(my)]
    m = np.array([mx, my])
    Gs = np.concatenate([s["G"] * m + np.array(o) for o in offs])
    order = np.concatenate([[0], 1 + rng.permutation(len(Gs) - 1)])
    ss = _with(s, s["u"] * mx, s["v"] * my, G=Gs[order])
    l2 = [_map(l, lambda x: np.tile(x, (mx, my))) for l in layers]
    for l in l2:
        scene.check_layer(l, ss, l.tfield)
    res = scene.build_stack(ctx, rng, s, layers, thick)
    got, _ = _fs(ss, l2, thick)
    n, N = len(s["G"]), len(Gs)
    pos = np.argsort(order)  # position of original index i
    b = ref.recip(ss["u"], ss["v"])
    for oi, o in enumerate(offs):
        k = s["k0"] + np.array(o) @ b
        so = _with(s, k=k)
        want, _ = _fs(so, layers, thick, res if oi == 0 else None)
        ix = pos[oi * n : (oi + 1) * n]
        ix = np.concatenate([ix, N + ix])
        rest = np.setdiff1d(np.arange(2 * N), ix)
        _cmp(ctx, "supercell", [g[np.ix_(ix, ix)] for g in got], want, 1e-7, offset=o)
        for g in got:
            ctx.expect("supercell_uncoupled", np.max(np.abs(g[np.ix_(rest, ix)])), 1e-7)


AUTO_G = np.array([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1]])


def auto(ctx, rng):
    """Automatic vector formulations: scaling, rotation, mirror, swap, reversal."""
    lk, u, v = gen.lattice(rng)
    wl = float(rng.uniform(0.5, 1.6))
    w = 2 * np.pi / wl
    kk, k = gen.kvector(rng, u, v, w)
    s = _with(dict(G=AUTO_G), u, v, k, wl, AUTO_G)
    f = gen.VECTOR_FORMULATIONS[ctx.index % 8]
    jones = "JONES" in f.name
    kind = (["scaling", "rotation"] if jones else ["rotation", "scaling", "mirror", "swap"])[int(rng.integers(2 if jones else 4))]
    shape = (12, 12)
    # Content in the retained orders along both axes: the automatic fields of patterns which look uniform or
    # one-dimensional in the truncated basis fall back to a fixed direction.
    lo, hi = rng.uniform(1, 2), rng.uniform(3, 8) + (1j * rng.uniform(0, 2) if rng.random() < 0.5 else 0)
    mid = gen.Layer("patterned", "iso", [lo + (hi - lo) * gen.rich_density(rng, shape) + 0j], gen.unit_mu(shape), f)
    layers = [gen.uniform_iso(rng), mid, gen.uniform_iso(rng)]
    thick = [0.0, float(rng.uniform(0.05, 0.5)), 0.0]
    ctx.describe(lattice=lk, u=u, v=v, k=k, wl=wl, layers=[l.describe() for l in layers], thick=thick, kind=kind)
    ctx.tag(auto=f.name, kind=kind)
    for l in layers:
        scene.check_layer(l, s)
    S, _ = _fs(s, layers, thick)
    _transform(ctx, rng, kind, s, layers, thick, S, 1e-4, shape)


PROFILES = {
    "geometric": dict(fn=geometric, quick=90, split=3),
    "lattice_views": dict(fn=lattice_views, quick=110, split=3),
    "supercell": dict(fn=supercell, quick=12, split=1, cost=4),
    "auto": dict(fn=auto, quick=16, split=2, cost=6),
}
