"""C01: layer fields satisfy Maxwell's equations in the truncated basis."""

import jax.numpy as jnp
import numpy as np
import scipy.linalg

from fmmax import fields
from vk import gen, ref, scene
from vk.core import Discard

RULE = (
    "Random layer (material class, pattern, lattice, orders, wavevector, wavelength, formulation), "
    "random complex wave amplitudes; fields are reconstructed by the library at several depths and "
    "compared with the matrix exponential of an independently assembled Maxwell generator."
)
ASSUMPTIONS = [
    "scenarios with a mode within 3% of cutoff or with eigenvector condition > 1e6 (by the reference) are discarded",
]
REQUIRED = {"maxwell": 300, "ez": 300, "hz": 300, "modes_complete": 100, "custom_source": 20}


def _run(ctx, rng, layer, s, tfield=None, tol=1e-8, auto=False):
    ctx.describe(layer=layer.describe())
    ctx.tag(material=layer.kind.split(":")[0], formulation=layer.fname())
    n = len(s["G"])
    if not auto:
        X, q, V = scene.check_layer(layer, s, tfield)
    r = scene.solve(layer, s)
    if auto:
        tf = r.tangent_vector_field
        if not ctx.true("tangent_reported", tf is not None):
            return
        tfield = tuple(np.asarray(t) for t in tf)
        if not ctx.finite("tangent_finite", *tfield):
            return
        ctx.close("tangent_shape", np.zeros(tfield[0].shape), np.zeros(layer.shape), 1.0)
        X, q, V = scene.check_layer(layer, s, tfield)
    qmax = np.max(np.abs(q))
    d = float(rng.uniform(0.2, 1.0)) * 4.0 / qmax
    # Amplitudes: random combinations plus some single modes.
    m = 2 * n
    a = scene.crandn(rng, m, 4)
    b = scene.crandn(rng, m, 4)
    i = int(rng.integers(m))
    a[:, 1] = 0
    a[i, 1] = 1
    b[:, 1] = 0
    a[:, 2] = 0
    b[:, 2] = 0
    b[i, 2] = 1
    zs = [0.0, float(rng.uniform(0, d)), d]
    fs = []
    for z in zs:
        az, bz = fields.colocate_amplitudes(
            jnp.asarray(a), jnp.asarray(b), z_offset=jnp.asarray(z), layer_solve_result=r, layer_thickness=jnp.asarray(d)
        )
        ef, hf = scene.fields_at(r, az, bz)
        f = np.concatenate([ef[0], ef[1], hf[0], hf[1]], axis=0)
        fs.append(f)
        K = s["K"]
        kx, ky = K[:, :1], K[:, 1:]
        ez = -ref.toeplitz(1 / layer.eps5[4], s["G"]) @ (kx * hf[1] - ky * hf[0]) / s["w"]
        hz = ref.toeplitz(1 / layer.mu[4], s["G"]) @ (kx * ef[1] - ky * ef[0]) / s["w"]
        sc = np.max(np.abs(f))
        ctx.close("ez", ef[2], ez, tol, scale=max(sc, np.max(np.abs(ez))))
        ctx.close("hz", hf[2], hz, tol, scale=max(sc, np.max(np.abs(hz))))
    for j in (1, 2):
        P = scipy.linalg.expm(X * (zs[j] - zs[0]))
        want = P @ fs[0]
        for c in range(4):
            # Error allowed relative to the largest intermediate magnitude.
            sc = max(np.max(np.abs(want[:, c])), np.max(np.abs(fs[0][:, c])))
            ctx.close("maxwell", fs[j][:, c], want[:, c], tol, scale=sc * max(1.0, np.linalg.norm(P, 2) * 0.02), column=c, z=zs[j])
    # The modes span every transverse field.
    Fm = scene.conversion(r)
    Fm = Fm / np.linalg.norm(Fm, axis=0, keepdims=True)
    smin = np.linalg.svd(Fm, compute_uv=False)[-1]
    Vn = V / np.linalg.norm(V, axis=0, keepdims=True)
    smin_ref = np.linalg.svd(Vn, compute_uv=False)[-1]
    ctx.expect("modes_complete", 1.0 / max(smin, 1e-300), 1e5 / smin_ref)
    # Propagation composes and is consistent with the eigenvalues.
    d1, d2 = rng.uniform(0, d, 2)
    p = lambda x, t: fields.propagate_amplitude(jnp.asarray(x), jnp.asarray(t), r)
    ctx.close("propagate_composes", p(p(a, d1), d2), np.asarray(p(a, d1 + d2)), tol)


def fft_iso(ctx, rng):
    s = scene.setup(ctx, rng, n=7, max_order=2)
    shape = [(12, 12), (11, 14), (9, 7), (8, 8)][int(rng.integers(4))]
    ctx.tag(grid=shape)
    _run(ctx, rng, gen.patterned_iso(rng, shape), s)


def fft_aniso(ctx, rng):
    s = scene.setup(ctx, rng, n=7, max_order=2)
    shape = [(12, 12), (10, 13), (9, 8)][int(rng.integers(3))]
    tk = str(rng.choice(["diag", "symmetric", "hermitian", "general"]))
    _run(ctx, rng, gen.patterned_aniso(rng, shape, lossless=bool(rng.random() < 0.5), tkind=tk), s)


def uniform(ctx, rng):
    s = scene.setup(ctx, rng, n=7)
    layer = gen.uniform_iso(rng) if rng.random() < 0.5 else gen.uniform_aniso(
        rng, lossless=bool(rng.random() < 0.5), tkind=str(rng.choice(["diag", "symmetric", "hermitian", "general"]))
    )
    _run(ctx, rng, layer, s)


def _custom(ctx, rng, layer, s, shape):
    tk, tx, ty = gen.custom_tfield(rng, shape)
    ctx.tag(tfield=tk)
    ctx.describe(tx=tx, ty=ty)
    seen = []

    def fn(arr, expansion, primitive_lattice_vectors):
        seen.append(np.asarray(arr))
        return jnp.asarray(tx), jnp.asarray(ty)

    layer.formulation = fn
    src = layer.source
    if src is None:
        src = layer.eps5[0] if layer.api == "iso" else (layer.eps5[0] + layer.eps5[3]) / 2
    _run(ctx, rng, layer, s, (tx, ty))
    if ctx.true("custom_called", len(seen) >= 1):
        ctx.close("custom_source", seen[-1].reshape(shape), src, 1e-9)


def custom_iso(ctx, rng):
    s = scene.setup(ctx, rng, n=7, max_order=2)
    shape = [(12, 12), (11, 10)][int(rng.integers(2))]
    _custom(ctx, rng, gen.patterned_iso(rng, shape), s, shape)


def custom_aniso(ctx, rng):
    s = scene.setup(ctx, rng, n=7, max_order=2)
    shape = [(12, 12), (11, 10)][int(rng.integers(2))]
    tk = str(rng.choice(["diag", "symmetric", "hermitian", "general"]))
    layer = gen.patterned_aniso(rng, shape, lossless=bool(rng.random() < 0.5), tkind=tk)
    if layer.api == "general" and rng.random() < 0.4:
        layer.source = gen.density(rng, shape)[1] + 1.0
        ctx.tag(vector_field_source=True)
    _custom(ctx, rng, layer, s, shape)


def auto_iso(ctx, rng):
    G = np.array([(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)])
    s = _auto_setup(ctx, rng, G)
    shape = (12, 12)
    f = gen.VECTOR_FORMULATIONS[int(rng.integers(len(gen.VECTOR_FORMULATIONS)))]
    layer = gen.patterned_iso(rng, shape, f)
    layer.eps = [layer.eps[0] + 0j]
    _run(ctx, rng, layer, s, auto=True)


def auto_aniso(ctx, rng):
    G = np.array([(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)])
    s = _auto_setup(ctx, rng, G)
    shape = (12, 12)
    f = gen.VECTOR_FORMULATIONS[int(rng.integers(len(gen.VECTOR_FORMULATIONS)))]
    layer = gen.patterned_aniso(rng, shape, f, lossless=bool(rng.random() < 0.5))
    layer.eps = [e + 0j for e in layer.eps]
    _run(ctx, rng, layer, s, auto=True)


def _auto_setup(ctx, rng, G):
    lk, u, v = gen.lattice(rng)
    wl = float(rng.uniform(0.5, 1.6))
    w = 2 * np.pi / wl
    kk, k = gen.kvector(rng, u, v, w)
    ctx.describe(lattice=lk, u=u, v=v, G=G, wl=wl, k=k)
    ctx.tag(lattice=lk, k=kk, N=len(G))
    return dict(u=u, v=v, G=G, wl=wl, w=w, k0=k, K=ref.kvecs(k, u, v, G), lat=gen.lv(u, v), exp=gen.expansion(G))


def x32(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=1)
    shape = (12, 12)
    r = rng.random()
    if r < 0.4:
        layer = gen.patterned_iso(rng, shape)
    elif r < 0.7:
        layer = gen.patterned_aniso(rng, shape, lossless=False)
    else:
        layer = gen.uniform_iso(rng)
    X = gen.ref_generator(layer, s["K"], s["w"], s["G"])
    gen.check_conditioning(X, s["w"], max_cond=3e2, min_q=0.15)
    _run(ctx, rng, layer, s, tol=3e-3)


def special(ctx, rng):
    """Degenerate shapes of the description: one order, one-dimensional cells, odd expansions."""
    kind = str(rng.choice(["single_order", "singleton_y", "singleton_x", "line_x", "asymmetric", "permuted", "weak", "extreme"]))
    ctx.tag(special=kind)
    shape = (12, 12)
    if kind == "singleton_y":
        s = scene.setup(ctx, rng, n=7, one_d="x")
        shape = (12, 1)
    elif kind == "singleton_x":
        s = scene.setup(ctx, rng, n=7, one_d="y")
        shape = (1, 12)
    elif kind == "line_x":
        s = scene.setup(ctx, rng, n=7, one_d="x")
    else:
        s = scene.setup(ctx, rng, n=7)
    if kind == "single_order":
        G = np.array([[0, 0]])
    elif kind == "asymmetric":
        G = s["G"][:6]
    elif kind == "permuted":
        G = rng.permutation(s["G"])
    else:
        G = s["G"]
    s["G"], s["exp"], s["K"] = G, gen.expansion(G), ref.kvecs(s["k0"], s["u"], s["v"], G)
    ctx.describe(G2=G)
    if rng.random() < 0.6:
        layer = gen.patterned_iso(rng, shape)
    else:
        layer = gen.patterned_aniso(rng, shape, lossless=bool(rng.random() < 0.5))
    if kind == "weak":
        layer = gen.Layer("weak", "iso", [2.0 + 1e-5 * rng.random(shape)], gen.unit_mu(shape), gen.FFT)
    if kind == "extreme":
        d = (rng.random(shape) < 0.5).astype(float)
        layer = gen.Layer("extreme", "iso", [np.where(d > 0, -60 + 8j, 1.0)], gen.unit_mu(shape), gen.FFT)
    _run(ctx, rng, layer, s, tol=1e-7)


PROFILES = {
    "special": dict(fn=special, quick=80),
    "fft_iso": dict(fn=fft_iso, quick=120, split=2),
    "fft_aniso": dict(fn=fft_aniso, quick=120, split=2),
    "uniform": dict(fn=uniform, quick=80),
    "custom_iso": dict(fn=custom_iso, quick=80),
    "custom_aniso": dict(fn=custom_aniso, quick=80),
    "auto_iso": dict(fn=auto_iso, quick=24, cost=4),
    "auto_aniso": dict(fn=auto_aniso, quick=20, cost=5),
    "x32": dict(fn=x32, quick=60, x64=False),
}
