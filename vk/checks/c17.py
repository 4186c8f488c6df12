"""C17: automatically generated tangent vector fields."""

import functools

import jax
import jax.numpy as jnp
import numpy as np

from fmmax import basis, vector
from vk import gen, ref

RULE = (
    "Every automatic vector-field scheme on random real and complex patterns (generic, high contrast, binary, uniform, "
    "symmetric, one-dimensional along either axis or a diagonal, singleton axes) and lattices; fields are checked for "
    "finiteness and magnitude, against the fields of scaled, offset, rotated, mirrored, relabelled and tiled twins, and "
    "against the interface directions."
)
ASSUMPTIONS = [
    "covariance and invariance are claimed for patterns with content along both directions in the retained orders; others fall back to a fixed direction",
    "unit magnitude of the normalized schemes is claimed where the field does not vanish",
    "supercells reproduce the field up to the difference of the internal sampling grids (rms tolerance 0.2)",
    "generic patterns: energy fraction of the field along the gradient below 0.7 (0.5 is undirected, one is normal)",
]
REQUIRED = {
    "finite": 100, "bounded": 100, "not_all_zero": 60, "unit_normal": 8, "unit_jones_real": 8, "scale_invariance": 30, "value_scaling": 30,
    "value_negation": 30, "rotation": 30, "mirror": 20, "swap": 18, "translation": 30, "alignment": 8, "one_d_parallel": 60,
    "one_d_unit": 60, "one_d_singleton": 30, "supercell": 6, "batch_of_lattices": 8,
}


def _full(a, b):
    G = np.array([(i, j) for i in range(-a, a + 1) for j in range(-b, b + 1)])
    return np.concatenate([[[0, 0]], G[np.any(G != 0, axis=1)]])


G7 = np.array([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1]])
G13 = np.array([[0, 0], [0, 1], [0, -1], [1, 0], [-1, 0], [1, 1], [-1, -1], [1, -1], [-1, 1], [2, 0], [-2, 0], [0, 2], [0, -2]])
CONFIGS = {"a": (G7, (12, 18)), "b": (G13, (20, 20)), "x": (np.array([[0, 0], [1, 0], [-1, 0], [2, 0], [-2, 0]]), (17, 1)),
           "y": (np.array([[0, 0], [0, 1], [0, -1]]), (1, 14))}


@functools.lru_cache(None)
def _fn(name, Gb, shape):
    ex = gen.expansion(np.frombuffer(Gb, np.int64).reshape(-1, 2))
    fn = vector.VECTOR_FIELD_SCHEMES[name]
    return jax.jit(lambda a, u, v: jnp.stack(fn(a, ex, basis.LatticeVectors(u=u, v=v))))


def field(name, G, arr, u, v):
    c = np.complex128 if jax.config.jax_enable_x64 else np.complex64
    r = np.float64 if jax.config.jax_enable_x64 else np.float32
    arr = arr.astype(c) if np.iscomplexobj(arr) else arr.astype(r)
    f = _fn(name, np.ascontiguousarray(G.astype(np.int64)).tobytes(), arr.shape)
    return np.asarray(f(arr, jnp.asarray(u, r), jnp.asarray(v, r)))


def proj(t):
    return np.einsum("axy,bxy->abxy", t, np.conj(t))


def basics(ctx, name, t, tol):
    ctx.finite("finite", t)
    m = np.sqrt(np.sum(np.abs(t) ** 2, axis=0))
    lim = np.sqrt(2) if name.startswith("jones") and "direct" not in name else 1.0
    ctx.expect("bounded", np.max(m) - lim if np.all(np.isfinite(m)) else np.inf, tol)
    return m


def make(name, tol=1e-5, x64=True):
    jones = name.startswith("jones") and "direct" not in name
    direct = "direct" in name

    def run(ctx, rng):
        kind = ["general", "one_d", "wild", "general", "singleton", "one_d"][ctx.index % 6]
        cfg = "ab"[(ctx.index // 3) % 2]
        if kind == "singleton":
            cfg = str(rng.choice(["x", "y"]))
        G, shape = CONFIGS[cfg]
        lk, u, v = gen.lattice(rng)
        if rng.random() < 0.2:
            sc = 10 ** rng.uniform(-7, 3)
            u, v = u * sc, v * sc
        ctx.describe(lattice=lk, u=u, v=v, cfg=cfg, kind=kind)
        ctx.tag(kind=kind, cfg=cfg, lattice=lk)
        cplx = bool(rng.random() < 0.5) and not jones and not direct
        if kind in ("one_d", "singleton"):
            one_d(ctx, rng, name, kind, G, shape, u, v, tol)
            return
        if kind == "wild":
            which = str(rng.choice(["uniform", "binary", "disc", "checker", "huge", "tiny", "complex", "spike", "block"]))
            ctx.tag(wild=which)
            d = gen.density(rng, shape, dict(binary="binary", disc="disc", checker="checker", block="blocks").get(which, "random"))[1]
            arr = {
                "uniform": np.full(shape, 2.25 + 0j), "huge": 1 - 1e6 * d + 1e5j * d, "tiny": 1 + 1e-6 * d + 0j,
                "complex": rng.normal(size=shape) + 1j * rng.normal(size=shape),
                "spike": np.where(np.arange(d.size).reshape(shape) == 5, 12.0, 1.0) + 0j,
            }.get(which, 1 + (11 - 3j) * d)
            ctx.describe(arr=arr)
            t = field(name, G, arr, u, v)
            basics(ctx, name, t, tol)
            return
        d = gen.rich_density(rng, shape, noise=float(rng.choice([0.0, 0.1])))
        lo, hi = rng.uniform(1, 2), rng.uniform(3, 9) * rng.choice([1, 1, -1])
        arr = lo + (hi - lo) * d + (1j * rng.uniform(0.1, 3) * gen.rich_density(rng, shape, 0.0) if cplx else 0j)
        ctx.describe(arr=arr)
        ctx.tag(complex=cplx)
        t = field(name, G, arr, u, v)
        m = basics(ctx, name, t, tol)
        ctx.expect("not_all_zero", 1 - np.max(m), 1e-3 if not jones else 0.5)
        if name.startswith("normal"):
            ctx.expect("unit_normal", np.max(np.abs(m - 1)[m > 1e-3]), tol)
        if jones and not cplx:
            # Real part free of phase: a real pattern has a real field before normalization.
            ctx.expect("unit_jones_real", np.max(np.abs(m - 1)), 1e-3)
        P = proj(t)
        a = 10 ** rng.uniform(-6, 6)
        ctx.close("scale_invariance", proj(field(name, G, arr, u * a, v * a)), P, 100 * tol)
        s, o = 10 ** (rng.uniform(-2, 2) if not x64 or rng.random() < 0.5 else rng.uniform(-6, 6)), rng.uniform(-5, 5)
        ctx.close("value_scaling", proj(field(name, G, s * arr + o, u, v)), P, 100 * tol)
        ctx.close("value_negation", proj(field(name, G, -arr, u, v)), P, 100 * tol)
        th = rng.uniform(0, 2 * np.pi)
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        Q = lambda R_: np.einsum("ab,bcxy,dc->adxy", R_, P, R_)
        ctx.close("rotation", proj(field(name, G, arr, R @ u, R @ v)), Q(R), 100 * tol)
        if not jones and not direct:
            M = R @ np.diag([1.0, -1.0]) @ R.T
            ctx.close("mirror", proj(field(name, G, arr, M @ u, M @ v)), Q(M), 100 * tol)
            if cfg == "b":
                sw = proj(field(name, G[:, ::-1], arr.T.copy(), v, u))
                ctx.close("swap", np.swapaxes(sw, -1, -2), P, 100 * tol)
        # Translation by a common multiple of the pattern grid and of the doubled minimum grid.
        per = [np.gcd(n, 2 * (2 * np.abs(G[:, i]).max() + 1)) for i, n in enumerate(shape)]
        sh = tuple(int(rng.integers(0, p) * (n // p)) for p, n in zip(per, shape))
        ctx.close("translation", proj(field(name, G, np.roll(arr, sh, (0, 1)), u, v)), np.roll(P, sh, (-2, -1)), 100 * tol)
        if not jones and not direct and not cplx:
            kx, ky = np.fft.fftfreq(shape[0]) * shape[0], np.fft.fftfreq(shape[1]) * shape[1]
            b = ref.recip(u, v)
            keep = np.zeros(shape, bool)
            keep[G[:, 0], G[:, 1]] = True
            c = np.fft.fft2(arr) * keep
            g = [np.fft.ifft2(c * 1j * (kx[:, None] * b[0, q] + ky[None, :] * b[1, q])) for q in (0, 1)]
            num = np.sum(np.abs(g[0] * t[0] + g[1] * t[1]) ** 2)
            den = np.sum((np.abs(g[0]) ** 2 + np.abs(g[1]) ** 2) * np.sum(np.abs(t) ** 2, axis=0))
            ctx.expect("alignment", num / den, 0.7)
        if ctx.index % 4 == 0:
            us = np.stack([u, R @ u])
            vs = np.stack([v, R @ v])
            fn = vector.VECTOR_FIELD_SCHEMES[name]
            tb = np.stack([np.asarray(z) for z in fn(jnp.asarray(arr), gen.expansion(G), gen.lv(us, vs))]) if ctx.index % 24 == 0 else None
            if tb is not None:
                ctx.close("batch_of_lattices", proj(tb[:, 0]), P, 100 * tol)
                ctx.close("batch_of_lattices", proj(tb[:, 1]), Q(R), 100 * tol)

    return run


def one_d(ctx, rng, name, kind, G, shape, u, v, tol):
    b = ref.recip(u, v)
    nx, ny = shape
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    if kind == "singleton":
        along = "u" if ny == 1 else "v"
    else:
        along = str(rng.choice(["u", "v"] + (["+", "-"] if nx == ny else [])))
    idx = {"u": i, "v": j, "+": (i + j) % nx, "-": (i - j) % nx}[along]
    n = int(idx.max()) + 1
    gdir = {"u": b[0], "v": b[1], "+": b[0] + b[1], "-": b[0] - b[1]}[along]
    pat = str(rng.choice(["step", "smooth", "random", "multi"]))
    if pat == "step":
        w = int(rng.integers(1, n))
        prof = np.roll((np.arange(n) < w).astype(float), int(rng.integers(n)))
    elif pat == "smooth":
        prof = 0.5 + 0.5 * np.cos(2 * np.pi * (np.arange(n) / n + rng.random()))
    elif pat == "random":
        prof = rng.random(n) + np.cos(2 * np.pi * np.arange(n) / n)
    else:
        prof = rng.integers(0, 3, n).astype(float)
        prof[0] += 1
    mats = str(rng.choice(["real", "complex", "two_phase", "imag", "metal"]))
    p = prof if mats != "two_phase" else prof + 1j * np.roll(prof, 1)
    lo, hi = {"real": (1.0, 6.0), "complex": (1.0, 3 + 2j), "two_phase": (1.5, 4.0), "imag": (1.0, 1 + 4j), "metal": (1.0, -20 + 1j)}[mats]
    arr = (lo + (hi - lo) * p)[idx]
    # Content in the retained orders, else the pattern counts as uniform.
    gr = np.fft.fft2(arr)[G[:, 0], G[:, 1]] * np.where(np.any(G != 0, axis=1), 1, 0)
    ctx.describe(arr=arr, along=along)
    ctx.tag(along=along, mats=mats, pat=pat)
    if np.max(np.abs(gr)) < 1e-3 * np.max(np.abs(arr)) * arr.size * 0.1:
        ctx.tag(flat=True)
        basics(ctx, name, field(name, G, arr, u, v), tol)
        return
    t = field(name, G, arr, u, v)
    m = basics(ctx, name, t, tol)
    gh = gdir / np.linalg.norm(gdir)
    ctx.expect("one_d_singleton" if kind == "singleton" else "one_d_parallel", np.max(np.abs(gh[0] * t[0] + gh[1] * t[1])), 1e-3)
    ctx.expect("one_d_unit", np.max(np.abs(m - 1)), 1e-3)


def supercell(ctx, rng):
    name = ["pol", "normal_fourier", "pol_fourier", "normal"][ctx.index // 2 % 4]
    axis = ctx.index % 2
    lk, u, v = gen.lattice(rng)
    d = gen.rich_density(rng, (14, 14), noise=0.0)
    arr = 1 + rng.uniform(1, 8) * d + 0j
    ctx.describe(u=u, v=v, arr=arr, name=name)
    ctx.tag(super=name, axis=axis)
    P = proj(field(name, _full(2, 2), arr, u, v))
    if axis == 0:
        T, reps = field(name, _full(5, 2), np.tile(arr, (2, 1)), 2 * u, v), (1, 1, 2, 1)
    else:
        T, reps = field(name, _full(2, 5), np.tile(arr, (1, 2)), u, 2 * v), (1, 1, 1, 2)
    basics(ctx, name, T, 1e-5)
    D = np.sum(np.abs(np.tile(P, reps) - proj(T)) ** 2, axis=(0, 1))
    ctx.expect("supercell", np.sqrt(np.mean(D)), 0.2)


PROFILES = {n: dict(fn=make(n), quick=36, thorough=1200, split=1, cost=5) for n in vector.VECTOR_FIELD_SCHEMES}
PROFILES["supercell"] = dict(fn=supercell, quick=8, thorough=100, split=1, cost=10)
PROFILES["x32_pol"] = dict(fn=make("pol", 5e-4, False), quick=18, thorough=300, split=1, cost=5, x64=False)
PROFILES["x32_jones_direct"] = dict(fn=make("jones_direct", 5e-4, False), quick=18, thorough=300, split=1, cost=5, x64=False)
