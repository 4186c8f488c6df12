"""Random scenarios: lattices, wavevectors, expansions, materials, layers, stacks."""

import dataclasses

import jax.numpy as jnp
import numpy as np

from fmmax import basis, fmm
from vk import ref
from vk.core import Discard

F = fmm.Formulation
FFT = F.FFT
VECTOR_FORMULATIONS = [f for f in F if f is not F.FFT]

LATTICE_KINDS = (
    "square", "rect", "hex", "oblique", "rotated", "lefthanded", "elongated", "skew",
)


def lattice(rng, kind=None, scale=None):
    """Returns (kind, u, v) as float64 numpy arrays; always comfortably non-degenerate."""
    kind = kind or rng.choice(LATTICE_KINDS)
    p = scale if scale is not None else float(rng.uniform(0.5, 1.6))
    x, y = np.array([1.0, 0.0]), np.array([0.0, 1.0])
    if kind == "square":
        u, v = p * x, p * y
    elif kind == "rect":
        u, v = p * x, p * rng.uniform(0.6, 1.7) * y
    elif kind == "hex":
        u, v = p * x, p * np.array([0.5, np.sqrt(3) / 2])
    elif kind == "oblique":
        th = rng.uniform(0.9, 2.2)
        u, v = p * x, p * rng.uniform(0.7, 1.4) * np.array([np.cos(th), np.sin(th)])
    elif kind == "rotated":
        a = rng.uniform(0, 2 * np.pi)
        th = rng.uniform(1.0, 2.1)
        u = p * np.array([np.cos(a), np.sin(a)])
        v = p * rng.uniform(0.7, 1.4) * np.array([np.cos(a + th), np.sin(a + th)])
    elif kind == "lefthanded":
        a = rng.uniform(0, 2 * np.pi)
        th = -rng.uniform(1.0, 2.1)
        u = p * np.array([np.cos(a), np.sin(a)])
        v = p * rng.uniform(0.7, 1.4) * np.array([np.cos(a + th), np.sin(a + th)])
    elif kind == "elongated":
        r = rng.uniform(2.0, 4.0)
        u, v = (p * x, p / r * y) if rng.random() < 0.5 else (p / r * x, p * y)
    elif kind == "skew":
        u, v = p * x, p * np.array([rng.uniform(-1.2, 1.2), rng.uniform(0.5, 0.9)])
    else:
        raise ValueError(kind)
    return str(kind), np.array(u, float), np.array(v, float)


def lv(u, v):
    return basis.LatticeVectors(u=jnp.asarray(u), v=jnp.asarray(v))


_HALF = [(1, 0), (0, 1), (1, 1), (1, -1), (2, 0), (0, 2), (2, 1), (1, 2), (2, -1), (1, -2)]


def orders(rng, n=None, one_d=None, max_order=None):
    """Inversion-symmetric list of n (odd) orders with the zeroth order first."""
    n = n or int(rng.choice([5, 7, 9]))
    if one_d == "x":
        half = [(i, 0) for i in range(1, (n - 1) // 2 + 1)]
    elif one_d == "y":
        half = [(0, i) for i in range(1, (n - 1) // 2 + 1)]
    else:
        pool = [h for h in _HALF if max_order is None or max(abs(h[0]), abs(h[1])) <= max_order]
        m = (n - 1) // 2
        if rng.random() < 0.4 or m > len(pool):
            half = pool[:m]
        else:
            # Keep at least one order along each axis so both directions matter.
            idx = [0, 1] + list(2 + rng.permutation(len(pool) - 2)[: max(0, m - 2)])
            half = [pool[i] for i in idx[:m]]
    out = [(0, 0)]
    for h in half:
        s = 1 if rng.random() < 0.5 else -1
        out += [(s * h[0], s * h[1]), (-s * h[0], -s * h[1])]
    G = np.array(out, int)
    if rng.random() < 0.3:  # the zeroth order need not be followed by any given order
        G = np.concatenate([G[:1], rng.permutation(G[1:])])
    return G


def expansion(G):
    return basis.Expansion(basis_coefficients=np.asarray(G))


def kvector(rng, u, v, w, kind=None):
    kind = kind or rng.choice(["zero", "x", "y", "generic", "generic", "bz", "large"])
    if kind == "zero":
        k = np.zeros(2)
    elif kind == "x":
        k = np.array([rng.uniform(-0.9, 0.9) * w, 0.0])
    elif kind == "y":
        k = np.array([0.0, rng.uniform(-0.9, 0.9) * w])
    elif kind == "generic":
        k = rng.uniform(-0.7, 0.7, 2) * w
    elif kind == "bz":
        k = rng.uniform(-0.5, 0.5, 2) @ ref.recip(u, v)
    else:
        k = rng.uniform(-1.0, 1.0, 2) * 1.5 * w
    return str(kind), k


# ---------------------------------------------------------------------------
# Materials
# ---------------------------------------------------------------------------


def scalar_eps(rng, kind=None, lossless=False):
    kind = kind or rng.choice(
        ["vacuum", "dielectric", "dielectric", "high", "negative_real"]
        if lossless
        else ["vacuum", "dielectric", "high", "lossy", "lossy", "metal", "negative_real"]
    )
    if kind == "vacuum":
        e = 1.0
    elif kind == "dielectric":
        e = rng.uniform(1.1, 6)
    elif kind == "high":
        e = rng.uniform(6, 14)
    elif kind == "lossy":
        e = rng.uniform(1, 6) + 1j * 10 ** rng.uniform(-4, 0.5)
    elif kind == "metal":
        e = -rng.uniform(2, 20) + 1j * rng.uniform(0.2, 5)
    elif kind == "negative_real":
        e = -rng.uniform(2.0, 9)
    else:
        raise ValueError(kind)
    return str(kind), e


PATTERN_KINDS = ("random", "smooth", "blocks", "disc", "checker", "binary")


def density(rng, shape, kind=None):
    """A density in [0, 1] on the grid."""
    kind = str(kind or rng.choice(PATTERN_KINDS))
    nx, ny = shape
    i, j = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny, indexing="ij")
    if kind == "random":
        d = rng.random(shape)
    elif kind == "binary":
        d = (rng.random(shape) < 0.5).astype(float)
    elif kind == "smooth":
        d = np.zeros(shape)
        for _ in range(4):
            a, b = rng.integers(-2, 3, 2)
            d += rng.normal() * np.cos(2 * np.pi * (a * i + b * j + rng.random()))
        d = (d - d.min()) / max(np.ptp(d), 1e-9)
    elif kind == "blocks":
        d = np.zeros(shape)
        for _ in range(int(rng.integers(1, 4))):
            x0, y0 = rng.integers(0, nx), rng.integers(0, ny)
            wx, wy = rng.integers(1, max(2, nx // 2 + 1)), rng.integers(1, max(2, ny // 2 + 1))
            d[np.ix_((x0 + np.arange(wx)) % nx, (y0 + np.arange(wy)) % ny)] = 1.0
    elif kind == "disc":
        r = rng.uniform(0.15, 0.4)
        cx, cy = (0.5, 0.5) if rng.random() < 0.5 else rng.random(2)
        dx = np.abs(i - cx)
        dy = np.abs(j - cy)
        dx, dy = np.minimum(dx, 1 - dx), np.minimum(dy, 1 - dy)
        d = (dx**2 + dy**2 < r**2).astype(float)
    elif kind == "checker":
        d = ((np.floor(2 * i) + np.floor(2 * j)) % 2).astype(float)
    else:
        raise ValueError(kind)
    return kind, d


def rich_density(rng, shape, noise=0.3):
    """Density in [0, 1] with strong, generic first-order content along both lattice axes."""
    nx, ny = shape
    i, j = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny, indexing="ij")
    d = noise * rng.normal(size=shape)
    for a, b in ((1, 0), (0, 1), (1, 1), (1, -1)):
        d = d + rng.uniform(0.5, 1) * np.cos(2 * np.pi * (a * i + b * j + rng.random()))
    return (d - d.min()) / np.ptp(d)


def pattern_eps(rng, shape, lossless=False, kind=None, mat=None):
    dk, d = density(rng, shape, kind)
    if np.ptp(d) == 0:
        d = d.copy()
        d[0, 0] = 1 - d[0, 0]
    if mat is None:
        mat = rng.choice(["dielectric", "dielectric", "highc", "lossy", "metal"][: 3 if lossless else 5])
    if mat == "dielectric":
        a, b = 1.0, rng.uniform(1.5, 4)
    elif mat == "highc":
        a, b = rng.uniform(1, 2), rng.uniform(6, 12)
    elif mat == "lossy":
        a, b = rng.uniform(1, 3), rng.uniform(2, 5) + 1j * rng.uniform(0.01, 1.5)
    else:
        # Metal-dielectric without an intermediate epsilon near zero.
        a, b = rng.uniform(1, 2) + 0.0j, -rng.uniform(2, 8) + 1j * rng.uniform(0.5, 3)
    e = a + (b - a) * d
    if mat == "metal":
        e = np.where(d < 0.5, a, b)
        if np.all(d < 0.5) or np.all(d >= 0.5):
            e[0, 0] = a if d[0, 0] >= 0.5 else b
    return f"{dk}:{mat}", e


def tensor(rng, shape, kind, lossless=True, base=None):
    """(xx, xy, yx, yy, zz) arrays. kind: diag, symmetric, hermitian (gyrotropic)."""

    def arr(lo, hi):
        if rng.random() < 0.4:
            return np.full(shape, rng.uniform(lo, hi))
        return lo + (hi - lo) * density(rng, shape)[1]

    xx, yy, zz = arr(1.5, 5), arr(1.5, 5), arr(1.5, 5)
    z = np.zeros(shape)
    if kind == "diag":
        t = [xx, z, z, yy, zz]
    elif kind == "symmetric":
        o = 0.6 * rng.uniform(-1, 1) * (0.4 + 0.6 * density(rng, shape)[1])
        t = [xx, o, o, yy, zz]
    elif kind == "hermitian":
        o = (0.5 * rng.uniform(-1, 1) + 0.5j * rng.uniform(-1, 1)) * (0.4 + 0.6 * density(rng, shape)[1])
        t = [xx + 0j, o, np.conj(o), yy + 0j, zz + 0j]
    elif kind == "general":  # no symmetry at all (used where only Maxwell matters)
        o1 = (0.5 * rng.uniform(-1, 1) + 0.3j * rng.uniform(-1, 1)) * (0.4 + 0.6 * density(rng, shape)[1])
        o2 = (0.5 * rng.uniform(-1, 1) + 0.3j * rng.uniform(-1, 1)) * (0.4 + 0.6 * density(rng, shape)[1])
        t = [xx + 0j, o1, o2, yy + 0j, zz + 0j]
    else:
        raise ValueError(kind)
    if not lossless:
        t = [
            t[0] + 1j * rng.uniform(0, 1), t[1], t[2],
            t[3] + 1j * rng.uniform(0, 1), t[4] + 1j * rng.uniform(0, 1),
        ]
    return [np.asarray(a) for a in t]


def unit_mu(shape):
    return [np.ones(shape), np.zeros(shape), np.zeros(shape), np.ones(shape), np.ones(shape)]


# ---------------------------------------------------------------------------
# Layers
# ---------------------------------------------------------------------------


@dataclasses.dataclass
class Layer:
    kind: str
    api: str  # iso, aniso, general
    eps: list  # one array (iso) or five
    mu: list  # five arrays
    formulation: object
    source: object = None  # vector_field_source
    tfield: object = None  # custom tangent field arrays (tx, ty) when formulation is a callable

    @property
    def shape(self):
        return np.shape(self.eps[0])[-2:]

    @property
    def eps5(self):
        if self.api == "iso":
            e = self.eps[0]
            z = np.zeros_like(e)
            return [e, z, z, e, e]
        return self.eps

    @property
    def uniform(self):
        return self.shape == (1, 1)

    def fname(self):
        return self.formulation.name if isinstance(self.formulation, F) else "CUSTOM"

    def describe(self):
        d = dict(kind=self.kind, api=self.api, f=self.fname(), eps=self.eps)
        if self.api == "general":
            d["mu"] = self.mu
        return d


def _j(a):
    return jnp.asarray(a)


def solve(layer, wavelength, k, lat, exp):
    """Runs the real eigensolve through the public API."""
    common = dict(
        wavelength=jnp.asarray(wavelength),
        in_plane_wavevector=jnp.asarray(k),
        primitive_lattice_vectors=lat,
        expansion=exp,
        formulation=layer.formulation,
    )
    if layer.api == "iso":
        return fmm.eigensolve_isotropic_media(permittivity=_j(layer.eps[0]), **common)
    names = ["xx", "xy", "yx", "yy", "zz"]
    e = {f"permittivity_{n}": _j(a) for n, a in zip(names, layer.eps)}
    if layer.api == "aniso":
        return fmm.eigensolve_anisotropic_media(**e, **common)
    m = {f"permeability_{n}": _j(a) for n, a in zip(names, layer.mu)}
    src = {} if layer.source is None else {"vector_field_source": _j(layer.source)}
    return fmm.eigensolve_general_anisotropic_media(**e, **m, **src, **common)


def custom_vector_fn(tx, ty):
    """A user supplied tangent field (arrays on the grid)."""

    def fn(arr, expansion, primitive_lattice_vectors):
        return jnp.asarray(tx), jnp.asarray(ty)

    return fn


def custom_tfield(rng, shape, kind=None):
    kind = str(kind or rng.choice(["real", "jones", "real_zeros", "jones_zeros", "constant", "scaled"]))
    nx, ny = shape
    i, j = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny, indexing="ij")
    th = 2 * np.pi * (rng.integers(0, 2) * i + rng.integers(0, 2) * j) + 0.8 * np.sin(
        2 * np.pi * (i + rng.random())
    ) + rng.uniform(0, 6) + 0.5 * np.cos(2 * np.pi * (j + rng.random()))
    tx, ty = np.cos(th), np.sin(th)
    if kind.startswith("jones"):
        ph = 0.7 * np.sin(2 * np.pi * (i - j + rng.random()))
        tx, ty = tx * np.exp(1j * ph), ty * np.exp(-1j * ph)
    if kind == "constant":
        a = rng.uniform(0, np.pi)
        tx, ty = np.full(shape, np.cos(a)), np.full(shape, np.sin(a))
    if kind == "scaled":  # magnitude below one, bounded away from zero
        m = 0.3 + 0.7 * density(rng, shape, "smooth")[1]
        tx, ty = tx * m, ty * m
    if kind.endswith("zeros"):
        m = np.ones(shape)
        for _ in range(int(rng.integers(1, 4))):
            m[rng.integers(0, nx), rng.integers(0, ny)] = 0
        tx, ty = tx * m, ty * m
    return kind, tx, ty


def uniform_iso(rng, lossless=False, kind=None):
    k, e = scalar_eps(rng, kind, lossless)
    return Layer(f"uniform:{k}", "iso", [np.array([[e]])], unit_mu((1, 1)), FFT)


def uniform_aniso(rng, lossless=False, tkind=None, magnetic=None):
    tk = tkind or str(rng.choice(["diag", "symmetric", "hermitian"]))
    e = tensor(rng, (1, 1), tk, lossless)
    mag = bool(rng.random() < 0.5) if magnetic is None else magnetic
    mu = tensor(rng, (1, 1), tk, lossless) if mag else unit_mu((1, 1))
    api = "general" if mag or rng.random() < 0.5 else "aniso"
    return Layer(f"uniform_{tk}{'_mag' if mag else ''}", api, e, mu, FFT)


def patterned_iso(rng, shape, formulation=FFT, lossless=False, kind=None):
    k, e = pattern_eps(rng, shape, lossless, kind)
    return Layer(f"patterned:{k}", "iso", [e], unit_mu(shape), formulation)


def patterned_aniso(rng, shape, formulation=FFT, lossless=False, tkind=None, magnetic=None):
    tk = tkind or str(rng.choice(["diag", "symmetric", "hermitian"]))
    e = tensor(rng, shape, tk, lossless)
    mag = bool(rng.random() < 0.5) if magnetic is None else magnetic
    mu = tensor(rng, shape, tk, lossless) if mag else unit_mu(shape)
    api = "general" if mag or rng.random() < 0.5 else "aniso"
    return Layer(f"patterned_{tk}{'_mag' if mag else ''}", api, e, mu, formulation)


def any_layer(rng, shape, lossless=False, formulations=(FFT,), reciprocal=False, p_uniform=0.35, nonmag=False):
    r = rng.random()
    f = formulations[int(rng.integers(len(formulations)))]
    tk = str(rng.choice(["diag", "symmetric"])) if reciprocal else None
    mag = False if nonmag else None
    if r < p_uniform * 0.7:
        return uniform_iso(rng, lossless)
    if r < p_uniform:
        return uniform_aniso(rng, lossless, tk, mag)
    if r < p_uniform + (1 - p_uniform) * 0.55:
        return patterned_iso(rng, shape, f, lossless)
    return patterned_aniso(rng, shape, f, lossless, tk, mag)


# ---------------------------------------------------------------------------
# Reference matrices of a layer, conditioning
# ---------------------------------------------------------------------------


def ref_generator(layer, k, w, G, tfield=None):
    """Maxwell generator of the layer in the truncated basis from the reference model.

    tfield: (tx, ty) for vector formulations, None for Laurent's rule.
    """
    e5, m5 = layer.eps5, layer.mu
    zz = ref.toeplitz(e5[4], G)
    mz = ref.toeplitz(m5[4], G)
    if tfield is None or layer.uniform:
        E = ref.laurent_tensor(e5, G)
        M = ref.laurent_tensor(m5, G)
    elif layer.api == "iso":
        E = ref.tangent_iso(e5[0], tfield[0], tfield[1], G)
        M = ref.laurent_tensor(m5, G)
    else:
        E = ref.tangent_tensor(e5, tfield[0], tfield[1], G)
        M = ref.tangent_tensor(m5, tfield[0], tfield[1], G)
    return ref.maxwell_generator(E, M, zz, mz, k, w)


def check_conditioning(X, w, max_cond=1e6, min_q=0.03):
    """Discards scenarios at or near mode degeneracies that make any modal method singular."""
    q, V = ref.modes(X)
    if np.min(np.abs(q)) < min_q * w:
        raise Discard("mode near cutoff")
    c = np.linalg.cond(V)
    if not np.isfinite(c) or c > max_cond:
        raise Discard("ill-conditioned modes")
    return q, V
