"""C16: Fourier transforms and convolution matrices."""

import jax.numpy as jnp
import numpy as np

from fmmax import basis, fft
from vk import gen, ref, scene

RULE = (
    "Random (symmetric, asymmetric, permuted, single-axis, generated) expansions, grid shapes from the documented minimum "
    "upward, dtypes and axes positions; transforms are compared with direct summation of the Fourier series."
)
ASSUMPTIONS = ["the expansion holds no duplicate orders"]
REQUIRED = {
    "roundtrip_coefficients": 200, "ifft_is_series": 200, "fft_is_coefficients": 200, "roundtrip_bandlimited": 200,
    "convolution_entries": 200, "convolution_is_product": 200, "convolution_hermitian": 60, "convolution_translation": 200,
    "too_small_rejected": 200, "min_shape_accepted": 200, "parseval": 200, "convolution_algebra": 60,
}


def any_orders(rng, index):
    kind = ["generated", "random", "symmetric", "one_d", "single", "full", "positive"][index % 7]
    if kind == "generated":
        lk, u, v = gen.lattice(rng)
        tr = basis.Truncation.CIRCULAR if rng.random() < 0.5 else basis.Truncation.PARALLELOGRAMIC
        G = np.asarray(basis.generate_expansion(gen.lv(u, v), int(rng.integers(3, 40)), tr).basis_coefficients)
    elif kind == "random":  # any set of distinct orders, any order, zeroth not necessarily first
        m = int(rng.integers(1, 5))
        a = np.array([(i, j) for i in range(-m, m + 1) for j in range(-m, m + 1)])
        G = a[rng.permutation(len(a))[: int(rng.integers(2, len(a) + 1))]]
    elif kind == "symmetric":
        G = gen.orders(rng, int(rng.choice([5, 7, 9, 13])))
    elif kind == "one_d":
        G = gen.orders(rng, int(rng.choice([3, 5, 7, 9])), one_d=str(rng.choice(["x", "y"])))
    elif kind == "single":
        G = np.zeros((1, 2), int)
    elif kind == "full":
        a, b = rng.integers(0, 4, 2)
        G = np.array([(i, j) for i in range(-a, a + 1) for j in range(-b, b + 1)])
    else:
        a, b = rng.integers(1, 4, 2)
        G = np.array([(i, j) for i in range(a + 1) for j in range(b + 1)])
    return kind, G


def make(cdt, rdt, tol):
    def run(ctx, rng):
        kind, G = any_orders(rng, ctx.index)
        ex = gen.expansion(G)
        n = len(G)
        mx, my = 2 * np.abs(G[:, 0]).max() + 1, 2 * np.abs(G[:, 1]).max() + 1
        tight = rng.random() < 0.4
        shape = (mx, my) if tight else (mx + int(rng.integers(0, 9)), my + int(rng.integers(0, 9)))
        shape = tuple(int(x) for x in shape)
        ctx.describe(G=G, shape=shape)
        ctx.tag(kind=kind, parity=f"{shape[0]%2}{shape[1]%2}", tight=tight)
        c = lambda *s: (rng.normal(size=s) + 1j * rng.normal(size=s)).astype(cdt)
        got_min = fft.min_array_shape_for_expansion(ex)
        ctx.true("min_shape_accepted", tuple(got_min) == (mx, my))
        # Coefficients at any position among other axes.
        nd = int(rng.integers(0, 4))
        other = tuple(int(x) for x in rng.integers(1, 4, nd))
        pos = int(rng.integers(0, nd + 1))
        ys = other[:pos] + (n,) + other[pos:]
        y = c(*ys)
        axis = pos if rng.random() < 0.5 else pos - len(ys)
        x = scene.np_(fft.ifft(jnp.asarray(y), ex, shape, axis))
        want = np.moveaxis(ref.synth(np.moveaxis(y, pos, -1), G, *shape), (-2, -1), (pos, pos + 1))
        ctx.close("ifft_is_series", x, want, tol)
        back = scene.np_(fft.fft(jnp.asarray(x), ex, (pos, pos + 1) if rng.random() < 0.5 else (pos - x.ndim, pos + 1 - x.ndim)))
        ctx.close("roundtrip_coefficients", back, y, tol)
        again = scene.np_(fft.ifft(jnp.asarray(back), ex, shape, axis))
        ctx.close("roundtrip_bandlimited", again, x, tol)
        # Parseval: mean |x|^2 = sum |y|^2.
        ctx.close("parseval", np.mean(np.abs(x) ** 2, axis=(pos, pos + 1)), np.sum(np.abs(y) ** 2, axis=pos), 2 * tol)
        # Arbitrary samples on arbitrary (also non-adjacent, swapped) axes.
        real = rng.random() < 0.4
        a0, a1 = rng.permutation(nd + 2)[:2]
        dims = list(other)
        arr_shape = [0] * (nd + 2)
        arr_shape[a0], arr_shape[a1] = shape
        it = iter(dims)
        for i in range(nd + 2):
            if i not in (a0, a1):
                arr_shape[i] = next(it)
        arr = rng.normal(size=arr_shape).astype(rdt) if real else c(*arr_shape)
        axes = tuple(int(a) if rng.random() < 0.5 else int(a) - arr.ndim for a in (a0, a1))
        f = scene.np_(fft.fft(jnp.asarray(arr), ex, axes))
        w = np.moveaxis(ref.coeff(np.moveaxis(arr, (a0, a1), (-2, -1)), G), -1, min(a0, a1))
        ctx.close("fft_is_coefficients", f, w, tol, floor=1.0)
        ctx.tag(adjacent=abs(int(a0) - int(a1)) == 1, swapped=bool(a0 > a1), real=real)
        # Convolution matrix.  Its index set is the set of differences of orders: enough
        # samples for those makes it alias free.
        big = (int(2 * mx + rng.integers(0, 4)), int(2 * my + rng.integers(0, 4)))
        lead = tuple(int(x) for x in rng.integers(1, 3, int(rng.integers(0, 3))))
        e = rng.normal(size=lead + big).astype(rdt) if real else c(*lead, *big)
        Tm = scene.np_(fft.fourier_convolution_matrix(jnp.asarray(e), ex))
        d = G[:, None, :] - G[None, :, :]
        ctx.close("convolution_entries", Tm, ref.coeff(e, d), tol, floor=1.0)
        if real:
            ctx.close("convolution_hermitian", Tm, np.conj(np.swapaxes(Tm, -1, -2)), tol)
        # Product of the arrays, projected on the expansion.
        fy = c(*lead, n)
        prod = scene.np_(fft.fft(jnp.asarray((e * ref.synth(fy, G, *big)).astype(cdt)), ex))
        ctx.close("convolution_is_product", (Tm @ fy[..., None])[..., 0], prod, tol * max(1, n**0.5))
        # Circular shift of the samples.
        s = int(rng.integers(0, big[0])), int(rng.integers(0, big[1]))
        Ts = scene.np_(fft.fourier_convolution_matrix(jnp.asarray(np.roll(e, s, axis=(-2, -1))), ex))
        ph = np.exp(-2j * np.pi * (d[..., 0] * s[0] / big[0] + d[..., 1] * s[1] / big[1]))
        ctx.close("convolution_translation", Ts, Tm * ph, tol)
        # Minimum shape grids give circulant-consistent matrices too (documented minimum).
        es = rng.normal(size=shape).astype(rdt)
        Tmin = scene.np_(fft.fourier_convolution_matrix(jnp.asarray(es), ex))
        ctx.close("convolution_entries", Tmin, ref.coeff(es, d), tol, floor=1.0)
        full = (len(G) == mx * my) and n > 1
        if full:
            # A full set of orders on its minimum grid: convolution by f then g is convolution by f g.
            g = rng.normal(size=(mx, my)).astype(rdt)
            h = rng.normal(size=(mx, my)).astype(rdt)
            a, b, p = (scene.np_(fft.fourier_convolution_matrix(jnp.asarray(z), ex)) for z in (g, h, g * h))
            ctx.close("convolution_algebra", a @ b, p, tol * n)
        elif kind == "single":
            ctx.close("convolution_algebra", Tm[..., 0, 0], np.mean(e, axis=(-2, -1)), tol, floor=1.0)
        # Too small.
        if mx > 1 or my > 1:
            small = list(shape)
            ax = int(rng.integers(0, 2))
            if (mx, my)[ax] == 1:
                ax = 1 - ax
            small[ax] = int((mx, my)[ax] - rng.integers(1, min((mx, my)[ax], 3)))
            small = tuple(small)
            sa = c(*small)
            ctx.raises("too_small_rejected", lambda: fft.fft(jnp.asarray(sa), ex), shape=small)
            ctx.raises("too_small_rejected", lambda: fft.fourier_convolution_matrix(jnp.asarray(sa), ex), shape=small)
            ctx.raises("too_small_rejected", lambda: fft.ifft(jnp.asarray(c(n)), ex, small), shape=small)
            sb = np.moveaxis(c(2, *small), (1, 2), (2, 0))
            ctx.raises("too_small_rejected", lambda: fft.fft(jnp.asarray(sb), ex, axes=(2, 0)), shape=small)

    return run


PROFILES = {
    "x64": dict(fn=make(np.complex128, np.float64, 1e-10), quick=196, thorough=6000, split=5),
    "x32": dict(fn=make(np.complex64, np.float32, 1e-4), quick=84, thorough=2000, split=3, x64=False),
}
