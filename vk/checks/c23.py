"""C23: malformed problems are rejected, never silently computed."""

import dataclasses

import jax.numpy as jnp
import numpy as np

from fmmax import basis, beams, farfield, fft, fields, fmm, pml, scattering, sources, utils
from vk import gen, scene
from vk.core import Discard

RULE = (
    "Random valid problems (lattice, orders, batch shape, grids, stacks, sources, supercells); each public call is first made "
    "unmodified (it must be accepted and give numbers of the documented shape) and then with exactly one argument made "
    "inconsistent with the others in a randomly chosen way; any exception counts as a rejection, any returned value as a violation."
)
ASSUMPTIONS = [
    "any exception type counts as a rejection",
    "shape-(1,) batch axes and scalar thicknesses broadcast by design and are not malformed",
]


def cat(*names):
    return {f"reject_{n}": 20 for n in names}


REQUIRED = {
    "valid_accepted": 300,
    **cat("wavevector", "lattice", "material_shape", "material_batch", "grid", "amplitude_size", "field_size", "lengths", "current_shape",
          "location", "supercell", "brillouin_grid", "axes", "pml_width", "expansion", "solve_result", "coordinates"),
}


def _setup(ctx, rng, n=None):
    lk, u, v = gen.lattice(rng)
    G = gen.orders(rng, n or int(rng.choice([5, 7])), max_order=2)
    batch = [(), (), (2,), (3,), (2, 3)][int(rng.integers(5))]
    wl = rng.uniform(0.6, 1.4, batch if rng.random() < 0.5 else ())
    k = rng.uniform(-1, 1, (batch if rng.random() < 0.6 else ()) + (2,))
    lat = gen.lv(u, v)
    exp = gen.expansion(G)
    mn = tuple(int(2 * np.max(np.abs(G[:, i])) + 1) for i in (0, 1))
    shape = tuple(int(m + rng.integers(0, 4)) for m in mn)
    ctx.describe(lattice=lk, u=u, v=v, G=G, batch=batch, wl=wl, k=k, shape=shape)
    ctx.tag(batch=len(batch), N=len(G))
    return dict(lat=lat, exp=exp, G=G, n=len(G), batch=batch, wl=jnp.asarray(wl), k=jnp.asarray(k), min=mn, shape=shape, u=u, v=v)


def _call(ctx, name, fn):
    """The control: the unmodified call is accepted and finite."""
    out = fn()
    ctx.true("valid_accepted", out is not None, call=name)
    return out


def _reject(ctx, category, what, fn):
    return ctx.raises(f"reject_{category}", fn, what=what)


def _bad_vec(rng, x):
    """The same array with 1, 3 or 4 trailing components."""
    x = np.asarray(x)
    m = [1, 3, 4][int(rng.integers(3))]
    return jnp.asarray(rng.uniform(-1, 1, x.shape[:-1] + (m,)))


def _bad_batch(rng, batch):
    """A non-empty batch shape that does not broadcast with the given non-trivial one."""
    b = list(batch)
    i = int(rng.integers(len(b)))
    b[i] = b[i] + int(rng.integers(1, 3))
    return tuple(b[i:]) if rng.random() < 0.5 else tuple(b)


# ---------------------------------------------------------------------------
# Eigensolves
# ---------------------------------------------------------------------------

NAMES = ["xx", "xy", "yx", "yy", "zz"]


def eigensolve(ctx, rng):
    s = _setup(ctx, rng)
    api = ("iso", "aniso", "general")[ctx.index % 3]
    uniform = bool((ctx.index // 3) % 2)
    f = gen.FFT
    mshape = (1, 1) if uniform else s["shape"]
    if not uniform and rng.random() < 0.4:
        f = gen.custom_vector_fn(*gen.custom_tfield(rng, mshape)[1:])
        s["k"], s["wl"], s["batch"] = s["k"][(0,) * (s["k"].ndim - 1)], s["wl"].ravel()[0], ()
    ebatch = s["batch"] if s["batch"] and rng.random() < 0.5 and not callable(f) else ()
    arr = lambda lo, hi: rng.uniform(lo, hi, ebatch + mshape)
    z = np.zeros(ebatch + mshape)
    if api == "iso":
        mats = {"permittivity": arr(1, 5)}
        fn = fmm.eigensolve_isotropic_media
    else:
        mats = {f"permittivity_{n}": a for n, a in zip(NAMES, [arr(2, 5), 0.1 + z, 0.1 + z, arr(2, 5), arr(2, 5)])}
        fn = fmm.eigensolve_anisotropic_media
    if api == "general":
        mats.update({f"permeability_{n}": a for n, a in zip(NAMES, [arr(1, 2), 0.1 + z, 0.1 + z, arr(1, 2), arr(1, 2)])})
        fn = fmm.eigensolve_general_anisotropic_media
    ctx.describe(api=api, uniform=uniform, ebatch=ebatch)
    ctx.tag(api=api, uniform=uniform, custom=not isinstance(f, gen.F))
    base = dict(wavelength=s["wl"], in_plane_wavevector=s["k"], primitive_lattice_vectors=s["lat"], expansion=s["exp"], formulation=f)
    base.update({a: jnp.asarray(b) for a, b in mats.items()})
    run = lambda **kw: fn(**{**base, **kw})
    r = _call(ctx, api, run)
    B = np.broadcast_shapes(s["wl"].shape, s["k"].shape[:-1], ebatch)
    ctx.true("valid_accepted", r.eigenvalues.shape == B + (2 * s["n"],), got=r.eigenvalues.shape)
    _reject(ctx, "wavevector", f"{api} wavevector", lambda: run(in_plane_wavevector=_bad_vec(rng, s["k"])))
    names = list(mats)
    if len(names) > 1:
        nm = names[int(rng.integers(len(names)))]
        a = mats[nm]
        variants = [
            np.concatenate([a, a[..., :1, :]], -2), np.concatenate([a, a[..., :, :1]], -1), a[None] if a.ndim > 2 else np.stack([a, a]),
        ]
        if not uniform:
            # A row or a single value also would broadcast against the others.
            variants += [a[..., :1, :], a[..., :, :1], a[..., :1, :1], a[..., :-1, :]]
            if mshape[0] != mshape[1]:
                variants.append(np.swapaxes(a, -1, -2))
        for i in rng.permutation(len(variants))[:2]:
            bad = variants[i]
            if bad.shape == a.shape:
                continue
            _reject(ctx, "material_shape", f"{api} {nm} {bad.shape} vs {a.shape}", lambda: run(**{nm: jnp.asarray(bad)}))
    bb = (int(rng.integers(2, 4)),)
    # All material arrays batched incompatibly with the wavelength or wavevector batch.
    b2 = _bad_batch(rng, bb)
    m2 = {k: jnp.asarray(np.broadcast_to(v[(0,) * len(ebatch)], b2 + mshape)) for k, v in mats.items()}
    which = int(rng.integers(3))
    if which == 0:
        kw = dict(wavelength=jnp.asarray(rng.uniform(0.6, 1.4, bb)), in_plane_wavevector=jnp.zeros(2), **m2)
    elif which == 1:
        kw = dict(wavelength=jnp.asarray(1.0), in_plane_wavevector=jnp.asarray(rng.uniform(-1, 1, bb + (2,))), **m2)
    else:
        one = {k: jnp.asarray(v[(0,) * len(ebatch)]) for k, v in mats.items()}
        kw = dict(wavelength=jnp.asarray(rng.uniform(0.6, 1.4, bb)), in_plane_wavevector=jnp.asarray(rng.uniform(-1, 1, b2 + (2,))), **one)
    _reject(ctx, "material_batch", f"{api} batch {which} {bb} {b2}", lambda: run(**kw))
    blat = basis.LatticeVectors(u=jnp.asarray(np.broadcast_to(s["u"], b2 + (2,))), v=jnp.asarray(np.broadcast_to(s["v"], b2 + (2,))))
    one = {k: jnp.asarray(v[(0,) * len(ebatch)]) for k, v in mats.items()}
    _reject(ctx, "material_batch", f"{api} lattice batch", lambda: run(
        primitive_lattice_vectors=blat, wavelength=jnp.asarray(rng.uniform(0.6, 1.4, bb)), in_plane_wavevector=jnp.zeros(2), **one))
    # Grids too small for the orders (never (1, 1), which is a uniform layer).
    ax = int(rng.integers(2))
    sm = list(s["shape"])
    sm[ax] = int(rng.integers(1, s["min"][ax])) if s["min"][ax] > 1 else 0
    other = s["shape"][1 - ax]
    sm[1 - ax] = max(other, 2)
    if sm[ax] > 0:
        small = {k: jnp.asarray(np.broadcast_to(v[(0,) * (v.ndim - 2)][:1, :1], tuple(sm))) for k, v in mats.items()}
        ff = gen.FFT if rng.random() < 0.6 else gen.VECTOR_FORMULATIONS[int(rng.integers(8))]
        _reject(ctx, "grid", f"{api} grid {sm} min {s['min']}", lambda: run(wavelength=jnp.asarray(1.0), in_plane_wavevector=jnp.zeros(2), formulation=ff, **small))
    if api == "general" and not uniform and not ebatch:
        src = jnp.asarray(rng.uniform(1, 5, tuple(m - 1 for m in s["min"])))
        _reject(ctx, "grid", "vector_field_source too small", lambda: run(formulation=gen.F.POL, vector_field_source=src, wavelength=jnp.asarray(1.0), in_plane_wavevector=jnp.zeros(2)))


# ---------------------------------------------------------------------------
# Bases, expansions, Fourier transforms
# ---------------------------------------------------------------------------


def bases(ctx, rng):
    s = _setup(ctx, rng)
    lat, exp, G, n = s["lat"], s["exp"], s["G"], s["n"]
    # Lattice vectors.
    u, v = np.asarray(s["u"]), np.asarray(s["v"])
    b = [(), (2,), (3, 2)][int(rng.integers(3))]
    uu, vv = [np.broadcast_to(x, b + (2,)) for x in (u, v)]
    _call(ctx, "LatticeVectors", lambda: basis.LatticeVectors(u=jnp.asarray(uu), v=jnp.asarray(vv)))
    bad = _bad_vec(rng, uu)
    _reject(ctx, "lattice", f"u {bad.shape}", lambda: basis.LatticeVectors(u=bad, v=jnp.asarray(vv)))
    bad2 = _bad_vec(rng, vv)
    _reject(ctx, "lattice", f"v {bad2.shape}", lambda: basis.LatticeVectors(u=jnp.asarray(uu), v=bad2))
    bad3 = _bad_vec(rng, uu)
    _reject(ctx, "lattice", f"u and v {bad3.shape}", lambda: basis.LatticeVectors(u=bad3, v=bad3))
    # Expansions.
    _call(ctx, "Expansion", lambda: basis.Expansion(basis_coefficients=np.asarray(G)))
    for arr in (G[:, :1], np.concatenate([G, G[:, :1]], 1), G.ravel(), G[None], G.T if n != 2 else G[None]):
        _reject(ctx, "expansion", f"Expansion {arr.shape}", lambda: basis.Expansion(basis_coefficients=np.asarray(arr)))
    _reject(ctx, "expansion", "truncation", lambda: basis.generate_expansion(
        primitive_lattice_vectors=lat, approximate_num_terms=20, truncation=str(rng.choice(["circular", "bogus", "", "CIRCULAR"]))))
    # Brillouin grids.
    good = tuple(int(x) for x in rng.integers(1, 5, 2))
    _call(ctx, "brillouin", lambda: basis.brillouin_zone_in_plane_wavevector(good, lat))
    g = int(rng.integers(1, 5))
    m = -int(rng.integers(0, 4))
    for sh in ((g, m), (m, g), (m, m), (g,), (g, g, g), (0, 0)):
        _reject(ctx, "brillouin_grid", str(sh), lambda: basis.brillouin_zone_in_plane_wavevector(sh, lat))
    # Wavevectors.
    kk = rng.uniform(-1, 1, s["batch"] + (2,))
    _call(ctx, "transverse_wavevectors", lambda: basis.transverse_wavevectors(jnp.asarray(kk), lat, exp))
    _reject(ctx, "wavevector", "transverse_wavevectors", lambda: basis.transverse_wavevectors(_bad_vec(rng, kk), lat, exp))
    # Fourier transforms.
    sh = s["shape"]
    lead = [(), (2,), (3, 2)][int(rng.integers(3))]
    x = jnp.asarray(rng.normal(size=lead + sh))
    for nm, f in (("fft", fft.fft), ("fourier_convolution_matrix", fft.fourier_convolution_matrix)):
        _call(ctx, nm, lambda: f(x, exp))
        ax = int(rng.integers(2))
        sm = list(sh)
        sm[ax] = int(rng.integers(1, s["min"][ax])) if s["min"][ax] > 1 else 0
        if sm[ax] == 0:
            continue
        _reject(ctx, "grid", f"{nm} {sm}", lambda: f(jnp.asarray(rng.normal(size=lead + tuple(sm))), exp))
        y = jnp.asarray(rng.normal(size=lead + (n,)))
        _reject(ctx, "grid", f"ifft {sm}", lambda: fft.ifft(y, exp, tuple(sm)))
    y = jnp.asarray(rng.normal(size=lead + (n,)))
    _call(ctx, "ifft", lambda: fft.ifft(y, exp, sh))
    dn = int(rng.choice([-1, 1, 2]))
    _reject(ctx, "field_size", "ifft coefficients", lambda: fft.ifft(jnp.asarray(rng.normal(size=lead + (n + dn,))), exp, sh))
    _reject(ctx, "field_size", "ifft one coefficient", lambda: fft.ifft(jnp.asarray(rng.normal(size=lead + (1,))), exp, sh))
    nd = x.ndim
    dup = [(-1, -1), (-2, -2), (nd - 1, -1), (-2, nd - 2), (nd - 1, nd - 1)]
    oob = [(-2, nd), (-nd - 1, -1), (nd, nd + 1), (nd - 1, nd)]
    for a in (dup[int(rng.integers(len(dup)))], oob[int(rng.integers(len(oob)))]):
        _reject(ctx, "axes", f"fft axes {a} ndim {nd}", lambda: fft.fft(x, exp, axes=a))
        _reject(ctx, "axes", f"absolute_axes {a} ndim {nd}", lambda: utils.absolute_axes(a, nd))
    _reject(ctx, "axes", "ifft axis", lambda: fft.ifft(y, exp, sh, axis=int(rng.choice([y.ndim, -y.ndim - 1]))))
    nd = int(rng.integers(1, 7))
    ax = [int(a) for a in rng.permutation(nd)[: int(rng.integers(1, nd + 1))]]
    mixed = tuple(a - nd if rng.random() < 0.5 else a for a in ax)
    ctx.true("valid_accepted", utils.absolute_axes(mixed, nd) == tuple(ax), call="absolute_axes")
    _reject(ctx, "axes", "absolute_axes duplicate", lambda: utils.absolute_axes(mixed + (ax[0] if rng.random() < 0.5 else ax[0] - nd,), nd))
    _reject(ctx, "axes", "absolute_axes range", lambda: utils.absolute_axes(mixed[:-1] + (int(rng.choice([nd, -nd - 1, nd + 3])),), nd))
    # PML.
    px, py = int(rng.integers(6, 12)), int(rng.integers(6, 12))
    e = jnp.asarray(rng.uniform(1, 3, (px, py)))
    ok = pml.PMLParams(num_x=int(rng.integers(0, px // 2)), num_y=int(rng.integers(0, py // 2)))
    _call(ctx, "pml", lambda: pml.apply_uniaxial_pml(e, ok))
    for a, c in (((px + 1) // 2 + int(rng.integers(0, 4)), 1), (1, (py + 1) // 2 + int(rng.integers(0, 4))), (px, py), (-1, 2), (2, -1)):
        _reject(ctx, "pml_width", f"{(a, c)} on {(px, py)}", lambda: pml.apply_uniaxial_pml(e, pml.PMLParams(num_x=a, num_y=c)))


# ---------------------------------------------------------------------------
# Fields, amplitudes
# ---------------------------------------------------------------------------


def _uniform(s, rng, wl=None, k=None, lat=None):
    return fmm.eigensolve_isotropic_media(
        wavelength=s["wl"] if wl is None else wl, in_plane_wavevector=s["k"] if k is None else k, primitive_lattice_vectors=s["lat"] if lat is None else lat,
        permittivity=jnp.asarray([[rng.uniform(1, 4)]]), expansion=s["exp"], formulation=gen.FFT)


def _bad_amp(rng, B, m, cols):
    """An amplitude array whose mode axis (or batch) does not fit 2N = m modes."""
    r = int(rng.integers(6))
    if r == 0:
        return "one_more", scene.crandn(rng, *B, m + 1, cols)
    if r == 1:
        return "one_less", scene.crandn(rng, *B, m - 1, cols)
    if r == 2:
        return "half", scene.crandn(rng, *B, m // 2, cols)
    if r == 3:
        return "single", scene.crandn(rng, *B, 1, cols)
    if r == 4:
        return "double", scene.crandn(rng, *B, 2 * m, cols)
    return "transposed", scene.crandn(rng, *B, cols, m)


def amplitudes(ctx, rng):
    s = _setup(ctx, rng)
    r = _uniform(s, rng)
    B, n = r.batch_shape, s["n"]
    cols = int(rng.choice([1, 2, 3]))
    a, b = [jnp.asarray(scene.crandn(rng, *B, 2 * n, cols)) for _ in range(2)]
    fns = {
        "propagate_amplitude": (1, lambda x: fields.propagate_amplitude(x, jnp.asarray(0.1), r)),
        "colocate_amplitudes": (2, lambda x, y: fields.colocate_amplitudes(x, y, jnp.asarray(0.1), r, jnp.asarray(0.3))),
        "amplitude_poynting_flux": (2, lambda x, y: fields.amplitude_poynting_flux(x, y, r)),
        "directional_poynting_flux": (2, lambda x, y: fields.directional_poynting_flux(x, y, r)),
        "fields_from_wave_amplitudes": (2, lambda x, y: fields.fields_from_wave_amplitudes(x, y, r)),
    }
    S = scattering.stack_s_matrix((r, r), (jnp.asarray(0.1), jnp.asarray(0.2)))
    fns["amplitudes_interior"] = (2, lambda x, y: fields.amplitudes_interior(S, S, x, y))
    fns["stack_amplitudes_interior"] = (2, lambda x, y: fields.stack_amplitudes_interior(((S, S), (S, S)), x, y))
    for nm, (na, f) in fns.items():
        args = (a, b)[:na]
        _call(ctx, nm, lambda: f(*args))
        for i in range(na):
            kind, bad = _bad_amp(rng, B, 2 * n, cols)
            ctx.tag(bad_amplitude=kind)
            bad = list(args[:i]) + [jnp.asarray(bad)] + list(args[i + 1 :])
            _reject(ctx, "amplitude_size", f"{nm} arg {i} {kind} {[x.shape for x in bad]}", lambda: f(*bad))
            flat = list(args[:i]) + [args[i][(0,) * (len(B) + 0) + (Ellipsis, 0)] if len(B) == 0 else args[i][(0,) * len(B)][:, 0]] + list(args[i + 1 :])
            _reject(ctx, "amplitude_size", f"{nm} arg {i} vector without column axis", lambda: f(*flat))
            if na == 2 and cols > 1:
                mis = list(args[:i]) + [jnp.asarray(scene.crandn(rng, *B, 2 * n, cols + 1))] + list(args[i + 1 :])
                _reject(ctx, "amplitude_size", f"{nm} columns differ", lambda: f(*mis))
        if na == 2:
            kind, bad = _bad_amp(rng, B, 2 * n, cols)
            bad = jnp.asarray(bad)
            _reject(ctx, "amplitude_size", f"{nm} both {kind}", lambda: f(bad, bad))
        # Leading batch incompatible with the layer's.
        if B:
            nb = _bad_batch(rng, B)
            bad = jnp.asarray(scene.crandn(rng, *nb, 2 * n, cols))
            _reject(ctx, "amplitude_size", f"{nm} batch {nb} vs {B}", lambda: f(*([bad] * na)))


def grids(ctx, rng):
    s = _setup(ctx, rng)
    r = _uniform(s, rng)
    B, n = r.batch_shape, s["n"]
    cols = int(rng.choice([1, 2, 3]))
    ef = tuple(jnp.asarray(scene.crandn(rng, *B, n, cols)) for _ in range(3))
    hf = tuple(jnp.asarray(scene.crandn(rng, *B, n, cols)) for _ in range(3))
    cells = tuple(int(c) for c in rng.integers(1, 3, 2))
    x, y = [jnp.asarray(t) for t in rng.uniform(-1, 1, (2, 4))]
    fns = {
        "fields_on_grid": lambda e, h: fields.fields_on_grid(e, h, r, s["shape"], cells),
        "fields_on_coordinates": lambda e, h: fields.fields_on_coordinates(e, h, r, x, y),
    }
    for nm, f in fns.items():
        _call(ctx, nm, lambda: f(ef, hf))
        i = int(rng.integers(3))
        side = int(rng.integers(2))
        kind, bad = _bad_amp(rng, B, n, cols)
        if kind == "transposed" and cols == n:
            continue
        fl = [list(ef), list(hf)]
        fl[side][i] = jnp.asarray(bad)
        ctx.tag(bad_field=f"{side}{i}:{kind}")
        _reject(ctx, "field_size", f"{nm} component {side}{i} {kind}", lambda: f(tuple(fl[0]), tuple(fl[1])))
        allbad = jnp.asarray(bad)
        _reject(ctx, "field_size", f"{nm} all {kind}", lambda: f((allbad,) * 3, (allbad,) * 3))
        _reject(ctx, "field_size", f"{nm} two components", lambda: f(ef[:2], hf))
        _reject(ctx, "field_size", f"{nm} four components", lambda: f(ef, hf + hf[:1]))
    ax = int(rng.integers(2))
    sm = list(s["shape"])
    sm[ax] = int(rng.integers(1, s["min"][ax]))
    _reject(ctx, "grid", f"fields_on_grid {sm}", lambda: fields.fields_on_grid(ef, hf, r, tuple(sm), cells))
    yy = jnp.asarray(rng.uniform(-1, 1, int(rng.choice([1, 3, 5]))))
    _reject(ctx, "coordinates", "x, y differ", lambda: fields.fields_on_coordinates(ef, hf, r, x, yy))
    _reject(ctx, "coordinates", "x, y transposed", lambda: fields.fields_on_coordinates(ef, hf, r, x[:, None], y[None, :]))


def stacks(ctx, rng):
    s = _setup(ctx, rng)
    m = int(rng.integers(2, 5))
    rs = tuple(_uniform(s, rng) for _ in range(m))
    ds = tuple(jnp.asarray(float(d)) for d in rng.uniform(0.05, 0.5, m))
    B, n = rs[0].batch_shape, s["n"]
    ctx.describe(m=m)
    fns = {
        "stack_s_matrix": lambda a, b: scattering.stack_s_matrix(a, b),
        "stack_s_matrices_interior": lambda a, b: scattering.stack_s_matrices_interior(a, b),
    }
    for nm, f in fns.items():
        _call(ctx, nm, lambda: f(rs, ds))
        for a, b in ((rs[:-1], ds), (rs, ds[:-1]), (rs + rs[:1], ds), (rs, ds + ds[:1]), (rs, ds[:1]), (rs, ())):
            if len(a) == len(b):
                continue
            _reject(ctx, "lengths", f"{nm} {len(a)} layers {len(b)} thicknesses", lambda: f(a, b))
        _reject(ctx, "lengths", f"{nm} empty", lambda: f((), ()))
    if not B:
        import jax

        st = jax.tree_util.tree_map(lambda *t: jnp.stack(t), *rs)
        d = jnp.stack(ds)
        _call(ctx, "scan", lambda: scattering.stack_s_matrix_scan(st, d))
        bads = [d[:-1], jnp.concatenate([d, d[:1]]), d[:, None], d[0]]
        for q in bads:
            _reject(ctx, "lengths", f"scan thickness {q.shape} for {m}", lambda: scattering.stack_s_matrix_scan(st, q))
    # Layers with different expansions do not fit together.
    G2 = gen.orders(rng, n + 2, max_order=2)
    r2 = _uniform({**s, "exp": gen.expansion(G2)}, rng)
    mixed = rs[:-1] + (r2,)
    S = scattering.stack_s_matrix(rs, ds)
    S2 = scattering.stack_s_matrix((r2, r2), ds[:2])
    t = jnp.asarray(0.2)
    _reject(ctx, "lengths", "layers of different expansions", lambda: scattering.stack_s_matrix(mixed, ds))
    _reject(ctx, "lengths", "append of a different expansion", lambda: scattering.append_layer(S, r2, t))
    _reject(ctx, "lengths", "prepend of a different expansion", lambda: scattering.prepend_layer(S, r2, t))
    _reject(ctx, "lengths", "star product of different expansions", lambda: scattering.redheffer_star_product(S, S2))
    # Three-dimensional fields.
    cols = int(rng.choice([1, 2]))
    amps = tuple((jnp.asarray(scene.crandn(rng, *B, 2 * n, cols)), jnp.asarray(scene.crandn(rng, *B, 2 * n, cols))) for _ in range(m))
    zn = tuple(int(z) for z in rng.integers(1, 4, m))
    x, y = [jnp.asarray(q) for q in rng.uniform(-1, 1, (2, 3))]
    calls = {
        "stack_fields_3d": lambda a, l, d, z: fields.stack_fields_3d(
            amplitudes_interior=a, layer_solve_results=l, layer_thicknesses=d, layer_znum=z, grid_shape=s["shape"], num_unit_cells=(1, 1)),
        "stack_fields_3d_on_coordinates": lambda a, l, d, z: fields.stack_fields_3d_on_coordinates(
            amplitudes_interior=a, layer_solve_results=l, layer_thicknesses=d, layer_znum=z, x=x, y=y),
        "stack_fields_3d_auto_grid": lambda a, l, d, z: fields.stack_fields_3d_auto_grid(
            amplitudes_interior=a, layer_solve_results=l, layer_thicknesses=d, grid_spacing=0.02, num_unit_cells=(1, 1)),
    }
    if B:  # the three-dimensional field functions are exercised without leading batch axes
        return
    for nm, f in calls.items():
        _call(ctx, nm, lambda: f(amps, rs, ds, zn))
        for j in range(4):
            if nm.endswith("auto_grid") and j == 3:
                continue
            seqs = [amps, rs, ds, zn]
            seqs[j] = seqs[j][:-1] if rng.random() < 0.5 else seqs[j] + seqs[j][:1]
            _reject(ctx, "lengths", f"{nm} sequence {j} of {m} has {len(seqs[j])}", lambda: f(*seqs))
        kind, bad = _bad_amp(rng, (), 2 * n, cols)
        i = int(rng.integers(m))
        j = int(rng.integers(2))
        pair = list(amps[i])
        pair[j] = jnp.asarray(bad)
        ba = amps[:i] + (tuple(pair),) + amps[i + 1 :]
        _reject(ctx, "amplitude_size", f"{nm} layer {i} amplitude {j} {kind}", lambda: f(ba, rs, ds, zn))
    lay = {
        "layer_fields_3d": lambda a, b: fields.layer_fields_3d(a, b, rs[0], ds[0], 2, s["shape"], (1, 1)),
        "layer_fields_3d_on_coordinates": lambda a, b: fields.layer_fields_3d_on_coordinates(a, b, rs[0], ds[0], 2, x, y),
    }
    for nm, f in lay.items():
        _call(ctx, nm, lambda: f(*amps[0]))
        kind, bad = _bad_amp(rng, (), 2 * n, cols)
        pair = list(amps[0])
        pair[int(rng.integers(2))] = jnp.asarray(bad)
        _reject(ctx, "amplitude_size", f"{nm} {kind}", lambda: f(*pair))


# ---------------------------------------------------------------------------
# Sources
# ---------------------------------------------------------------------------


def currents(ctx, rng):
    s = _setup(ctx, rng)
    r1, r2 = _uniform(s, rng), _uniform(s, rng)
    B, n = r1.batch_shape, s["n"]
    d = jnp.asarray(0.2)
    Sb, Sa = scattering.stack_s_matrix((r1, r2), (d, d)), scattering.stack_s_matrix((r2, r1), (d, d))
    m = int(rng.integers(1, 4))
    loc = jnp.asarray(rng.uniform(-0.5, 0.5, (m, 2)))
    k = jnp.asarray(np.broadcast_to(np.asarray(s["k"]), B + (2,)))
    src = {
        "dirac_delta_source": lambda l, q: sources.dirac_delta_source(l, q, s["lat"], s["exp"]),
        "gaussian_source": lambda l, q: sources.gaussian_source(jnp.asarray(0.2), l, q, s["lat"], s["exp"]),
    }
    for nm, f in src.items():
        j = _call(ctx, nm, lambda: f(loc, k))
        ctx.true("valid_accepted", j.shape == B + (n, m), got=j.shape)
        for bad in (_bad_vec(rng, loc), loc[0], loc[None], loc.ravel()[:2]):
            _reject(ctx, "location", f"{nm} {bad.shape}", lambda: f(bad, k))
        _reject(ctx, "wavevector", nm, lambda: f(loc, _bad_vec(rng, k)))
    z = jnp.zeros_like(j)
    fns = {
        "amplitudes_for_source": lambda a, b, c: sources.amplitudes_for_source(a, b, c, Sb, Sa),
        "polarization_terms": lambda a, b, c: sources.polarization_terms(a, b, c, r2),
    }
    for nm, f in fns.items():
        _call(ctx, nm, lambda: f(j, z, j))
        i = int(rng.integers(3))
        variants = [
            ("columns", jnp.asarray(scene.crandn(rng, *B, n, m + 1))), ("rows", jnp.asarray(scene.crandn(rng, *B, n + 1, m))),
            ("one_row", jnp.asarray(scene.crandn(rng, *B, 1, m))), ("extra_axis", j[None]), ("vector", j[(0,) * len(B)][:, 0]),
        ]
        if m > 1:
            variants.append(("one_column", j[..., :1]))
        kind, bad = variants[int(rng.integers(len(variants)))]
        ctx.tag(bad_current=kind)
        args = [j, z, j]
        args[i] = bad
        _reject(ctx, "current_shape", f"{nm} component {i} {kind}", lambda: f(*args))
        dn = int(rng.choice([-1, 1, n]))
        wrong = jnp.asarray(scene.crandn(rng, *B, n + dn, m))
        _reject(ctx, "current_shape", f"{nm} {n + dn} orders for {n}", lambda: f(wrong, wrong, wrong))
        one = jnp.asarray(scene.crandn(rng, *B, 1, m))
        _reject(ctx, "current_shape", f"{nm} one order for {n}", lambda: f(one, one, one))
        vec = j[(0,) * len(B)][:, 0]
        _reject(ctx, "current_shape", f"{nm} vectors", lambda: f(vec, vec, vec))
        if B:
            nb = _bad_batch(rng, B)
            w = jnp.asarray(scene.crandn(rng, *nb, n, m))
            _reject(ctx, "current_shape", f"{nm} batch {nb} vs {B}", lambda: f(w, w, w))


def supercells(ctx, rng):
    s = _setup(ctx, rng)
    bz = tuple(int(b) for b in rng.integers(1, 4, 2))
    if bz == (1, 1):
        bz = (2, 3)
    k = basis.brillouin_zone_in_plane_wavevector(bz, s["lat"])
    r = _uniform(s, rng, wl=jnp.asarray(float(np.ravel(s["wl"])[0])), k=k)
    cell = s["shape"]
    m = int(rng.integers(1, 3))
    ctx.describe(bz=bz, m=m)
    ctx.tag(bz=str(bz))
    fs = [jnp.asarray(scene.crandn(rng, 1, 1, bz[0] * cell[0], bz[1] * cell[1], m)) for _ in range(4)]
    f = lambda q, axes=(0, 1): sources.amplitudes_for_fields(*q, layer_solve_result=r, brillouin_grid_axes=axes)
    a, b = _call(ctx, "amplitudes_for_fields", lambda: f(fs))
    ctx.true("valid_accepted", a.shape == b.shape == bz + (2 * s["n"], m), got=a.shape)
    for ax in (0, 1):
        if bz[ax] == 1:
            continue
        sh = [bz[0] * cell[0], bz[1] * cell[1]]
        sh[ax] += int(rng.integers(1, bz[ax]))
        bad = [jnp.asarray(scene.crandn(rng, 1, 1, *sh, m)) for _ in range(4)]
        _reject(ctx, "supercell", f"{sh} over {bz}", lambda: f(bad))
        # Too few points per unit cell for the expansion.
        sh = [bz[0] * cell[0], bz[1] * cell[1]]
        sh[ax] = bz[ax] * (s["min"][ax] - 1)
        bad2 = [jnp.asarray(scene.crandn(rng, 1, 1, *sh, m)) for _ in range(4)]
        _reject(ctx, "grid", f"supercell {sh} over {bz}", lambda: f(bad2))
    i = int(rng.integers(4))
    q = fs[i]
    kinds = [q[..., :-1, :], q[..., :-1, :, :], jnp.concatenate([q, q[..., :1]], -1), q[0], q[..., 0], q[..., :1, :], q[..., :1, :, :]]
    bad = list(fs)
    bad[i] = kinds[int(rng.integers(len(kinds)))]
    _reject(ctx, "field_size", f"amplitudes_for_fields component {i} {bad[i].shape}", lambda: f(bad))
    nd = fs[0].ndim
    for axes in ((0, 0), (0, -nd), (1, 1), (0, nd), (-nd - 1, 1)):
        _reject(ctx, "axes", f"amplitudes_for_fields {axes}", lambda: f(fs, axes))
    nb = _bad_batch(rng, tuple(max(2, z) for z in bz))
    if max(bz) > 1:
        nb = (bz[0] + 1 if bz[0] > 1 else 1, bz[1] + 1 if bz[1] > 1 else 1)
        bad = [jnp.asarray(scene.crandn(rng, *nb, bz[0] * cell[0], bz[1] * cell[1], m)) for _ in range(4)]
        _reject(ctx, "field_size", f"amplitudes_for_fields batch {nb} vs {bz}", lambda: f(bad))
    # Far field.
    flux = jnp.asarray(rng.uniform(0, 1, bz + (2 * s["n"], m)))
    wl = r.wavelength
    ff = {
        "farfield_profile": lambda x, axes: farfield.farfield_profile(x, wl, k, s["lat"], s["exp"], axes),
        "integrated_flux": lambda x, axes: farfield.integrated_flux(x, wl, k, s["lat"], s["exp"], axes, lambda p, az: p < 1.0, 1),
        "unflatten_flux": lambda x, axes: farfield.unflatten_flux(x, s["exp"], axes),
    }
    for nm, g in ff.items():
        _call(ctx, nm, lambda: g(flux, (0, 1)))
        for axes in ((0, 0), (0, -4), (1, 4), (-5, 1), (1, 1)):
            _reject(ctx, "axes", f"{nm} {axes}", lambda: g(flux, axes))
        w = jnp.asarray(rng.uniform(0, 1, bz + (2 * s["n"] + int(rng.choice([-1, 1])), m)))
        _reject(ctx, "field_size", f"{nm} flux size", lambda: g(w, (0, 1)))
        h = jnp.asarray(rng.uniform(0, 1, bz + (s["n"], m)))
        _reject(ctx, "field_size", f"{nm} one polarization", lambda: g(h, (0, 1)))
    kt = basis.transverse_wavevectors(k, s["lat"], s["exp"])
    _call(ctx, "unflatten_transverse_wavevectors", lambda: farfield.unflatten_transverse_wavevectors(kt, s["exp"], (0, 1)))
    for axes in ((0, 0), (1, 4), (-5, 0)):
        _reject(ctx, "axes", f"unflatten_transverse_wavevectors {axes}", lambda: farfield.unflatten_transverse_wavevectors(kt, s["exp"], axes))
    _reject(ctx, "field_size", "unflatten_transverse_wavevectors size", lambda: farfield.unflatten_transverse_wavevectors(kt[..., :-1, :], s["exp"], (0, 1)))
    _reject(ctx, "field_size", "unflatten size", lambda: farfield.unflatten(kt[..., :-1, 0], s["exp"]))


def results(ctx, rng):
    """A solve result whose parts contradict each other cannot be built."""
    s = _setup(ctx, rng)
    r = _uniform(s, rng)
    B, n = r.batch_shape, s["n"]
    _call(ctx, "LayerSolveResult", lambda: dataclasses.replace(r))
    w = np.asarray(r.wavelength)
    bads = {
        "wavelength": [jnp.ones(B + (2,)), jnp.ones((5, 2) if B else (2,))],
        "in_plane_wavevector": [jnp.ones(r.in_plane_wavevector.shape[:-1] + (m,)) for m in (3, 4)] + [jnp.ones((7,) + B + (2,))],
        "expansion": [gen.expansion(gen.orders(rng, n + 2, max_order=2)), gen.expansion(s["G"][:-1]), gen.expansion(s["G"][:1])],
        "eigenvalues": [r.eigenvalues[..., :-1], r.eigenvalues[None], r.eigenvalues[..., :1]],
        "eigenvectors": [r.eigenvectors[..., :-1], r.eigenvectors[..., :-1, :-1], r.eigenvectors[..., :-2, :-2]],
        "primitive_lattice_vectors": [gen.lv(np.ones((7,) + B + (2,)), np.full((7,) + B + (2,), 2.0)),
                                      basis.LatticeVectors(u=r.primitive_lattice_vectors.u, v=jnp.ones((7,) + B + (2,)))],
    }
    for nm in ("z_permittivity_matrix", "inverse_z_permittivity_matrix", "z_permeability_matrix", "inverse_z_permeability_matrix"):
        m = getattr(r, nm)
        bads[nm] = [m[..., :-1], m[..., :-1, :-1], m[None], jnp.ones(B + (2 * n, 2 * n))]
    m = r.transverse_permeability_matrix
    bads["transverse_permeability_matrix"] = [m[..., :-1], m[..., :n, :n], m[None]]
    bads["tangent_vector_field"] = [(jnp.ones(s["shape"] if B else s["shape"][:1]), jnp.ones(s["shape"] if B else s["shape"][:1]))]
    for nm, bs in bads.items():
        bad = bs[int(rng.integers(len(bs)))]
        ctx.tag(solve_result_part=nm)
        _reject(ctx, "solve_result", f"{nm} {getattr(bad, 'shape', bad)}", lambda: dataclasses.replace(r, **{nm: bad}))


PROFILES = {
    "eigensolve": dict(fn=eigensolve, quick=60, split=4, cost=0.4),
    "bases": dict(fn=bases, quick=40, split=2, cost=0.3),
    "amplitudes": dict(fn=amplitudes, quick=30, split=3, cost=0.5),
    "grids": dict(fn=grids, quick=40, split=2, cost=0.3),
    "stacks": dict(fn=stacks, quick=22, split=4, cost=1.0),
    "currents": dict(fn=currents, quick=30, split=3, cost=0.5),
    "supercells": dict(fn=supercells, quick=22, split=4, cost=0.9),
    "results": dict(fn=results, quick=40, split=2, cost=0.2),
}
