"""C04: histories of stack operations against a list model and the global boundary-value problem."""

import jax.numpy as jnp
import numpy as np

from fmmax import scattering
from vk import gen, ref, scene

RULE = (
    "Random histories of public scattering-matrix operations (build, scan, append, prepend, star product, interior "
    "pairs, start/end thickness changes, splits, zero-thickness insertions) over a pool of layers; after every operation "
    "the matrix is compared with the global boundary-value solution of a list model of the stack."
)
ASSUMPTIONS = [
    "near-cutoff and ill-conditioned layers (by the reference model) are discarded",
    "stacks are histories of at most 12 operations on pools of up to 4 distinct layers",
]
REQUIRED = {"blocks": 1500, "ends": 300, "interior_before": 100, "interior_after": 100, "split": 40, "scan": 100}


class Pool:
    def __init__(self, results):
        self.r = results
        self.F = [scene.conversion(r).astype(np.complex128) for r in results]
        self.q = [scene.np_(r.eigenvalues).astype(np.complex128) for r in results]

    def ref(self, model):
        return ref.bvp_s([self.F[i] for i, _ in model], [np.exp(1j * self.q[i] * d) for i, d in model])


def _compare(ctx, pool, model, sm, tol, name="blocks", **kw):
    want = pool.ref(model)
    for g, w_, b in zip(scene.sblocks(sm), want, ("s11", "s12", "s21", "s22")):
        ctx.close(name, g, w_, tol, scale=max(1.0, np.max(np.abs(w_))), block=b, layers=len(model), **kw)
    ok = (
        np.allclose(np.asarray(sm.start_layer_thickness), model[0][1], rtol=1e-6, atol=1e-9)
        and np.allclose(np.asarray(sm.end_layer_thickness), model[-1][1], rtol=1e-6, atol=1e-9)
        and np.array_equal(np.asarray(sm.start_layer_solve_result.eigenvalues), np.asarray(pool.r[model[0][0]].eigenvalues))
        and np.array_equal(np.asarray(sm.end_layer_solve_result.eigenvalues), np.asarray(pool.r[model[-1][0]].eigenvalues))
        and np.array_equal(np.asarray(sm.start_layer_solve_result.eigenvectors), np.asarray(pool.r[model[0][0]].eigenvectors))
        and np.array_equal(np.asarray(sm.end_layer_solve_result.eigenvectors), np.asarray(pool.r[model[-1][0]].eigenvectors))
    )
    ctx.true("ends", ok, **kw)


def _build(pool, model, **kw):
    return scattering.stack_s_matrix(
        tuple(pool.r[i] for i, _ in model), tuple(jnp.asarray(d) for _, d in model), **kw
    )


def _history(ctx, rng, s, pool, tol, num_ops, thick_fn):
    npool = len(pool.r)

    def lay():
        return (int(rng.integers(npool)), thick_fn())

    model = [lay() for _ in range(int(rng.integers(1, 4)))]
    x64s = bool(rng.random() < 0.3)
    kw = dict(force_x64_solve=True) if x64s else {}
    sm = _build(pool, model, **kw)
    ops = ["build%d" % len(model)]
    _compare(ctx, pool, model, sm, tol, op=ops[0])
    for _ in range(num_ops):
        op = str(
            rng.choice(["append", "prepend", "star", "rstar", "start", "end", "interior", "split", "zero", "selfstar"],
                       p=[0.17, 0.17, 0.12, 0.08, 0.12, 0.12, 0.06, 0.06, 0.06, 0.04])
        )
        if len(model) > 9 and op in ("append", "prepend", "star", "rstar", "selfstar"):
            op = "start"
        ops.append(op)
        ctx.tag(op=op)
        if op == "append":
            i, d = lay()
            sm = scattering.append_layer(sm, pool.r[i], jnp.asarray(d), **kw)
            model = model + [(i, d)]
        elif op == "prepend":
            i, d = lay()
            sm = scattering.prepend_layer(sm, pool.r[i], jnp.asarray(d), **kw)
            model = [(i, d)] + model
        elif op in ("star", "rstar"):
            other = [lay() for _ in range(int(rng.integers(1, 4)))]
            so = _build(pool, other, **kw)
            if op == "star":
                sm = scattering.redheffer_star_product(sm, so, **kw)
                model = model + other
            else:
                sm = scattering.redheffer_star_product(so, sm, **kw)
                model = other + model
        elif op == "selfstar":
            if len(model) > 4:
                continue
            sm = scattering.redheffer_star_product(sm, sm, **kw)
            model = model + model
        elif op in ("start", "end"):
            # Grow or shrink; shrinking very thick evanescent layers amplifies rounding of the
            # recorded matrix by exp(Im q dd), so the change is limited to |Im q dd| < 3.
            k = 0 if op == "start" else -1
            i, d = model[k]
            lim = 3.0 / max(np.max(pool.q[i].imag), 1e-3)
            nd = float(max(0.0, d + rng.uniform(-1, 1) * min(lim, 1.5 * s["wl"])))
            fn = scattering.set_start_layer_thickness if op == "start" else scattering.set_end_layer_thickness
            out = fn(sm, jnp.asarray(nd))
            if len(model) == 1:
                eye = np.eye(len(pool.q[i]))
                b = scene.sblocks(out)
                holds = (
                    max(np.max(np.abs(b[0] - eye)), np.max(np.abs(b[3] - eye)), np.max(np.abs(b[1])), np.max(np.abs(b[2]))) < 1e-3
                )
                ctx.known("single_layer_set_thickness", holds or nd == d, "single_layer_thickness", d=d, nd=nd)
                continue
            sm = out
            model = list(model)
            model[k] = (i, nd)
        elif op == "interior":
            si = scattering.stack_s_matrices_interior(
                tuple(pool.r[i] for i, _ in model), tuple(jnp.asarray(d) for _, d in model), **kw
            )
            ctx.true("interior_count", len(si) == len(model))
            for j, (bef, aft) in enumerate(si):
                _compare(ctx, pool, model[: j + 1], bef, tol, name="interior_before", op=op)
                _compare(ctx, pool, model[j:], aft, tol, name="interior_after", op=op)
            j = int(rng.integers(len(model)))
            if j < len(model) - 1:  # complementary parts joined give the whole
                sj = scattering.redheffer_star_product(si[j][0], si[j + 1][1], **kw)
                _compare(ctx, pool, model, sj, tol, op="join")
            continue
        elif op == "split":
            if len(model) < 3:
                continue
            j = int(rng.integers(1, len(model) - 1))
            i, d = model[j]
            parts = rng.dirichlet(np.ones(int(rng.integers(2, 5)))) * d
            m2 = model[:j] + [(i, float(p)) for p in parts] + model[j + 1 :]
            ss = _build(pool, m2, **kw)
            _compare(ctx, pool, model, ss, tol, name="split", op=op)
            continue
        elif op == "zero":
            if len(model) < 2:
                continue
            j = int(rng.integers(1, len(model)))
            m2 = model[:j] + [(int(rng.integers(npool)), 0.0)] + model[j:]
            ss = _build(pool, m2, **kw)
            _compare(ctx, pool, model, ss, tol, name="split", op=op)
            continue
        _compare(ctx, pool, model, sm, tol, op="/".join(ops[-3:]))
        if not ctx.true("finite", all(np.all(np.isfinite(b)) for b in scene.sblocks(sm))):
            return
    ctx.describe(ops=ops)
    ctx.tag(final_layers=len(model))


def history(ctx, rng):
    s = scene.setup(ctx, rng, n=5, max_order=2)
    num = int(rng.integers(2, 5))
    layers = scene.random_layers(ctx, rng, num, (10, 9), ambient="any", custom=0.3)
    res = scene.build_stack(ctx, rng, s, layers, [0] * num)
    _history(ctx, rng, s, Pool(res), 1e-6, 10, lambda: scene.thickness(rng, s["wl"])[1])


def lossless(ctx, rng):
    s = scene.setup(ctx, rng, n=int(rng.choice([1, 3, 5])), max_order=1)
    num = int(rng.integers(2, 5))
    layers = scene.random_layers(ctx, rng, num, (10, 9), lossless=True, ambient="any")
    res = scene.build_stack(ctx, rng, s, layers, [0] * num)
    _history(ctx, rng, s, Pool(res), 1e-6, 10, lambda: min(scene.thickness(rng, s["wl"])[1], 2.0))


def scan(ctx, rng):
    """Batched solves with a leading layer axis, scanned, against the loop and the BVP."""
    from fmmax import fmm
    import jax

    s = scene.setup(ctx, rng, n=3, max_order=1)
    num = int(rng.integers(1, 7))
    shape = (7, 8)
    kind = str(rng.choice(["patterned", "uniform"]))
    if kind == "uniform":
        e = np.stack([np.full((1, 1), complex(gen.scalar_eps(rng)[1])) for _ in range(num)])
    else:
        e = np.stack([gen.pattern_eps(rng, shape)[1].astype(complex) for _ in range(num)])
    for x in e:
        scene.check_layer(gen.Layer("x", "iso", [x], gen.unit_mu(x.shape), gen.FFT), s)
    thick = np.array([scene.thickness(rng, s["wl"])[1] for _ in range(num)])
    shared = bool(rng.random() < 0.5)
    wl = np.array(s["wl"]) if shared else np.full((num,), s["wl"])
    ctx.describe(e=e, thick=thick, shared=shared)
    ctx.tag(scan=kind, num_layers=num, shared=shared)
    r = fmm.eigensolve_isotropic_media(
        wavelength=jnp.asarray(wl), in_plane_wavevector=jnp.asarray(s["k0"]), primitive_lattice_vectors=s["lat"],
        permittivity=jnp.asarray(e), expansion=s["exp"], formulation=gen.FFT,
    )
    sm = scattering.stack_s_matrix_scan(r, jnp.asarray(thick))
    per = [jax.tree_util.tree_map(lambda x: jnp.broadcast_to(x, (num,) + x.shape[1:])[i], r) for i in range(num)]
    pool = Pool(per)
    model = [(i, float(d)) for i, d in enumerate(thick)]
    _compare(ctx, pool, model, sm, 1e-6, name="scan")
    loop = scattering.stack_s_matrix(tuple(per), tuple(jnp.asarray(d) for d in thick))
    for g, w_ in zip(scene.sblocks(sm), scene.sblocks(loop)):
        ctx.close("scan_loop", g, w_, 1e-7, scale=max(1.0, np.max(np.abs(w_))))
    # A scan-built matrix is an ordinary one: keep operating on it.
    i, d = int(rng.integers(num)), scene.thickness(rng, s["wl"])[1]
    m2 = scattering.append_layer(sm, per[i], jnp.asarray(d))
    _compare(ctx, pool, model + [(i, d)], m2, 1e-6, name="scan", op="append")
    m3 = scattering.redheffer_star_product(sm, m2)
    _compare(ctx, pool, model + model + [(i, d)], m3, 1e-6, name="scan", op="star")


def x32(ctx, rng):
    s = scene.setup(ctx, rng, n=3, max_order=1)
    num = int(rng.integers(2, 4))
    layers = scene.random_layers(ctx, rng, num, (8, 8), ambient="uniform")
    for l in layers:
        scene.check_layer(l, s, max_cond=100, min_q=0.15)
    res = scene.build_stack(ctx, rng, s, layers, [0] * num, cond=False)
    _history(ctx, rng, s, Pool(res), 3e-2, 4, lambda: min(scene.thickness(rng, s["wl"])[1], 1.0 * s["wl"]))


PROFILES = {
    "history": dict(fn=history, quick=60, split=4, cost=3),
    "lossless": dict(fn=lossless, quick=40, split=2, cost=3),
    "scan": dict(fn=scan, quick=48, split=2),
    "x32": dict(fn=x32, quick=30, x64=False),
}
