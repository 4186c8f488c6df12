"""Runs the monitors of one property:  python -m vk.run C01 [--replay FILE].

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: violated.
Exit 2: inconclusive (nothing observed, worker lost, watchdog).
"""

import argparse
import collections
import concurrent.futures as cf
import importlib
import json
import math
import multiprocessing as mp
import os
import pathlib
import sys
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO_SRC = os.environ.get("VK_REPO_SRC", "/repo/src")
WATCHDOG = {"quick": 820.0, "thorough": 7200.0}


def _env():
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["MKL_NUM_THREADS"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["XLA_FLAGS"] = (
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    )
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    sys.dont_write_bytecode = True


def _load(prop):
    """Imports the code under test from the working tree, and the check."""
    if sys.path[0] != REPO_SRC:
        sys.path.insert(0, REPO_SRC)
    import fmmax

    where = os.path.realpath(fmmax.__file__ or "")
    if not where.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise ImportError(f"fmmax imported from {where}, expected {REPO_SRC}")
    return importlib.import_module(f"vk.checks.{prop.lower()}")


def _unit(args):
    prop, profile, seed, start, count, x64 = args
    _env()
    mod = _load(prop)
    import jax
    from vk import core

    jax.config.update("jax_enable_x64", bool(x64))
    ctx = core.Ctx(prop, profile, seed)
    fn = mod.PROFILES[profile]["fn"]
    t0 = time.time()
    for i in range(start, start + count):
        ctx.run_case(fn, i)
        if len(ctx.violations) >= 3:
            break
    out = ctx.result()
    out["secs"] = time.time() - t0
    out["start"] = start
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--profile", help="only this profile")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--inline", action="store_true")
    ap.add_argument("--index", type=int)
    a = ap.parse_args(argv)
    _env()
    prop = a.prop.upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()

    if a.replay:
        r = json.load(open(a.replay))
        mod = _load(prop)
        import jax
        from vk import core

        prof = mod.PROFILES[r["profile"]]
        jax.config.update("jax_enable_x64", bool(prof.get("x64", True)))
        ctx = core.Ctx(prop, r["profile"], r["seed"])
        ctx.run_case(prof["fn"], r["index"])
        for v in ctx.violations:
            print(json.dumps(v, indent=1))
        print("violations:", len(ctx.violations))
        if ctx.violations:
            print(f"VIOLATION property={prop} replay={a.replay}")
        return 1 if ctx.violations else 0

    # The parent needs only the profile table; the check modules import fmmax,
    # so an unimportable tree is reported here.
    try:
        mod = _load(prop)
    except Exception as e:  # broken tree: nothing can be observed
        print(f"INCONCLUSIVE property={prop} cannot load: {type(e).__name__}: {e}")
        return 2

    units = []
    for name, p in mod.PROFILES.items():
        if a.profile and name != a.profile:
            continue
        n = p["quick"] if tier == "quick" else p.get("thorough", p["quick"] * 12)
        n = max(1, int(math.ceil(n * a.scale)))
        chunk = p.get("chunk", max(1, math.ceil(p["quick"] / p.get("split", 1))))
        cost = p.get("cost", 1.0)
        start = 0
        if a.index is not None:
            units.append((cost, (prop, name, seed, a.index, 1, p.get("x64", True))))
            continue
        while start < n:
            c = min(chunk, n - start)
            units.append((cost * c, (prop, name, seed, start, c, p.get("x64", True))))
            start += c
    # Longest first; ties keep order.
    units.sort(key=lambda u: -u[0])
    units = [u for _, u in units]

    results, lost = [], []
    workers = int(os.environ.get("VK_WORKERS", "8"))
    nviol = 0
    if a.inline or a.index is not None:
        for u in units:
            results.append(_unit(u))
    else:
        ex = cf.ProcessPoolExecutor(
            max_workers=min(workers, len(units)), mp_context=mp.get_context("spawn")
        )
        futs = {ex.submit(_unit, u): u for u in units}
        pending = set(futs)
        try:
            while pending:
                left = WATCHDOG[tier] - (time.time() - t0)
                if left <= 0:
                    lost.append("watchdog")
                    break
                done, pending = cf.wait(pending, timeout=min(left, 5), return_when=cf.FIRST_COMPLETED)
                for f in done:
                    if f.cancelled():
                        continue
                    e = f.exception()
                    if e is not None:
                        lost.append(f"{futs[f][1]}: {type(e).__name__}: {e}")
                    else:
                        results.append(f.result())
                        nviol += len(results[-1]["violations"])
                if nviol >= 3:
                    for f in pending:
                        f.cancel()
                    pending = {f for f in pending if not f.cancelled()}
        finally:
            procs = list(getattr(ex, "_processes", {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            if lost:
                for pr in procs:
                    try:
                        pr.kill()
                    except Exception:
                        pass

    # Merge.
    monitors, tags, discards = {}, collections.Counter(), collections.Counter()
    cases, digests, samples, violations = 0, set(), [], []
    secs = collections.Counter()
    known = collections.Counter()
    percase = collections.Counter()
    for r in results:
        cases += r["cases"]
        secs[r["profile"]] += r["secs"]
        percase[r["profile"]] += r["cases"]
        for k, (n, mx, arg) in r["monitors"].items():
            key = f"{r['profile']}/{k}"
            m = monitors.setdefault(key, [0, 0.0, None])
            m[0] += n
            if mx > m[1]:
                m[1], m[2] = mx, arg
        tags.update(r["tags"])
        discards.update(r["discards"])
        digests.update(r["digests"])
        samples.extend(r["samples"][:1])
        violations.extend(r["violations"])
        known.update(r["known"])
    violations.sort(key=lambda v: (v["profile"], v["index"]))

    required = {}
    if not a.profile and a.index is None and a.scale >= 1.0:
        required = getattr(mod, "REQUIRED", {})
    names = collections.Counter()
    for k, m in monitors.items():
        names[k.split("/", 1)[1]] += m[0]
    missing = [k for k, n in required.items() if names.get(k, 0) < n]

    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=cases,
            distinct_nontrivial=len(digests),
            rule=getattr(mod, "RULE", "")
            + " A case is non-trivial when at least one monitor evaluated its oracle on it;"
            " distinct cases differ in the digest of the described inputs.",
            samples=samples[:6],
            oracle_events=sum(m[0] for m in monitors.values()),
            monitors={
                k: dict(events=m[0], max_residual_over_tol=float(f"{m[1]:.3g}"), worst_case=m[2])
                for k, m in sorted(monitors.items())
            },
            scenario_features=dict(sorted(tags.items())),
            discarded=dict(discards),
            seconds_per_profile={k: round(v, 1) for k, v in secs.items()},
            cases_per_profile=dict(percase),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    if known:
        evidence["coverage"]["known_findings_observed"] = dict(known)
    if not a.profile and a.index is None:
        ev = ROOT / "evidence"
        ev.mkdir(exist_ok=True)
        (ev / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))

    if a.verbose:
        for k, m in sorted(monitors.items()):
            print(f"  {k:60s} n={m[0]:7d} max={m[1]:.3g} at {m[2]}")
        print("  tags", dict(sorted(tags.items())))
        print("  discards", dict(discards), "secs", dict(secs), "cases", dict(percase))

    if known:
        from vk import core

        texts = core.load_known().get(prop, {})
        for k in sorted(known):
            print(f"KNOWN-FINDING: property={prop} {k}: {texts.get(k, '')}")
    if violations:
        rd = ROOT / "replays"
        rd.mkdir(exist_ok=True)
        first = None
        for i, v in enumerate(violations[:5]):
            p = rd / f"{prop}-{v['profile']}-s{v['seed']}-i{v['index']}-{i}.json"
            p.write_text(json.dumps(v, indent=1, default=str))
            first = first or p
            print(f"  {v['profile']} case {v['index']} monitor {v['monitor']}: {v['text']} {json.dumps(v['detail'], default=str)[:1500 if a.verbose else 300]}")
        print(f"VIOLATION property={prop} replay={first}")
        return 1
    if lost:
        print(f"INCONCLUSIVE property={prop} lost={lost[:3]}")
        return 2
    if missing or cases == 0:
        print(f"INCONCLUSIVE property={prop} monitors with too few events: {missing}")
        return 2
    print(
        f"HELD property={prop} tier={tier} seed={seed} cases={cases} distinct={len(digests)} "
        f"oracle_events={evidence['coverage']['oracle_events']} wall={evidence['wall_s']}s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
