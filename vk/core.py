"""Monitor context and case bookkeeping.

A *case* is one randomly generated scenario driven through the public API of
fmmax.  Monitors record *events* (one oracle evaluation each) with a residual
and a tolerance.  A residual above tolerance (or not finite) is a violation, as
is any exception raised on a valid scenario.
"""

import collections
import hashlib
import json
import pathlib
import re
import traceback
import zlib

import numpy as np


class Discard(Exception):
    """The generated scenario is outside the property's numerical domain.

    Raised only on account of generated inputs or of the independent reference
    model, never on account of what the library returned.
    """


KNOWN_FILE = pathlib.Path(__file__).resolve().parent.parent / "KNOWN_FINDINGS.txt"


def load_known():
    """{property: {key: text}} of `known: property=<id> key=<key> <text>` lines."""
    out = {}
    if KNOWN_FILE.exists():
        for line in KNOWN_FILE.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.setdefault(m[1], {})[m[2]] = m[3]
    return out


def case_rng(seed, prop, profile, index):
    return np.random.default_rng(
        [int(seed) & 0x7FFFFFFF, zlib.crc32(prop.encode()), zlib.crc32(profile.encode()), int(index)]
    )


def _small(x):
    """JSON-able abbreviated description of a value."""
    if isinstance(x, (str, bool, int, float)) or x is None:
        return x
    if isinstance(x, complex):
        return f"{x:.6g}"
    if isinstance(x, dict):
        return {str(k): _small(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_small(v) for v in x]
    if isinstance(x, np.generic):
        return _small(x.item())
    try:
        a = np.asarray(x)
        if a.dtype == object:
            return repr(x)[:120]
        if a.size <= 8:
            return [str(v) if np.iscomplexobj(a) else _small(v.item()) for v in a.ravel()]
        return f"array{a.shape}:{a.dtype}:{hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:10]}"
    except Exception:
        return repr(x)[:120]


class Ctx:
    """Collects monitor events for one unit (a run of cases of one profile)."""

    def __init__(self, prop, profile, seed):
        self.prop, self.profile, self.seed = prop, profile, seed
        self.index = None
        self.rng = None
        self.monitors = {}  # name -> [events, max_ratio, argmax index]
        self.tags = collections.Counter()
        self.cases = 0
        self.discards = collections.Counter()
        self.digests = set()
        self.samples = []
        self.violations = []
        self.known_seen = collections.Counter()
        self.listed = set(load_known().get(prop, {}))
        self._desc = {}
        self._digest = None
        self._events_in_case = 0

    # -- scenario -----------------------------------------------------------
    def begin(self, index):
        self.index = index
        self.rng = case_rng(self.seed, self.prop, self.profile, index)
        self._desc = {}
        self._digest = hashlib.sha1()
        self._events_in_case = 0
        self._viol_in_case = 0

    def describe(self, **kw):
        for k, v in kw.items():
            self._desc[k] = _small(v)
            self._digest.update(k.encode())
            self._digest.update(json.dumps(self._desc[k], default=str).encode())

    def tag(self, **kw):
        for k, v in kw.items():
            self.tags[f"{k}={v}"] += 1

    # -- oracles ------------------------------------------------------------
    def expect(self, name, residual, tol, **detail):
        residual = float(residual)
        m = self.monitors.setdefault(name, [0, 0.0, None])
        m[0] += 1
        self._events_in_case += 1
        ratio = residual / tol if tol > 0 else (0.0 if residual == 0 else float("inf"))
        ok = np.isfinite(residual) and residual <= tol
        if ok:
            if ratio > m[1]:
                m[1], m[2] = ratio, self.index
        else:
            self._violate(name, f"residual={residual:.6g} tol={tol:.3g}", detail)
        return ok

    def close(self, name, got, want, tol, scale=None, floor=0.0, **detail):
        """Relative max-norm comparison, shape- and finiteness-strict."""
        try:
            got = np.asarray(got)
            want = np.asarray(want)
        except Exception as e:  # ragged or non-array results
            return self.true(name, False, why=f"not an array: {e}")
        if got.shape != want.shape:
            return self.true(name, False, why=f"shape {got.shape} != {want.shape}", **detail)
        if got.size == 0:
            return self.true(name, False, why="empty result", **detail)
        got = got.astype(np.complex128)
        want = want.astype(np.complex128)
        with np.errstate(all="ignore"):
            err = np.max(np.abs(got - want))
            if scale is None:
                scale = np.max(np.abs(want))
        if not (np.isfinite(scale)):
            return self.true(name, False, why="reference not finite", **detail)
        denom = max(float(scale), float(floor), 1e-300)
        return self.expect(name, err / denom, tol, **detail)

    def true(self, name, cond, **detail):
        return self.expect(name, 0.0 if cond else float("inf"), 1.0, **detail)

    def finite(self, name, *arrays, **detail):
        ok = all(bool(np.all(np.isfinite(np.asarray(a)))) for a in arrays)
        return self.true(name, ok, **detail)

    def raises(self, name, fn, **detail):
        """Any exception is a rejection; returning anything is a violation."""
        try:
            out = fn()
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception:
            return self.true(name, True)
        return self.true(name, False, why="accepted malformed input", got=_small(out) if not isinstance(out, tuple) else "tuple", **detail)

    def known(self, key, holds, name, **detail):
        """An oracle whose failure for exactly this call site is listed in KNOWN_FINDINGS.txt.

        The listed failure is reported as a known finding; when the key is not
        listed, a failure is an ordinary violation.
        """
        m = self.monitors.setdefault(name, [0, 0.0, None])
        m[0] += 1
        self._events_in_case += 1
        if holds:
            return
        if key in self.listed:
            self.known_seen[key] += 1
        else:
            self._violate(name, f"finding {key} is not listed", detail)

    def _violate(self, name, text, detail):
        self._viol_in_case += 1
        if self._viol_in_case > 6 or len(self.violations) > 60:
            return
        self.violations.append(
            dict(
                property=self.prop,
                profile=self.profile,
                seed=self.seed,
                index=self.index,
                monitor=name,
                text=text,
                detail={k: _small(v) for k, v in detail.items()},
                scenario=dict(self._desc),
            )
        )

    def run_case(self, fn, index):
        self.begin(index)
        try:
            fn(self, self.rng)
        except Discard as d:
            self.discards[str(d)] += 1
            return
        except (MemoryError, ImportError, KeyboardInterrupt):
            raise
        except Exception as e:
            self.cases += 1
            tb = traceback.format_exc()
            self._violate(
                "no_exception_on_valid_input",
                f"{type(e).__name__}: {str(e)[:300]}",
                {"traceback": tb[-1500:]},
            )
            return
        self.cases += 1
        if self._events_in_case > 0:
            self.digests.add(self._digest.hexdigest()[:16])
        if len(self.samples) < 2:
            self.samples.append(dict(profile=self.profile, index=index, **self._desc))

    def result(self):
        return dict(
            profile=self.profile,
            monitors=self.monitors,
            tags=dict(self.tags),
            cases=self.cases,
            discards=dict(self.discards),
            digests=list(self.digests),
            samples=self.samples,
            violations=self.violations,
            known=dict(self.known_seen),
        )
