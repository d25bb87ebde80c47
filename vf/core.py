"""Monitor framework: cases, observations, violations, known findings and evidence.

A check is a function ``check(m)`` that drives the real package and reports everything it sees to the monitor ``m``:

* ``with m.case(name, **params)`` opens a case.  An exception that escapes the package on an admissible input is a
  violation, and so is one the oracle raises because what the package returned is not of the documented type, shape or
  name; any other exception of the harness itself is an error of the check (never a verdict).
* ``m.near(...)``, ``m.equal(...)``, ``m.true(...)`` are the oracles' verdicts on one observation.
* ``m.rejects(...)`` demands that the package refuses an input.
* ``m.known(...)`` reports a listed finding (file ``known_findings.txt``).
"""

import contextlib
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX_VIOLATIONS", "12"))

# what an oracle raises when the package hands it something of another type, shape or name than documented
UNUSABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, FileNotFoundError)


class Stop(Exception):
    """Enough violations were collected."""


def from_repo(tb):
    """Whether the exception passed through the package (and not only through the harness)."""
    return any(f.filename.startswith(os.path.join(REPO, "drdmannturb")) for f in traceback.extract_tb(tb))


def as_np(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


class Monitor:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.cases = 0
        self.observations = 0
        self.values = 0
        self.signatures = set()
        self.samples = []
        self.violations = []
        self.findings = {}
        self.margins = {}
        self.counts = {}
        self.rule = ""
        self.assumptions = []
        self.t0 = time.time()
        self._case = None
        self._nontrivial = False

    # ---------------------------------------------------------------- workload helpers
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *key):
        h = hashlib.sha256(repr((self.prop, self.seed) + key).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "little"))

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print(*a, file=sys.__stderr__, flush=True)

    # ---------------------------------------------------------------- cases
    @contextlib.contextmanager
    def case(self, name, **params):
        outer = self._case
        self._case = {"name": name, "params": _plain(params)}
        self._nontrivial = False
        self.cases += 1
        try:
            yield
        except Stop:
            raise
        except Exception as e:
            if not from_repo(e.__traceback__):
                if not isinstance(e, UNUSABLE):
                    raise
                self.violate(
                    f"what the package produced cannot be used as documented: {type(e).__name__}: {e}"[:400],
                    traceback.format_exc()[-1500:],
                )
                return
            self.violate(f"raised {type(e).__name__} on an admissible input: {e}"[:400], traceback.format_exc()[-1500:])
        finally:
            if self._nontrivial:
                sig = hashlib.sha256(json.dumps(self._case, sort_keys=True, default=str).encode()).hexdigest()[:16]
                new = sig not in self.signatures
                self.signatures.add(sig)
                kind = name.split("/")[0]
                self.counts[kind] = self.counts.get(kind, 0) + 1
                if new and self.counts[kind] <= 2 and len(self.samples) < 24:
                    self.samples.append(dict(self._case))
            self._case = outer

    def skip(self, name):
        return self.only is not None and not name.startswith(self.only)

    # ---------------------------------------------------------------- verdicts
    def violate(self, what, detail=None):
        v = {"what": what, "case": self._case, "detail": detail}
        self.violations.append(v)
        self.log(f"  !! {self.prop}: {what} :: {json.dumps(self._case, default=str)[:300]}")
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop

    def known(self, key, what):
        self.findings.setdefault(key, what)

    def _observe(self, x, trivial=False):
        self.observations += 1
        self.values += int(np.size(x))
        if not trivial:
            self._nontrivial = True

    def true(self, cond, what, detail=None, trivial=False):
        self._observe(0, trivial)
        if not bool(cond):
            self.violate(what, detail)
            return False
        return True

    def equal(self, got, want, what):
        """Bitwise equality of arrays (NaNs equal)."""
        got, want = as_np(got), as_np(want)
        self._observe(got)
        if got.shape != want.shape:
            self.violate(f"{what}: shape {got.shape}, expected {want.shape}")
            return False
        if not np.array_equal(got, want, equal_nan=got.dtype.kind in "fc"):
            d = np.abs(got - want) if got.dtype.kind in "fciu" else got != want
            self.violate(f"{what}: differs", {"max_diff": float(np.nanmax(d)) if np.size(d) else None})
            return False
        return True

    def near(self, got, want, what, rtol=0.0, atol=0.0, scale=None, nan_ok=False):
        """|got - want| <= atol + rtol * (scale or |want|), shape equal, everything finite."""
        got, want = as_np(got), as_np(want)
        self._observe(got, trivial=not np.any(want))
        if got.shape != want.shape:
            self.violate(f"{what}: shape {got.shape}, expected {want.shape}")
            return False
        if not nan_ok and not np.all(np.isfinite(got)):
            bad = np.argwhere(~np.isfinite(got))[:3].tolist()
            self.violate(f"{what}: not finite", {"where": bad})
            return False
        got = got.astype(complex if got.dtype.kind == "c" else float)
        lim = atol + rtol * (np.abs(want) if scale is None else np.broadcast_to(scale, want.shape))
        with np.errstate(invalid="ignore", divide="ignore"):
            err = np.abs(got - want)
            ratio = np.where(err == 0, 0.0, err / np.where(lim > 0, lim, 1e-300))
        if nan_ok:
            both = np.isnan(got) & np.isnan(want)
            if np.any(np.isnan(got) != np.isnan(want)):
                self.violate(f"{what}: NaN pattern differs")
                return False
            ratio = np.where(both, 0.0, ratio)
        worst = float(ratio.max()) if ratio.size else 0.0
        label = what.split(":")[0][:60]
        self.margins[label] = max(self.margins.get(label, 0.0), worst if np.isfinite(worst) else 9e99)
        if not worst <= 1.0:
            i = np.unravel_index(int(np.nanargmax(ratio)), ratio.shape)
            g, w = got[i], want[i]
            self.violate(
                f"{what}: got {g:.9g}, expected {w:.9g} at {tuple(int(j) for j in i)}"
                f" (error {worst:.3g} times the tolerance)"
            )
            return False
        return True

    def rejects(self, fn, what, exc=(ValueError, AssertionError)):
        """``fn()`` must raise one of ``exc``."""
        self._observe(0)
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.violate(f"{what}: raised {type(e).__name__} ({e})"[:300], traceback.format_exc()[-800:])
            return False
        self.violate(f"{what}: accepted")
        return False

    def skipped(self, why):
        """A precondition does not hold here: count it (evidence shows how often)."""
        self.counts["skipped: " + why] = self.counts.get("skipped: " + why, 0) + 1

    # ---------------------------------------------------------------- result
    def result(self):
        return {
            "cases": self.cases,
            "observations": self.observations,
            "values": self.values,
            "signatures": sorted(self.signatures),
            "samples": self.samples,
            "violations": self.violations,
            "findings": self.findings,
            "margins": {k: float(f"{v:.3g}") for k, v in sorted(self.margins.items())},
            "counts": self.counts,
            "rule": self.rule,
            "assumptions": self.assumptions,
            "wall": self.elapsed(),
        }


def _plain(o):
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return [_plain(v) for v in o.tolist()] if o.size <= 24 else f"array{o.shape}"
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)
