"""The monitor: records events, evaluates oracles, keeps evidence.

Every interaction of a workload with the code under test goes through
``Monitor.call`` (an event with its outcome), and every judgement through
``Monitor.close`` / ``Monitor.true`` (an oracle evaluation).  A failed
evaluation raises ``Violation`` and ends the current case; the runner stores it
as a witness together with the case, from which it can be replayed.
"""

import hashlib
import json
import traceback
import warnings
from collections import Counter

import numpy as np


class Violation(Exception):
    def __init__(self, oracle, detail, key=None):
        super().__init__(f"{oracle}: {detail}")
        self.oracle = oracle
        self.detail = detail
        self.key = key


class HarnessError(Exception):
    """The workload itself is wrong; never reported as a violation."""


def _describe(x):
    if isinstance(x, np.ndarray):
        return f"array{x.shape}:{x.dtype}"
    if isinstance(x, (int, float, complex, str, bool, type(None))):
        return repr(x)
    return type(x).__name__


class Monitor:
    def __init__(self, prop):
        self.prop = prop
        self.events = Counter()
        self.oracles = Counter()
        self.worst = {}
        self.signatures = set()
        self.features = Counter()
        self.samples = []
        self.trace = []
        self.known = Counter()

    # -- case life cycle ---------------------------------------------------
    def begin_case(self, case):
        self.trace = []
        self._case = case
        self._n0 = sum(self.oracles.values())
        self._e0 = sum(self.events.values())

    def end_case(self):
        """Count the case as distinct and non-trivial if at least one oracle
        was evaluated on the outcome of at least one event."""
        n_or = sum(self.oracles.values()) - self._n0
        n_ev = sum(self.events.values()) - self._e0
        if n_or > 0 and n_ev > 0:
            sig = hashlib.sha1(
                json.dumps(
                    [self._case, self.trace], sort_keys=True, default=str
                ).encode()
            ).hexdigest()[:16]
            self.signatures.add(sig)
            if len(self.samples) < 3:
                self.samples.append(
                    {
                        "case": self._case,
                        "events": self.trace[:12],
                        "oracle_evaluations": n_or,
                    }
                )
        return n_or

    def feature(self, *names):
        for n in names:
            self.features[str(n)] += 1

    # -- events ------------------------------------------------------------
    def call(self, label, fn, *args, **kwargs):
        """Run an operation of the code under test which has to succeed."""
        self.events[label] += 1
        self.trace.append(
            label
            + "("
            + ", ".join(
                [_describe(a) for a in args]
                + [f"{k}={_describe(v)}" for k, v in kwargs.items()]
            )
            + ")"
        )
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    return fn(*args, **kwargs)
        except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:  # noqa: B902
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{f.filename}:{f.name}" for f in tb][-4:]
            raise Violation(
                "operation-completes",
                f"{self.trace[-1]} raised {type(e).__name__}: {e} at {where}",
                key=f"{label}:{type(e).__name__}",
            ) from e

    def refuses(self, oracle, label, fn, *args, **kwargs):
        """Run an operation which must be refused, i.e. raise."""
        self.events[label] += 1
        self.oracles[oracle] += 1
        self.trace.append(f"{label} (must be refused)")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(*args, **kwargs)
        except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            return e
        raise Violation(oracle, f"{label} was accepted")

    # -- oracles -----------------------------------------------------------
    def true(self, oracle, cond, detail="", key=None):
        self.oracles[oracle] += 1
        if not bool(cond):
            raise Violation(oracle, detail or "condition is false", key=key)

    def equal(self, oracle, got, want, detail=""):
        self.oracles[oracle] += 1
        if not (type(got) is type(want) or True) or got != want:
            raise Violation(oracle, f"{detail}: got {got!r}, expected {want!r}")

    def close(self, oracle, got, want, tol=1e-10, detail="", scale=None):
        """|got - want| <= tol * scale elementwise, scale by default
        max(1, max|want|).  None must meet None, shapes must agree, and
        nothing that should be finite may be NaN or infinite."""
        self.oracles[oracle] += 1
        if got is None or want is None:
            if got is None and want is None:
                return
            raise Violation(
                oracle,
                f"{detail}: got {_describe(got)}, expected {_describe(want)}",
            )
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(
                oracle, f"{detail}: shape {g.shape}, expected {w.shape}"
            )
        if g.dtype == object:
            g = g.astype(complex)
        if w.size == 0:
            return
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(w))))
        d = np.abs(g - w)
        m = float(np.max(d)) if d.size else 0.0
        r = m / scale if m == m else float("inf")
        if not (r <= self.worst.get(oracle, (-1,))[0]):
            self.worst[oracle] = (r, tol)
        if not (m <= tol * scale):
            i = np.unravel_index(
                int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape
            )
            raise Violation(
                oracle,
                f"{detail}: max deviation {m:.3e} (allowed {tol * scale:.1e}) at "
                f"index {tuple(int(k) for k in i)}: got {g[i]}, expected {w[i]}",
            )

    def result(self):
        return {
            "events": dict(self.events),
            "oracles": dict(self.oracles),
            "worst": {
                k: {"deviation": v[0], "allowed": v[1]}
                for k, v in self.worst.items()
            },
            "signatures": sorted(self.signatures),
            "features": dict(self.features),
            "samples": self.samples,
            "known": dict(self.known),
        }
