"""Runs one shard of a check's cases in its own process."""

import importlib
import json
import os
import sys
import time
import traceback

MAX_VIOLATIONS = 1 if os.environ.get("QSMON_FAILFAST") else 5


def main():
    prop, tier, seed, shard, n_shards, out = sys.argv[1:7]
    replay = sys.argv[7] if len(sys.argv) > 7 else None
    seed, shard, n_shards = int(seed), int(shard), int(n_shards)

    import random

    import numpy as np

    import quantum_systems

    repo = os.path.realpath(os.environ["QSMON_REPO"])
    if not os.path.realpath(quantum_systems.__file__).startswith(repo + os.sep):
        raise SystemExit(f"wrong code: {quantum_systems.__file__}")

    from qsmon.mon import HarnessError, Monitor, Violation
    from qsmon.registry import REGISTRY
    from qsmon.variants import Draws

    every = REGISTRY[prop].get("variants", 3)

    mod = importlib.import_module(f"qsmon.checks.{prop.lower()}")
    mon = Monitor(prop)
    violations, errors = [], []
    n_cases = 0
    truncated = False
    t0 = time.time()
    budget = getattr(mod, "BUDGET", {"quick": 400, "thorough": 7200})[tier]

    if replay:
        with open(replay) as f:
            cases = [json.load(f)["case"]]
        shard, n_shards = 0, 1
    else:
        rng = random.Random(f"{prop}-{seed}-{tier}")
        cases = mod.cases(rng, tier)

    per_key = {}
    for i, case in enumerate(cases):
        if i % n_shards != shard:
            continue
        if time.time() - t0 > budget:
            truncated = True
            break
        # Everything random in a case follows from its own seed.
        np.random.seed(case.get("seed", 0) % 2**32)
        random.seed(case.get("seed", 0))
        n_cases += 1
        mon.begin_case(case)
        try:
            rs = Draws(case.get("seed", 0) % 2**32)
            mod.run_case(case, mon, rs)
            mon.end_case()
            if "vary" not in case and every and i % every == 0 and rs.count:
                # the same once more, except for one of the values drawn
                case = dict(case, vary=random.randrange(rs.count))
            if "vary" in case:
                np.random.seed(case.get("seed", 0) % 2**32)
                n_cases += 1
                mon.begin_case(case)
                mod.run_case(case, mon, Draws(case.get("seed", 0) % 2**32, case["vary"]))
                mon.feature("one-value-varied")
                mon.end_case()
        except Violation as v:
            mon.end_case()
            # Many occurrences of one mechanism count once, so that a known
            # finding cannot hide a different violation.
            per_key[(v.oracle, v.key)] = per_key.get((v.oracle, v.key), 0) + 1
            if per_key[(v.oracle, v.key)] <= 2:
                violations.append(
                    {
                        "case": case,
                        "oracle": v.oracle,
                        "detail": v.detail,
                        "key": v.key,
                        "trace": mon.trace[-40:],
                    }
                )
            if len(violations) >= MAX_VIOLATIONS:
                break
        except HarnessError:
            errors.append(f"case {case}: {traceback.format_exc()[-2500:]}")
            break
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            if any(
                os.path.realpath(f.filename).startswith(repo + os.sep)
                for f in frames
            ):
                # Raised inside the code under test, in a place where the
                # property requires an answer.
                violations.append(
                    {
                        "case": case,
                        "oracle": "operation-completes",
                        "detail": f"{type(e).__name__}: {e}; "
                        + traceback.format_exc()[-1500:],
                        "key": f"raised:{type(e).__name__}",
                        "trace": mon.trace[-40:],
                    }
                )
                if len(violations) >= MAX_VIOLATIONS:
                    break
                continue
            if isinstance(
                e, (AttributeError, LookupError, TypeError, ValueError, ArithmeticError)
            ) and not str(getattr(e, "name", None) or "").startswith("_"):
                # What the code returned cannot be judged at all: None, a
                # missing attribute, an array of the wrong rank, ...
                violations.append(
                    {
                        "case": case,
                        "oracle": "usable-outcome",
                        "detail": f"{type(e).__name__}: {e}; "
                        + traceback.format_exc()[-1500:],
                        "key": f"unusable:{type(e).__name__}",
                        "trace": mon.trace[-40:],
                    }
                )
                if len(violations) >= MAX_VIOLATIONS:
                    break
                continue
            errors.append(f"case {case}: {traceback.format_exc()[-2500:]}")
            if len(errors) > 3:
                break

    res = mon.result()
    res.update(
        cases=n_cases,
        violations=violations,
        errors=errors,
        truncated=truncated,
    )
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main()
