"""Driver:  python -m qsmon.main C01            run a check
            python -m qsmon.main --replay FILE  run one recorded case again

Starts worker processes which import the code from /repo's working tree (with
an empty numba cache, so that nothing stale is run), lets them execute the
check's cases, merges what the monitors saw, writes the evidence and prints the
verdict."""

import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QSMON_REPO", "/repo")
PY = "/opt/venv/bin/python"


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        return [
            e
            for e in json.load(f)["known"]
            if e["property"] == prop
        ]


def worker_env(scratch, extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("NUMBA_", "QS_", "PYTHON", "PYSCF")):
            del env[k]
    env.update(
        PYTHONPATH=f"{HERE}:{REPO}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        NUMBA_NUM_THREADS="2",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        TMPDIR=scratch,
        PYSCF_TMPDIR=scratch,
        QSMON_REPO=REPO,
        QSMON_SCRATCH=scratch,
    )
    env.update(extra or {})
    return env


def main(argv):
    replay = None
    if argv[0] == "--replay":
        with open(argv[1]) as f:
            replay = json.load(f)
        prop = replay["property"]
        seed, tier = replay["seed"], replay["tier"]
    else:
        prop = argv[0]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
    t0 = time.time()
    sys.path.insert(0, HERE)
    from qsmon.registry import REGISTRY

    conf = REGISTRY[prop]
    watchdog = 840 if tier == "quick" else 3 * 3600
    scratch = tempfile.mkdtemp(prefix=f"qsmon-{prop}-")
    procs = []
    try:
        n_workers = 1 if replay else conf.get("workers", 4)
        for i in range(n_workers):
            work = os.path.join(scratch, f"w{i}")
            os.makedirs(work)
            args = [
                PY, "-m", "qsmon.worker", prop, tier, str(seed),
                str(i), str(n_workers), os.path.join(scratch, f"r{i}.json"),
            ]
            if replay:
                args.append(os.path.abspath(argv[1]))
            log = open(os.path.join(scratch, f"log{i}"), "w")
            procs.append(
                subprocess.Popen(
                    args,
                    cwd=work,
                    env=worker_env(scratch, conf.get("env")),
                    stdout=log,
                    stderr=subprocess.STDOUT,
                    start_new_session=True,
                )
            )
            log.close()
        deadline = t0 + watchdog
        timed_out = False
        for p in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                timed_out = True
        results, errors = [], []
        for i, p in enumerate(procs):
            if p.poll() is None:
                kill(p)
            path = os.path.join(scratch, f"r{i}.json")
            if os.path.exists(path):
                with open(path) as f:
                    results.append(json.load(f))
            else:
                with open(os.path.join(scratch, f"log{i}")) as f:
                    tail = f.read()[-3000:]
                errors.append(
                    f"worker {i} gave no result (exit {p.returncode}"
                    f"{', watchdog' if timed_out else ''}): {tail}"
                )
        return verdict(
            prop, conf, tier, seed, results, errors, t0, replay is not None
        )
    finally:
        for p in procs:
            if p.poll() is None:
                kill(p)
        shutil.rmtree(scratch, ignore_errors=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def verdict(prop, conf, tier, seed, results, errors, t0, is_replay):
    events, oracles, features, worst = {}, {}, {}, {}
    sigs, samples, violations = set(), [], []
    cases = 0
    truncated = False
    for r in results:
        cases += r["cases"]
        truncated |= r["truncated"]
        for a, b in (
            (events, r["events"]),
            (oracles, r["oracles"]),
            (features, r["features"]),
        ):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        for k, v in r["worst"].items():
            if k not in worst or v["deviation"] > worst[k]["deviation"]:
                worst[k] = v
        sigs.update(r["signatures"])
        samples.extend(r["samples"][: max(1, 6 // max(1, len(results)))])
        violations.extend(r["violations"])
        errors.extend(r["errors"])

    known = load_known(prop)
    new, met = [], {}
    for v in violations:
        for e in known:
            if v.get("key") == e["key"]:
                met[e["key"]] = e
                break
        else:
            new.append(v)

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(sigs),
            "rule": conf["rule"]
            + " Some or all cases are repeated with a single drawn value changed."
            " A case is non-trivial when at least one oracle judged the"
            " outcome of at least one call into the code; distinct by the hash"
            " of its parameters and its recorded call trace.",
            "samples": samples,
            "events_observed": events,
            "oracle_evaluations": oracles,
            "features_reached": features,
            "worst_deviation_per_oracle": worst,
            "cut_short_by_time": truncated,
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if not is_replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    for e in met.values():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    for e in errors[:5]:
        print(f"ERROR: {e}", file=sys.stderr)
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(new[:5]):
            path = os.path.join(HERE, "replays", f"{prop}-{tier}-{seed}-{i}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "tier": tier, "seed": seed, **v},
                    f,
                    indent=1,
                    default=str,
                )
            print(f"  {v['oracle']}: {v['detail']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(f"{prop}: INCONCLUSIVE (errors in the check)")
        return 2
    if not is_replay:
        missing = [
            f"{k} seen {max(oracles.get(k, 0), events.get(k, 0), features.get(k, 0))} < {n}"
            for k, n in conf.get("minimum", {}).items()
            if max(oracles.get(k, 0), events.get(k, 0), features.get(k, 0)) < n
        ]
        if missing or not sigs:
            print(f"{prop}: INCONCLUSIVE, monitors not reached: {missing}")
            return 2
    print(
        f"{prop}: held on {cases} cases ({len(sigs)} distinct non-trivial), "
        f"{sum(events.values())} calls observed, "
        f"{sum(oracles.values())} oracle evaluations, "
        f"{time.time() - t0:.1f} s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
