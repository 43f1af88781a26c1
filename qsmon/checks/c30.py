"""Compiled kernels under bounds checks, poisoned memory, different numbers of
threads, threading layers and optimization levels, and interpreted."""

import json
import os
import subprocess
import tempfile

import numpy as np

CONFIGS = {
    "interpreted": dict(NUMBA_DISABLE_JIT="1"),
    "boundscheck": dict(NUMBA_BOUNDSCHECK="1", NUMBA_NUM_THREADS="2"),
    "threads-1": dict(NUMBA_NUM_THREADS="1"),
    "threads-8": dict(NUMBA_NUM_THREADS="8"),
    "threads-3": dict(NUMBA_NUM_THREADS="3"),
    "poison-1": dict(MALLOC_PERTURB_="85", NUMBA_NUM_THREADS="4"),
    "poison-2": dict(MALLOC_PERTURB_="170", NUMBA_NUM_THREADS="2"),
    "omp": dict(NUMBA_THREADING_LAYER="omp", NUMBA_NUM_THREADS="5"),
    "unoptimized": dict(NUMBA_OPT="0", NUMBA_NUM_THREADS="2"),
}


def cases(rng, tier):
    for _ in range(1 if tier == "quick" else 25):
        yield dict(seed=rng.randrange(2**31))


def run_case(case, mon, rs):
    seed = int(rs.randint(2**30))
    out = tempfile.mkdtemp(dir=os.environ["QSMON_SCRATCH"])
    ps = {}
    for name, env in CONFIGS.items():
        e = {k: v for k, v in os.environ.items() if not k.startswith("NUMBA_")}
        e.update(env)
        # nothing compiled under another configuration is to be re-used
        e["NUMBA_CACHE_DIR"] = os.path.join(out, "numba-" + name)
        size = "small" if name in ("interpreted", "unoptimized") else "full"
        ps[name] = subprocess.Popen(
            ["/opt/venv/bin/python", "-m", "qsmon.kernel_child", str(seed), size, os.path.join(out, name)],
            env=e, cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
    res, meta = {}, {}
    for name, p in ps.items():
        log = p.communicate(timeout=600)[0].decode(errors="replace")
        mon.events["run:" + name] += 1
        mon.true("completes", p.returncode == 0, f"{name}: exit {p.returncode}: {log[-1200:]}")
        with np.load(os.path.join(out, name + ".npz")) as z:
            res[name] = {k: z[k] for k in z.files}
        with open(os.path.join(out, name + ".json")) as f:
            meta[name] = json.load(f)
        mon.feature(f"layer:{meta[name]['layer']}", f"threads:{meta[name]['max_threads']}")
    for name, m in meta.items():
        mon.events["kernel-results"] += len(res[name])
        mon.true("no-error", not m["errors"], f"{name}: {dict(list(m['errors'].items())[:3])}")
        mon.true("repeatable", not m["repeat"]["different"], f"{name}: {m['repeat']['different'][:5]}")
        mon.true("thread-safe", not m["threads"]["different"], f"{name}: {m['threads']['different'][:5]}")
        mon.features["repeated-calls"] += m["repeat"]["compared"]
        mon.features["concurrent-calls"] += m["threads"]["compared"]
    base = res["interpreted"]
    for name in CONFIGS:
        for k, v in res[name].items():
            if k.startswith("far"):
                # alternating sums: rounding is amplified
                if k in base:
                    mon.close("as-interpreted:far", v, base[k], 1e-6, f"{k} in {name}")
                mon.close("as-one-thread:far", v, res["threads-1"][k], 1e-6, f"{k} in {name}")
                continue
            if k in base:
                mon.close("as-interpreted", v, base[k], 1e-9, f"{k} in {name}")
            mon.close("as-one-thread", v, res["threads-1"][k], 1e-9, f"{k} in {name}")
    mon.trace.append(f"seed {seed}")
