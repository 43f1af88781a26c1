"""Writes MANIFEST.json from the property list and the registry."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from qsmon.registry import REGISTRY

TECH = {
    "default": "runtime monitoring: online reference-model oracles over randomized workloads and operation histories of the real code",
    "C24": "runtime monitoring with fault injection: kills and exceptions at source lines and bytes, full disks, racing processes and threads, online file watcher",
    "C30": "sanitizers: numba bounds checks, poisoned allocations, interpreted/compiled/thread-count differential runs, concurrent-call stress",
    "C28": "runtime monitoring: exactly-once event-trace checker and re-read of stored files over operation histories",
    "C25": "runtime monitoring: hooked SCF solver, independent RHF calculation and invariants as oracles",
}
checks = []
for pid in [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]:
    conf = REGISTRY[pid]
    checks.append(dict(
        property=pid,
        quick_cmd=f"./check.sh {pid}",
        thorough_cmd=f"VERIF_TIER=thorough ./check.sh {pid}",
        technique=TECH.get(pid, TECH["default"]),
        level="fault_enumeration" if pid == "C24" else "exploration",
        level_note="Held on every execution observed: " + conf["rule"]
        + " Trusts NumPy/SciPy, the reference formulas in qsmon/ and the sampled workloads."
        + (" " + " ".join(conf["assumptions"]) if conf.get("assumptions") else ""),
    ))
json.dump(dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, numba, pyscf'",
    checks=checks, not_applicable=[],
    notes="No hooks in /repo: the monitors observe through the public interface, subclassed array modules, "
    "tracing, forked children and a wrapper around PySCF's solver. See DESIGN.md.",
), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
