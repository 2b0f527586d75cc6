"""Writes MANIFEST.json from the check modules that exist."""
import importlib
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
PY = "/opt/venv/bin/python"

NA = {
    "C22": "Pure function of one layer's input or output gradient; there is no interleaving or fault to inject. Its effect on "
           "training over all generated geometries is decided by C01 and C11.",
    "C23": "Accuracy of single half-precision operations: a numerical statement about one call, without history, schedule or fault.",
}
TECH = {
    "C08": "deterministic simulation: seeded crash points and a simulated disk (lost, torn writes), twin-run comparison",
    "C10": "deterministic simulation of all ranks with simulated collectives under a seeded scheduler",
    "C11": "deterministic simulation of all ranks under a seeded scheduler, compared with an executable reference model",
    "C12": "deterministic simulation of all ranks: seeded stalls, rank deaths and restarts, deadlock detection",
    "C13": "deterministic simulation of collectives under a seeded scheduler, compared with dense matrices",
    "C15": "deterministic simulation: seeded preemption of threads at every tensor operation",
}
DEFAULT = "deterministic simulation: seeded event histories with injected faults against an executable reference model"
NOTE = {}


def main():
    props = [json.loads(l) for l in open(V / "properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if not (V / "simlib" / "checks" / f"{i.lower()}.py").exists():
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
            continue
        m = importlib.import_module(f"simlib.checks.{i.lower()}")
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} check.py {i}",
            "thorough_cmd": f"{PY} check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": getattr(m, "TECHNIQUE", TECH.get(i, DEFAULT)),
            "level": m.LEVEL,
            "level_note": getattr(m, "NOTE", None) or (
                f"Seeded search: {m.RUNS['quick']} simulated runs (quick), {m.RUNS['thorough']} (thorough); no violation "
                "found is not a proof. Assumes: " + ("; ".join(m.ASSUMPTIONS) or "nothing further") + "."),
        })
    d = {
        "version": 1,
        "setup_cmd": f"{PY} -B -c \"import sys; sys.path.insert(0, '.'); import simlib.runner, simlib.trainer\"",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every seam (public API, PyTorch dispatcher, torch.distributed, sys.settrace) exists.",
    }
    with open(V / "MANIFEST.json", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


main()
