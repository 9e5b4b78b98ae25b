#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^sim:"], capture_output=True, text=True).stdout.split()
TECH = "deterministic simulation: seeded schedule and fault search over the real code, "
what = {
 "H01": "per-key linearizability check of recorded histories",
 "H02": "per-key linearizability check of recorded histories with key instance identity",
 "H03": "per-key linearizability check of recorded histories",
 "H04": "per-key linearizability check of recorded histories with evictions",
 "H05": "scan completeness and soundness over the recorded history",
 "H06": "linearizability, final contents and uniqueness while resizing",
 "H07": "mutual-exclusion markers in values and closures",
 "H08": "capacity and reservation accounting invariants",
 "C01": "size bound at every step and LRU reference model",
 "T01": "per-key linearizability check of recorded histories",
 "T02": "order, bounds, completeness and soundness of scans over the recorded history",
 "T03": "linearizability of range removals key by key",
 "R01": "drop registry and simulated heap (exactly-once drops, no leak)",
 "R02": "guarded references re-read, use-after-free detection on the simulated heap",
 "A01": "futures dropped at any suspension; consistency checks afterwards",
 "A02": "progress within a step bound under a fair schedule after faults stop",
 "F01": "user panics and allocation failures at any point; consistency checks afterwards",
 "L01": "step bound of a reader with all other threads frozen",
 "V01": "happens-before race detection and stale loads under the C++20 memory model",
 "S01": "recording serde format with injected errors, checked against concurrent histories and the contents at rest",
 "M01": "aggregates against the contents at rest; clones against both",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    checks.append({
        "property": i, "quick_cmd": f"./check.sh check {i}", "thorough_cmd": f"./check.sh check {i} thorough",
        "technique": TECH + what[i], "level": "exploration",
        "level_note": "Seeded sampling of schedules, faults and plans, not exhaustive. Real scc, saa and sdd code; simulated threads, atomics, allocator, executor. Trusts the simulator, the memory model in simrt/src/weak.rs (no load buffering, no out-of-thin-air) and the oracle in dst/src/hist.rs.",
    })
m = {"version": 1, "setup_cmd": "./check.sh build",
     "hooks": {"guard": "scc_sim", "enable": 'RUSTFLAGS="--cfg scc_sim --cap-lints allow" cargo build; small tree nodes with --cfg scc_sim_small besides (see check.sh)', "source_commits": HOOK},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
