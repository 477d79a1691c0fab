#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "run-time monitor: executions of the real crate under generated histories, each observation compared with an independent reference model"
T = {
    "P01": "forward kinematics recomputed by independent f64 rotation-matrix code after every update",
    "P02": "chains, views and lookups compared with a model of the tree after every operation",
    "P03": "parent/child state compared with a model tree after every step of random edit sequences",
    "P04": "every setter call judged by a model of limits, positions bit-exact",
    "P05": "after every setter call all joints compared with a model of the mimic relations",
    "P06": "clone compared bit by bit, then differential histories on copy and original",
    "P07": "Jacobian compared with an independently derived geometric one and with finite differences",
    "P08": "on every success the reached pose is recomputed independently and all joint positions are compared bit by bit",
    "P09": "on every failure joint positions are compared bit by bit and the error is judged by a model; CPU and memory watchdogs for non-termination",
    "P10": "targets with a known nearby solution at positions whose conditioning an independent SVD confirms; bounded progress within the tries",
    "P11": "the displacement of one solver step compared with an independently computed null space projection, the calls of the function recorded",
    "P12": "imported chains compared with the generated URDF model, kinematics recomputed from it",
    "P13": "link data of imported chains compared field by field with the generated URDF model",
    "P14": "maps compared with the generated URDF model and with the imported chain",
    "P15": "world transforms of link parts compared with node pose times own origin by independent code",
    "P16": "center of mass recomputed by independent code",
    "P17": "velocities compared with the sum over joints and with finite differences of poses",
    "P18": "offline linearizability checker of recorded register histories, lock wait-for-graph monitor with injected delays, differential IK on disjoint arms, ThreadSanitizer and Miri",
    "P19": "cached poses read after every move and compared with the new state, also while other threads update",
    "P20": "the printed text parsed and compared with the tree",
    "P21": "JSON round trips of every flag combination compared field by field",
    "P22": "complete observable state compared bit by bit around every query, queries repeated",
    "P24": "the same solve repeated under changed circumstances, results and positions compared bit by bit",
    "P25": "extreme values through every setter, panic and CPU watchdogs, then comparison with the reference model after ordinary values were restored",
    "P26": "concurrent histories of restructuring compared with each thread's model of its own subtrees, lock wait-for-graph monitor with injected delays",
    "P27": "values made by random sequences of builder calls compared field by field with a model",
    "P28": "the same history run on robots which differ in names and construction only, every number compared bit by bit",
    "P23": "allocator accounting per case plus liveness of nodes under random dropping of handles",
}
NOTE = ("Held on the executions explored (evidence lists counts and what was observed), nothing beyond them. "
        "Trusts the harness' reference code, the compiler and std. ")
X = {
    "P05": "The five known findings (clamping and unchecked setters ignore mimic relations, followers of followers) are reported as such. ",
    "P18": "Interleavings are those of the OS scheduler with injected delays at the node locks (cfg k_monitor) and of Miri's random scheduler, not all. Without the hook it still runs, and says so in the evidence. ",
    "P26": "Interleavings are those of the OS scheduler with injected delays at the node locks (cfg k_monitor), not all. Without the hook it still runs, and says so in the evidence. ",
    "P10": "'Well conditioned' and 'nearby' are the bounds in DESIGN.md. ",
    "P11": "Cases in which nalgebra's own SVD is inaccurate are skipped and counted. ",
    "P23": "One known finding (cycle of a follower above its leader). ",
}
checks = []
for p in sorted(T):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "runtime monitoring: " + T[p],
        "level": "exploration",
        "level_note": NOTE + X.get(p, ""),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "hooks": {
        "guard": "--cfg k_monitor",
        "enable": "RUSTFLAGS='--cfg k_monitor' (check.py; it falls back to a build without it)",
        "source_commits": ["64fba53"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "DESIGN.md describes the monitors, the defects found and the planted bugs.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
