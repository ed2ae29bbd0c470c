#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from about import ABOUT
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration",
        "level_note": "Exploration: " + n + ". Trusts the reference model, rustc and what the workload reaches.",
    } for p, (t, n, _) in sorted(ABOUT.items())],
    "not_applicable": [{"property": "C26", "reason": "No Swift toolchain is installed, so the Swift runtime cannot be run, and the Swift generator is not reachable from the crate's public interface."}],
    "notes": "No hooks in /repo: the monitors use the public interface of the compiler and of the generated code. known-findings.json lists genuine defects left unrepaired and the repaired ones.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
