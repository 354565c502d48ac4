#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
built = sorted(p.stem.upper() for p in (root/"mc").glob("c[0-9][0-9].go"))
ids = [json.loads(l)["id"] for l in (root/"properties.jsonl").read_text().splitlines() if l.strip()]
TECH = {
 "default": "stateless model checking: exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model",
 "C03": "stateless model checking: exhaustive enumeration of stream behaviours (splits, ends, failures) on the real code against a reference model",
 "C10": "explicit enumeration of all system-call failures, short writes and crash points of the real code under a ptrace controller",
 "C16": "explicit enumeration of all system-call failures and short writes of the real code under a ptrace controller",
"C18": "stateless model checking: exhaustive enumeration of payload writers x readers x stream behaviours on the real code against the uncompressed original",
 "C19": "explicit enumeration of all histories of opening, reading, failing and ending at every point, with resource counting on the real code (and system-call failures under a ptrace controller)",
 "C20": "stateless model checking: all interleavings of real goroutines up to a preemption bound under a controlled scheduler",
}
NOTE = {
 "default": "Every execution within the stated bounds runs the code compiled from /repo and is compared with an independent reference model; nothing is claimed beyond the bounds (see evidence and DESIGN.md). Trusted: the Go compiler and standard library, golang.org/x/crypto's arithmetic, the reference model.",
}
checks = [dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
    technique=TECH.get(i, TECH["default"]), level="model_checking", level_note=NOTE.get(i, NOTE["default"])) for i in ids if i in built]
na = [dict(property=i, reason="check not built yet") for i in ids if i not in built]
(root/"MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="./check.sh warm", checks=checks, not_applicable=na), indent=1)+"\n")
print("claimed", [c["property"] for c in checks], "not", [n["property"] for n in na])
