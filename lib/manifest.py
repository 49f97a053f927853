#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import REG
from props import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for x in P:
    i = x["id"]
    if i in REG:
        r = REG[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": r.get("technique", "runtime monitor (reference-model oracle) on the real code under ASan+UBSan, plus valgrind memcheck" + ("; random and coverage-guided cases" if any(x.get("guided_quick") for x in r["runs"]) else "")),
            "level": r.get("level", "exploration"),
            "level_note": r.get("note", "Every executed case is judged by an independent model; ASan/UBSan/memcheck watch every execution. Bounded by the generated cases; trusts the model in /verif/harness and the sanitizers."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "monitor not built yet"})
m["notes"] = "No hooks are needed in /repo: harnesses link the unmodified sources and observe through the public API, --wrap'ed allocation functions, card/reader models and a stand-in libpcsclite."
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
