#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py and lib/registry.py"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "tools")]
from props import P
from registry import REGISTRY
NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"],
                                                                      hook_needed=None))) + "\n")
checks = []
ids = {p["id"] for p in P}
for p in P:
    i = p["id"]
    if i not in REGISTRY:
        raise SystemExit(f"{i} has no check")
    steps = REGISTRY[i]["steps"]
    names = {k: sorted({s.module for s in steps if type(s).__name__ == k}) for k in ("Model", "Gen", "Trace")}
    tech = "TLA+/TLC: "
    parts = []
    if names["Model"]:
        parts.append("model checking of " + ", ".join(names["Model"]))
    if names["Gen"]:
        parts.append("behaviours generated from " + ", ".join(names["Gen"]) + " replayed into the code")
    parts.append("recorded traces validated against " + ", ".join(names["Trace"]))
    checks.append(dict(property=i, quick_cmd=f"python3 bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/check {i} thorough",
                       technique=tech + "; ".join(parts), level=REGISTRY[i]["level"],
                       level_note=p["note"] or "Design properties hold for every state within the model's bounds; the code is bound to the "
                       "specification by validating every recorded call against it (" + REGISTRY[i]["rule"] +
                       "). Trusted: TLC, the harness's value encoding, CPython/numpy. Bounded: code behaviour outside the replayed and "
                       "recorded inputs is not covered."))
for i in REGISTRY:
    if i not in ids:
        print("warning: check without property", i)
json.dump(dict(version=1, setup_cmd="python3 bin/setup", checks=checks, not_applicable=NA,
               notes="Language: TLA+ checked with TLC. No hooks in /repo; the code is observed through its public API and recording stub LDPC decoders."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
