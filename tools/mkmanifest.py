#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and spec.PROPS."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
props = [json.loads(l) for l in open(spec.VERIF + "/properties.jsonl")]
NOTE = ("Every path of the real compiled code (LLVM IR regenerated from /repo) over symbolic inputs within the stated bounds; "
        "assertions and branches decided by z3 or exact finite-domain procedures cross-checked against it; sampled paths and all "
        "counterexamples replayed on the native build. Trusts rustc's IR, the engine's IR semantics and the reference model in harness/.")
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks: the harness uses the public API only", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in spec.PROPS:
        m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 tools/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % i,
                                evidence_file="evidence/%s.json" % i, technique=spec.TECH.get(i, "symbolic execution of the compiled code + SMT against a reference model"),
                                level="model_checking", level_note=spec.NOTE.get(i, "") + NOTE))
    else:
        m["not_applicable"].append(dict(property=i, reason=spec.NA.get(i, "no check built yet")))
json.dump(m, open(spec.VERIF + "/MANIFEST.json", "w"), indent=1)
