#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "c705ea0bfd36635075de744810d45a132a62453f"
ids = sorted(list(PROPS) + [n["id"] for n in NOT_APPLICABLE])
na = {n["id"]: n for n in NOT_APPLICABLE}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in ids:
        p = PROPS.get(i) or na[i]
        f.write(json.dumps({
            "id": i, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 tools/vlib.py engine ir native",
    "hooks": {"guard": "cfg(vsr)", "enable": "RUSTFLAGS=--cfg vsr", "source_commits": [HOOK]},
    "checks": [{
        "property": i,
        "quick_cmd": "python3 tools/check.py %s" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "technique": "symbolic execution of the LLVM IR of the real code (repository, dependencies, std, tree-sitter), assertions decided by Z3, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "within bounds: %s. Outside: %s" % (PROPS[i]["bounds"], PROPS[i]["outside"]),
    } for i in sorted(PROPS)],
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
