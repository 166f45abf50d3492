#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json and checks it against properties.jsonl (run by hand, result committed)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import props, build as B
ids = [json.loads(l) for l in open(os.path.join(B.VERIF, "properties.jsonl"))]
na = props.NOT_APPLICABLE
checks = []
for p in ids:
    i = p["id"]
    if i not in props.PROPS:
        assert i in na, i
        continue
    P = props.PROPS[i]
    c = {
        "property": i,
        "quick_cmd": "python3 tools/check.py %s" % i,
        "technique": "bounded symbolic execution of the compiled LLVM IR of the real code, decided by Z3" + (P.get("technique", "")),
        "level": "model_checking",
        "level_note": P["note"] if "note" in P else "Every path of the real code over all values of the stated symbolic inputs is explored and each branch/assertion decided by Z3, within: " + P["bounds"] + " Nothing is claimed outside the bounds. Trusts rustc up to LLVM IR, the executor (cross-checked natively on sampled paths) and Z3.",
    }
    if "thorough" in P:
        c["thorough_cmd"] = "python3 tools/check.py %s --tier thorough" % i
    checks.append(c)
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py symx ir replay ir-u replay-u",
    "hooks": {"guard": "cfg(rexpat_symx)", "enable": "RUSTFLAGS='--cfg rexpat_symx' (tools/build.py build_ir)", "source_commits": props.HOOK_COMMITS},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
}
json.dump(m, open(os.path.join(B.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
