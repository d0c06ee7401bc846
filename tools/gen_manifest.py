#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/specs.py (claimed) and the reasons below (not applicable)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import specs
NA = {"P27": "The networked channels live in QUIC/TLS and kernel sockets driven by the tokio runtime; that code cannot be executed symbolically here, and the repository adds almost nothing of its own to it."}
NA.update(getattr(specs, "NOT_APPLICABLE", {}))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "--cfg verif", "enable": "RUSTFLAGS=\"--cfg verif\" VERIF_HOOK=/verif/hooks/mod.rs (the hook includes the re-exports in that file)",
               "source_commits": specs.HOOK_COMMITS},
     "checks": [], "not_applicable": []}
for p in props:
    if p in specs.SPECS:
        m["checks"].append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check %s --thorough" % p, "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the compiled code (LLVM IR) with SMT solving",
            "level": "model_checking", "level_note": specs.SPECS[p]["bounds"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
