"""Writes MANIFEST.json from variants.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import variants
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
NA = variants.NOT_APPLICABLE if hasattr(variants, "NOT_APPLICABLE") else {}
m = {
    "version": 1,
    "setup_cmd": "python3 engine/build.py core data py",
    "hooks": {"guard": "cfg(up4_verify)", "enable": "RUSTFLAGS='--cfg up4_verify' (engine/build.py, on a mirror of /repo/src)",
              "source_commits": variants.HOOKS},
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}
for p in props:
    if p["id"] in NA:
        continue
    c = variants.CHECKS[p["id"]]
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "symbolic execution of the crate's LLVM IR (exact reals), path feasibility and assertions decided by Z3, native replay"),
        "level": c["level"],
        "level_note": "Holds for every value of the symbolic inputs within the bounds (all paths explored when the evidence says exhaustive): "
                      + c["bounds"] + ". Trusts: the instrumentation and runtime (engine/), Z3, rustc; real-number semantics (rounding excluded).",
    })
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
