#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
CHECKS = json.load(open(os.path.join(os.path.dirname(__file__), "checks.json")))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg(pango_verif"],
                      capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": CHECKS["setup"],
    "hooks": {
        "guard": "--cfg pango_verif and --cfg pango_verif_nfa (rustc cfg flags, off by default)",
        "enable": "RUSTFLAGS='--cfg pango_verif' when building the iterator harness (build.sh iter, C09) and RUSTFLAGS='--cfg pango_verif_nfa' when building the harness of C23 (build.sh nfa); all other harnesses use the public API only and build without it",
        "source_commits": hook,
    },
    "checks": [],
    "not_applicable": [],
    "notes": "Every check is ./check.sh ID: it rebuilds the harness from /repo's working tree, enumerates the declared bounded space completely, "
             "compares every run of the real code with a reference model, writes evidence/ID.json and, on a violation, replay/ID.json "
             "(re-run with the harness binary: mc replay FILE).",
}
for c in CHECKS["checks"]:
    m["checks"].append({
        "property": c["id"],
        "quick_cmd": "bash ./check.sh %s quick" % c["id"],
        "thorough_cmd": "bash ./check.sh %s thorough" % c["id"],
        "evidence_file": "evidence/%s.json" % c["id"],
        "technique": c["technique"],
        "level": "model_checking",
        "level_note": c["note"],
    })
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
