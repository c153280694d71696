#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m = {
    "version": 1,
    "setup_cmd": "bash bin/setup.sh",
    "hooks": {
        "guard": "--cfg flatdata_contracts (names of items), --cfg flatdata_contracts_spec (contracts), --cfg flatdata_contracts_state (access to private state)",
        "enable": "RUSTFLAGS='--cfg flatdata_contracts --cfg flatdata_contracts_spec --cfg flatdata_contracts_state' cargo kani, set by bin/check.py",
        "source_commits": [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("contracts:")],
    },
    "checks": [{
        "property": i,
        "quick_cmd": "python3 bin/check.py %s" % i,
        "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
        "technique": PROPS[i].get("technique", "contracts on the real code, discharged by Kani/CBMC (deductive, all inputs)"),
        "level": PROPS[i].get("level", "proof"),
        "level_note": PROPS[i]["note"] + " Trusted: rustc, Kani, CBMC."
                      + ("" if not PROPS[i].get("assumptions") else " Assumes: " + "; ".join(PROPS[i]["assumptions"]) + "."),
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")} for i in ids if i not in PROPS],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
