"""Writes MANIFEST.json."""
import json, os
P = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
NOTE = {
 "C14": " Acceptance is rustc's verdict on each generated declaration, compared with the specification's verdict, both ways.",
 "C22": " Which functions a configuration must not have is read from the expansion of the derive by rustc; that the others exist is shown by compiling calls.",
 "C21": " The histories come from TLC simulating the specification as well as from a driver, and each one is replayed on the real code.",
}
checks = [{
    "property": p["id"],
    "quick_cmd": f"python3 tools/check.py {p['id']}",
    "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": "TLA+ specification of declarations, codec and generated API; TLC model checking of it, and TLC trace validation of calls recorded from the real derive output",
    "level": "model_checking",
    "level_note": "Every recorded call (reply and whole buffer) of the generated code is checked by TLC to be a step of the TLA+ specification, for a seeded, systematic family of declarations and arguments; the specification's own consistency (the property as an invariant) is model checked exhaustively on small declarations. "
                  "Assurance is exhaustive on the model within its bounds and by sampling on the code; trusts the harness's value transport, rustc and TLC." + NOTE.get(p["id"], ""),
} for p in P]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
           "notes": "TLA+ with TLC. No hooks in /repo: the generated API already exposes the state. Genuine defects were repaired by fix: commits, listed in known_findings.json."},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
