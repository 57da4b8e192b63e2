"""Writes MANIFEST.json."""
import json
notes = {
    "C03": " In addition, programs are executed by several goroutines at once, in a binary with the race detector, and checked against the same specification.",
}
checks = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({
        "property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "technique": "TLA+ specification, TLC; conformance of traces of the real library",
        "level": "model_checking",
        "level_note": "Every explored program was replayed in the library and in the specification, and every statement that was observed had to be the one TLC computes from the specification. "
                      "It assumes that the explored programs are representative, and trusts TLC, the Go compiler and the harness that executes the programs and splits texts into tokens." + notes.get(p, "")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks drive the exported API of the library."}, open("/verif/MANIFEST.json", "w"), indent=1)
