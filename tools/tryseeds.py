"""tryseeds.py [ID...]: runs the check of its property on each planted bug (VCHECKS="C01 C02" for others), on /repo, which is restored."""
import json
import os
import subprocess
import sys
import time

SEEDED = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip():
    sys.exit("/repo is not clean")
for id in ids:
    d = os.path.join(SEEDED, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    for check in os.environ.get("VCHECKS", prop).split():
        start = time.time()
        try:
            subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
            r = subprocess.run(["python3", "/verif/check.py", check], capture_output=True, text=True, cwd="/verif",
                               env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
        hit = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "NOTE" in l]
        caught = r.returncode == 1 and any("VIOLATION property=%s " % check in l for l in hit)
        print("%-36s %s %s rc=%d %.0fs" % (id, check, "caught" if caught else "MISSED", r.returncode, time.time() - start), flush=True)
        if not caught:
            print(r.stdout[-1500:], r.stderr[-1500:], flush=True)
