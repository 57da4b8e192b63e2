#!/usr/bin/env python3
"""check.py PROPERTY: decides a property of the code in /repo (VERIF_SEED, VERIF_TIER).
check.py --setup: compiles what the checks need, to warm the caches.
check.py --replay FILE: executes the program of a replay file and compares it with the specification."""
import json
import os
import random
import subprocess
import sys
import time

import stages
import vlib
from vlib import Broken, Session, log

PROPERTIES = ["C%02d" % i for i in range(1, 18)]
LEVEL = "model_checking"


def report(prop, kind, detail):
    """Saves a replay file; gives the violation line."""
    d = os.path.join(vlib.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, kind, os.getpid()))
    n = 0
    while os.path.exists(path):
        n += 1
        path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, kind, os.getpid(), n))
    vlib.dump(path, dict(detail, property=prop, kind=kind))
    return "VIOLATION property=%s replay=%s" % (prop, path)


def known_findings(prop):
    out = []
    for line in open(os.path.join(vlib.VERIF, "KNOWN-FINDINGS")):
        if line.startswith("finding: property=%s " % prop):
            out.append(json.loads(line.split(" ", 2)[2]))
    return out


def main(prop):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    s = Session()
    try:
        s.build()
        run = stages.Run(s, prop, seed, tier)
        run.all()
        lines = []
        for kind, detail in run.violations:
            lines.append(report(prop, kind, detail))
        for f in known_findings(prop):
            if stages.finding_shows(s, f):
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        cov = run.coverage
        cov["states"], cov["transitions"] = s.states, s.transitions
        os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
        vlib.dump(os.path.join(vlib.VERIF, "evidence", prop + ".json"), {
            "property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
            "assumptions": run.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(lines)})
        for line in lines:
            print(line)
        log("%s: %s" % (prop, "violated" if lines else "held on everything explored"))
        return 1 if lines else 0
    finally:
        s.close()


def setup():
    s = Session()
    try:
        s.build()
        s.build(race=True)
    finally:
        s.close()
    return 0


def replay(path):
    s = Session()
    try:
        s.build()
        return stages.replay(s, vlib.load(path))
    finally:
        s.close()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    try:
        if sys.argv[1:] == ["--setup"]:
            sys.exit(setup())
        if len(sys.argv) == 3 and sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        if len(sys.argv) != 2 or sys.argv[1] not in PROPERTIES:
            print(__doc__)
            sys.exit(2)
        sys.exit(main(sys.argv[1]))
    except Broken as e:
        print("ERROR: %s" % e)
        sys.exit(2)
