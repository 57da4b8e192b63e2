"""mkseed.py FILE...: makes the planted bugs that Python files define (see seeds/), if they are what they have to be.
A file calls bug(id, property, needs, breaks, edits=[(file, old, new)], demo=Go statements with want(got, "text")).
Everything happens in a scratch copy of /repo."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

SEEDED = "/verif/seeded"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
MAIN = """package main

import (
	"fmt"
	"os"
%s
	"github.com/manhcuongbk56/cypher-go-dsl"
)

var failed bool

func want(got, text string) {
	if got != text {
		failed = true
		fmt.Printf("got  %%s\\nwant %%s\\n", got, text)
	}
}

func render(s cypher.Statement, err error) (text string) {
	defer func() {
		if r := recover(); r != nil {
			text = fmt.Sprint("panic: ", r)
		}
	}()
	if err != nil {
		return "error"
	}
	text, err = cypher.NewRenderer().Render(s)
	if err != nil {
		return "error"
	}
	return text
}

func main() {
%s
	if failed {
		os.Exit(1)
	}
}
"""
DEMO = """#!/bin/bash
# Runs main.go, next to this file, as a program of the module in the working directory.
set -u
dir=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/verif_demo/main.go": "%s/main.go"}}' "$PWD" "$dir" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./verif_demo || exit 2
timeout 120 "$tmp/demo"
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)


def original_lines(path):
    """Which lines of a file of /repo are of the original repository (True) or of a commit added to it."""
    base = sh(["git", "-C", "/repo", "rev-list", "b749828"]).stdout.split()
    base = set(base)
    out = []
    for l in sh(["git", "-C", "/repo", "blame", "--line-porcelain", "HEAD", "--", path]).stdout.splitlines():
        m = re.match(r"^\^?([0-9a-f]{40}) \d+ \d+", l)
        if m:
            out.append(m[1] in base)
    return out


def bug(id, prop, needs, breaks, edits, demo, imports=""):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo)
        sh(["git", "checkout", "--", "."], cwd=repo)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "FAIL: %d places for edit of %s" % (s.count(old), f))
                return
            open(p, "w").write(s.replace(old, new))
        r = sh(["gofmt", "-l", "."], cwd=repo)
        diff = sh(["git", "diff"], cwd=repo).stdout
        # lines that are taken away, or next to which lines are added
        orig = touched = 0
        for f in {e[0] for e in edits}:
            lines = original_lines(f)
            d = sh(["git", "diff", "-U0", "--", f], cwd=repo).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for i in range(a, a + n):
                    touched += 1
                    orig += lines[i - 1]
        r = sh(["go", "build", "./..."], cwd=repo)
        if r.returncode:
            print(id, "FAIL: does not build", r.stderr)
            return
        r = sh(["go", "test", "-exec", "env GOGC=off GOMEMLIMIT=2GiB", "-json", "-vet=off", "-count=1", "./..."], cwd=repo)
        passed = set()
        for l in r.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and "Test" in e:
                passed.add(e["Package"] + "/" + e["Test"])
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        missing = [x for x in stable if x not in passed]
        if missing:
            print(id, "FAIL: tests", [m.split("/")[-1] for m in missing[:5]])
            return
        d = os.path.join(tmp, "seed")
        os.mkdir(d)
        main = MAIN % ("".join("\t%s\n" % i for i in imports.split()), demo)
        open(os.path.join(d, "main.go"), "w").write(main)
        sh(["gofmt", "-w", "main.go"], cwd=d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        clean = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        if clean.returncode != 0:
            print(id, "FAIL: demo on the clean tree:", clean.stdout, clean.stderr)
            return
        broken = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
        if broken.returncode in (0, 2) and "panic" not in broken.stderr and "fatal error" not in broken.stderr:
            print(id, "FAIL: demo on the changed tree:", broken.returncode, broken.stdout[-500:], broken.stderr[-1500:])
            return
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        out = os.path.join(SEEDED, id)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        print(id, "ok, %d of %d changed lines are original" % (orig, touched), "" if orig else "<<<<<<", broken.stdout.strip()[:300])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    only = os.environ.get("ONLY")
    for f in sys.argv[1:]:
        exec(open(f).read(), {"bug": lambda id, *a, **k: bug(id, *a, **k) if not only or only in id else None})
