"""Shared machinery of the checks: building the harness, running programs and TLC, shrinking and reporting."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = os.cpu_count() or 4


class Broken(Exception):
    """The check itself could not do its work."""


def log(msg):
    print("[%6.1fs] %s" % (time.time() - START, msg), flush=True)


START = time.time()


def go_env():
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off")
    return env


class Session:
    """A scratch directory with a harness that was built from the working tree of /repo."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.bin = os.path.join(self.dir, "harness")
        self.race_bin = None
        self.n = 0
        self.states = 0
        self.transitions = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%d-%s" % (self.n, name))

    def build(self, race=False):
        out = self.bin + ("-race" if race else "")
        src = os.path.join(self.dir, "src")
        if not os.path.isdir(src):
            shutil.copytree(HARNESS, src)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        r = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("the harness does not build:\n" + r.stderr[-3000:])
        if race:
            self.race_bin = out

    def harness(self, cmd, *args, binary=None, timeout=600, env=None):
        return subprocess.run([binary or self.bin, cmd] + list(args), capture_output=True, text=True, errors="replace",
                              timeout=timeout, env=dict(os.environ, **(env or {})))

    def generate(self, profile, seed, n):
        out = self.path("gen.json")
        r = self.harness("gen", "-profile", profile, "-seed", str(seed), "-n", str(n), "-out", out)
        if r.returncode != 0:
            raise Broken("generating programs failed: " + r.stderr[-2000:])
        return load(out)

    # -- executing -------------------------------------------------------------------------------------------------

    def run(self, programs, lenient=False, binary=None, parallel=WORKERS, limit=20):
        """The traces of programs.  A program that brings a process down has a trace that says so."""
        if not programs:
            return []
        src, out = self.path("run.json"), self.path("traces.json")
        dump(src, programs)
        args = ["-in", src, "-out", out, "-parallel", str(parallel), "-limit", str(limit)] + (["-lenient"] if lenient else [])
        try:
            r = self.harness("run", *args, binary=binary, timeout=900)
        except subprocess.TimeoutExpired:
            raise Broken("the harness did not end")
        if r.returncode != 0:
            raise Broken("the harness failed: " + r.stderr[-2000:])
        traces = load(out)
        os.unlink(src)
        os.unlink(out)
        return traces

    def conc(self, programs, timeout=200, race=True):
        """Executes programs in goroutines that share values: (traces, "") or (None, what went wrong)."""
        src, out = self.path("conc.json"), self.path("conc-traces.json")
        dump(src, programs)
        try:
            r = self.harness("conc", "-in", src, "-out", out, binary=self.race_bin if race else None, timeout=timeout,
                             env={"GORACE": "halt_on_error=1 exitcode=66 history_size=2"})
        except subprocess.TimeoutExpired:
            return None, "hang"
        if r.returncode == 0:
            return load(out), ""
        if r.returncode == 2 and "goroutine" not in r.stderr:
            raise Broken("the harness failed: " + r.stderr[-2000:])
        return None, r.stderr[:6000]

    # -- checking --------------------------------------------------------------------------------------------------

    def tlc(self, module, env=None, workers=1, heap="2g", cfg=None, timeout=850, extra=()):
        meta = self.path("meta")
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", meta, "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC did not end in time on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        return r.stdout

    def check_chunk(self, traces, strict):
        """[(index, handle, expected)] of what the specification does not allow in traces, and the rejected indices."""
        src = self.path("chunk.json")
        # only what the specification looks at; skipped ones stay empty
        dump(src, [{"ops": t["ops"], "outs": t["outs"]} for t in traces])
        out = self.tlc("CypherTrace", {"TRACES": src})
        os.unlink(src)
        bad, unsupported = [], []
        for m in re.finditer(r'^"@@(MISMATCH|UNSUPPORTED) (\d+) (\d+) (.*)"$', out, re.M):
            if m[1] == "UNSUPPORTED":
                unsupported.append(int(m[2]) - 1)
            else:
                bad.append((int(m[2]) - 1, int(m[3]), json.loads(json.loads('"' + m[4] + '"'))))
        st = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        want = sum(len(t["ops"]) + 2 for t in traces)
        if "Error:" in out or not st or int(st[2]) != want:
            if not strict:
                if len(traces) == 1:
                    return [], [0]
                m = len(traces) // 2
                b1, u1 = self.check_chunk(traces[:m], strict)
                b2, u2 = self.check_chunk(traces[m:], strict)
                return b1 + [(i + m, h, e) for i, h, e in b2], u1 + [i + m for i in u2]
            raise Broken("TLC failed: " + out[-3000:])
        self.states += int(st[2])
        self.transitions += int(st[1]) - len(traces)
        return bad, unsupported

    def check(self, traces, strict=True, chunk=None):
        if not traces:
            return [], []
        n = max(1, min(WORKERS, (len(traces) + 39) // 40))
        size = chunk or min(2000, (len(traces) + n - 1) // n)
        parts = [(i, traces[i:i + size]) for i in range(0, len(traces), size)]
        bad, unsupported = [], []
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            for (i, _), (b, u) in zip(parts, ex.map(lambda p: self.check_chunk(p[1], strict), parts)):
                bad += [(i + j, h, e) for j, h, e in b]
                unsupported += [i + j for j in u]
        return bad, unsupported

    # -- exploring -------------------------------------------------------------------------------------------------

    def walk(self, plan, depth):
        """All programs of a plan with up to depth calls, what is specified of their statements, and the number of states."""
        out = self.tlc("CypherWalk", {"PLAN": plan, "DEPTH": str(depth)}, workers=WORKERS, heap="8g")
        st = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if "Error:" in out or not st:
            raise Broken("TLC failed on the plan %s: %s" % (plan, "\n".join(x for x in out.splitlines() if not x.startswith('"@@'))[-3000:]))
        prefix, found = None, []
        for line in out.splitlines():
            if line.startswith('"@@W '):
                found.append(json.loads(json.loads(line)[4:]))
            elif line.startswith('"@@PREFIX '):
                prefix = json.loads(json.loads(line)[9:])
        found.sort(key=lambda w: json.dumps(w["ops"], sort_keys=True))
        programs, expected = [], []
        for i, w in enumerate(found):
            ops, exp = reduced(prefix + w["ops"], w["exp"])
            programs.append({"id": "%s-%d" % (plan, i), "ops": ops, "mode": i})
            expected.append(exp)
        self.states += int(st[2])
        self.transitions += int(st[1])
        return programs, expected, int(st[2])

    # -- shrinking -------------------------------------------------------------------------------------------------

    def shrink(self, tasks, deadline):
        """tasks [{program, h}] that fail; gives smaller ones that fail, each with expectation and observation."""
        best = [dict(t) for t in tasks]
        active = set(range(len(best)))
        while active and time.time() < deadline:
            todo = sorted(active)
            src, out = self.path("tasks.json"), self.path("cands.json")
            dump(src, [{"program": best[i]["program"], "h": best[i]["h"]} for i in todo])
            r = self.harness("shrink", "-in", src, "-out", out, "-n", str(max(30, 900 // len(todo))))
            if r.returncode != 0:
                raise Broken("shrinking failed: " + r.stderr[-2000:])
            cands = load(out)
            if not cands:
                break
            for k, c in enumerate(cands):
                c["program"]["id"] = "c%d" % k
            traces = self.run([c["program"] for c in cands], lenient=True, limit=5)
            bad, unsupported = self.check(traces, strict=False)
            failing = {}
            for j, h, e in bad:
                if h == cands[j]["h"] or any(o["h"] == h and o["obs"][0]["x"] in ("panic", "hang") for o in traces[j]["outs"]):
                    failing.setdefault(j, (h, e))
            done = set(todo)
            for k, i in enumerate(todo):
                for j, c in enumerate(cands):
                    if c["task"] == k and j in failing:
                        h, e = failing[j]
                        c["program"]["id"] = best[i]["program"]["id"]
                        best[i] = {"program": c["program"], "h": h, "exp": e, "obs": observed(traces[j], h)}
                        done.discard(i)
                        break
            active -= done
        return best

    def tags(self, tasks):
        src, out = self.path("tasks.json"), self.path("tags.json")
        dump(src, [{"program": t["program"], "h": t["h"]} for t in tasks])
        r = self.harness("tags", "-in", src, "-out", out)
        if r.returncode != 0:
            raise Broken("tags: " + r.stderr[-2000:])
        return load(out)


def observed(trace, h):
    for o in trace["outs"]:
        if o["h"] == h:
            return o["obs"]
    return []


def load(path):
    with open(path) as f:
        return json.load(f)


def dump(path, v):
    with open(path, "w") as f:
        json.dump(v, f)


CLAUSES = {"MATCH", "UNWIND", "CALL", "WITH", "CREATE", "MERGE", "DELETE", "SET", "REMOVE", "RETURN", "UNION", "OPTIONAL", "DETACH"}


def skeleton(tokens):
    out, prev = [], ""
    for t in tokens:
        if t in CLAUSES and not (t == "WITH" and prev in ("STARTS", "ENDS")):
            out.append(t)
        prev = t
    return out


def attribute(task, tags):
    """The properties that a (shrunk) failure is a violation of."""
    exp, obs = task["exp"], task["obs"]
    props = set()
    kinds = {o["x"] for o in obs}
    if kinds & {"panic", "hang"} or any((o["x"] == "err") != (exp["x"] == "err") for o in obs):
        props.add("C07")
    if len(obs) > 1:
        props |= {"C02", "C03"}
    tags = set(tags)
    slice_only = needed(task["program"]["ops"], task["h"])
    if len(slice_only) < len([o for o in task["program"]["ops"]]):
        props |= {"C02"}
    if exp["x"] == "err" and kinds == {""}:
        return props
    props |= tags - {"C01"}
    if "C01" in tags:
        if tags == {"C01"} or any(skeleton(o["o"]) != skeleton(exp["o"]) for o in obs):
            props.add("C01")
    return props


def symptom(task):
    """What differs, without its surroundings."""
    e = task["exp"]["o"]
    o = next((b for b in task["obs"] if b["x"] != task["exp"]["x"] or b["o"] != e), {"x": "", "o": []})
    a, b = list(e), list(o["o"])
    while a and b and a[0] == b[0]:
        a, b = a[1:], b[1:]
    while a and b and a[-1] == b[-1]:
        a, b = a[:-1], b[:-1]
    return task["exp"]["x"], o["x"], tuple(a), tuple(b)


def needed(ops, h):
    want = {h}
    for i in range(h, 0, -1):
        if i in want:
            want |= set(op_refs(ops[i - 1]))
    return want


def reduced(ops, exp):
    """The operations that the statements in exp need."""
    keep = set()
    for x in exp:
        keep |= needed(ops, x["h"])
    num = {h: i for i, h in enumerate(sorted(keep), 1)}

    def arg(a):
        if a["t"] == "h":
            return {"t": "h", "v": num[a["v"]]}
        if a["t"] == "l":
            return {"t": "l", "v": [arg(x) for x in a.get("v") or []]}
        return a
    out = [{"m": ops[h - 1]["m"], "r": num.get(ops[h - 1]["r"], 0), "a": [arg(a) for a in ops[h - 1]["a"] or []]} for h in sorted(keep)]
    return out, [dict(x, h=num[x["h"]]) for x in exp]


def op_refs(op):
    out = [op["r"]] if op["r"] else []

    def walk(a):
        if a["t"] == "h":
            out.append(a["v"])
        elif a["t"] == "l":
            for x in a.get("v") or []:
                walk(x)
    for a in op["a"] or []:
        walk(a)
    return out


def show_arg(a):
    if a["t"] == "h":
        return "v%d" % a["v"]
    if a["t"] == "l":
        return "{" + ", ".join(show_arg(x) for x in a.get("v") or []) + "}"
    if a["t"] == "n":
        return "nil"
    return json.dumps(a["v"])


def show(program):
    return ["v%d := %s%s(%s)" % (i, "v%d." % o["r"] if o["r"] else "", o["m"], ", ".join(show_arg(a) for a in o["a"] or []))
            for i, o in enumerate(program["ops"], 1)]
