"""What the checks do."""
import collections
import random
import time

import vlib
from vlib import Broken, log, observed, show


# what CypherWalk explores for a property: plan and depths
WALKS = {
    "C01": [("clauses", 4, 5), ("updates", 3, 4), ("calls", 3, 4)],
    "C02": [("forks", 4, 5), ("forks2", 4, 5), ("derive", 2, 3)],
    "C03": [("derive", 2, 2), ("forks", 3, 4)],
    "C04": [("patuses", 2, 3), ("patterns", 2, 3)],
    "C05": [("aliases", 5, 6)],
    "C06": [("conds", 3, 3), ("condwhere", 3, 4)],
    "C07": [("eachbad", 1, 1)],
    "C08": [("strings", 1, 1)],
    "C09": [("values", 2, 2)],
    "C10": [("each", 1, 1)],
    "C11": [("patterns", 2, 3), ("patuses", 2, 2)],
    "C12": [("calls", 5, 6)],
    "C13": [("unions", 3, 3)],
    "C14": [("mods", 5, 6)],
    "C15": [("exprs", 3, 3), ("operators", 2, 2)],
    "C16": [("parts", 3, 3)],
    "C17": [("updates", 4, 5)],
}


class Run:
    def __init__(self, s, prop, seed, tier):
        self.s, self.prop, self.seed, self.tier = s, prop, seed, tier
        self.violations = []
        self.notes = []
        self.assumptions = [
            "the compiler, TLC and the executor of the programs (harness/) are trusted",
            "values are compared as token sequences: white space between tokens is not",
        ]
        self.coverage = {"traces_validated_against_impl": 0, "samples": []}

    def all(self):
        bad = self.walks()
        if bad:
            self.explain(bad)
        if not self.violations:
            self.traces()
        if self.prop == "C03" and not self.violations:
            self.schedules()

    # -- all programs of a bounded length, from the specification, executed by the real code ---------------------------

    def walks(self):
        bad = []
        explored = {}
        for plan, quick, thorough in WALKS[self.prop]:
            depth = quick if self.tier == "quick" else thorough
            programs, expected, states = self.s.walk(plan, depth)
            traces = []
            for i in range(0, len(programs), 40000):
                traces += self.s.run(programs[i:i + 40000])
            for p, t, exp in zip(programs, traces, expected):
                obs = {o["h"]: o["obs"] for o in t["outs"]}
                for x in exp:
                    got = obs.get(x["h"], [{"x": "none", "o": []}])
                    if any(o != x["e"] for o in got):
                        bad.append((p, t, x["h"], x["e"]))
                for h in obs:
                    if any(o["x"] in ("panic", "hang") for o in obs[h]) and not any(x["h"] == h for x in exp):
                        bad.append((p, t, h, {"x": "none", "o": []}))
            explored[plan] = {"depth": depth, "states": states, "programs": len(programs)}
            self.coverage["traces_validated_against_impl"] += len(traces)
            log("%s, up to %d calls: %d states, %d programs, %d not as specified" % (plan, depth, states, len(programs), len({b[0]["id"] for b in bad})))
        self.coverage["explored_completely"] = explored
        return bad

    # -- goroutines that share values ---------------------------------------------------------------------------------

    def schedules(self):
        """Programs whose operations several goroutines execute at once, in a binary with the race detector."""
        n = 1600 if self.tier == "quick" else 40000
        self.s.build(race=True)
        programs = []
        for profile, share in (("C03", 0.5), ("general", 0.3), ("C02", 0.1), ("C05", 0.1)):
            programs += self.s.generate(profile, self.seed * 1000 + 503, int(n * share))
        checked = 0
        for i in range(0, len(programs), 800):
            part = programs[i:i + 800]
            traces, wrong = self.s.conc(part)
            if wrong:
                small = self.fewer(part, lambda ps: self.s.conc(ps, timeout=30)[1])
                self.violations.append(("race", {"programs": small, "calls": [show(p) for p in small], "note": wrong}))
                log("goroutines that share values: " + wrong[:1500])
                return
            bad, _ = self.s.check(traces)
            checked += len(traces)
            if bad:
                j, h, e = bad[0]
                alone = self.s.run([part[j]])
                if not any(k == 0 for k, _, _ in self.s.check(alone)[0]):
                    self.violations.append(("schedule", self.detail(part[j], h, e, observed(traces[j], h), "only in several goroutines")))
                    return
        self.coverage["programs_in_goroutines"] = checked
        self.coverage["traces_validated_against_impl"] += checked
        log("%d programs in goroutines" % checked)

    def fewer(self, programs, fails):
        """Some of the programs that still fail together, if that can be had."""
        deadline = time.time() + 60
        while len(programs) > 1 and time.time() < deadline:
            half = len(programs) // 2
            for part in (programs[:half], programs[half:]):
                if fails(part) or fails(part):
                    programs = part
                    break
            else:
                break
        return programs[:50]

    # -- traces of generated programs, checked against the specification ---------------------------------------------

    def mix(self):
        n = 6000 if self.tier == "quick" else 120000
        p = int(self.prop[1:])
        base = self.seed * 1000 + p
        parts = [(self.prop, base, n * 6 // 10), ("general", base, n * 25 // 100)]
        others = ["C%02d" % i for i in range(1, 18) if i != p]
        rest = n - sum(x[2] for x in parts)
        return parts + [(o, base, rest // len(others)) for o in others]

    def traces(self):
        programs = []
        used = collections.Counter()
        for profile, seed, n in self.mix():
            programs += self.s.generate(profile, seed, n)
            used[profile] += n
        log("%d programs" % len(programs))
        bad, step = [], 24000
        calls, sizes, statements, errors, observations = collections.Counter(), 0, 0, 0, 0
        distinct = set()
        for i in range(0, len(programs), step):
            part = programs[i:i + step]
            traces = self.s.run(part)
            b, unsupported = self.s.check(traces)
            if unsupported:
                raise Broken("not specified: %s" % show(part[unsupported[0]]))
            bad += [(part[j], traces[j], h, e) for j, h, e in b]
            for t in traces:
                for o in t["ops"]:
                    calls[o["m"]] += 1
                sizes += len(t["ops"])
                for o in t["outs"]:
                    statements += 1
                    observations += len(o["obs"])
                    errors += o["obs"][0]["x"] == "err"
                    distinct.add(hash(tuple(o["obs"][0]["o"])))
            self.coverage["traces_validated_against_impl"] += len(traces)
            if bad:
                break
        log("%d of them are not as specified" % len({p["id"] for p, _, _, _ in bad}))
        self.coverage.update({"programs_by_profile": dict(used), "operations_replayed": sizes, "statements_observed": statements,
                              "statements_with_an_error": errors, "distinct_statements": len(distinct),
                              "distinct_api_calls": len(calls), "programs_not_as_specified": len({p["id"] for p, _, _, _ in bad})})
        rnd = random.Random(self.seed)
        for p in rnd.sample(programs[:self.coverage["traces_validated_against_impl"]], 2):
            self.coverage["samples"].append({"id": p["id"], "calls": show(p)})
        if bad:
            self.explain(bad)

    def explain(self, bad):
        """Shrinks failures and finds out whether they are violations of the property."""
        first = {}
        for p, t, h, e in bad:
            if p["id"] not in first or h < first[p["id"]][2]:
                first[p["id"]] = (p, t, h, e)
        bad = sorted(first.values(), key=lambda b: (not b[0]["id"].startswith(self.prop), len(vlib.needed(b[0]["ops"], b[2]))))
        # do they fail on their own?
        again = {}
        few = bad[:200]
        traces = self.s.run([b[0] for b in few], parallel=len(few))
        fails, _ = self.s.check(traces)
        for j, h, e in fails:
            again.setdefault(j, []).append(h)
        single = [b for j, b in enumerate(few) if j in again]
        flaky = [b for j, b in enumerate(few) if j not in again]
        if flaky and self.prop in ("C03",):
            p, t, h, e = flaky[0]
            self.violations.append(("schedule", self.detail(p, h, e, observed(t, h), "differs only while other programs run")))
        deadline = time.time() + (200 if self.tier == "quick" else 600)
        seen, by = set(), {}
        batches = 3 if self.tier == "quick" else 10
        while single and not self.violations and time.time() < deadline and batches:
            batches -= 1
            batch, single = single[:8], single[8:]
            tasks = [{"program": dict(p, ops=t["ops"]), "h": h, "exp": e, "obs": observed(t, h)} for p, t, h, e in batch]
            tasks = self.s.shrink(tasks, deadline)
            tasks = [(t, vlib.attribute(t, tags)) for t, tags in zip(tasks, self.s.tags(tasks))]
            for t, props in tasks:
                by.setdefault(vlib.symptom(t), []).append(props)
            for t, props in tasks:
                # the simplest of the programs with the same symptom says what it is about
                if any(p and p < props for p in by[vlib.symptom(t)]):
                    continue
                text = " ".join(t["exp"]["o"]) + t["exp"]["x"] + repr([(o["x"], o["o"]) for o in t["obs"]])
                if text not in seen and len(seen) < 10:
                    seen.add(text)
                    log("%s -> %s: %s" % (t["program"]["id"], ",".join(sorted(props)), "; ".join(show(t["program"]))))
                    log("   specified: %s %s" % (t["exp"]["x"], " ".join(t["exp"]["o"])))
                    for o in t["obs"]:
                        log("   observed:  %s %s" % (o["x"], " ".join(o["o"])))
                if self.prop in props and len(self.violations) < 3:
                    self.violations.append(("trace", self.detail(t["program"], t["h"], t["exp"], t["obs"], "")))
        if not self.violations:
            self.notes.append("programs are not as specified, but not about this property")
            log("NOTE: what is not as specified is not about " + self.prop)

    def detail(self, program, h, exp, obs, note):
        return {"program": program, "calls": show(program), "statement": h, "expected": exp, "observed": obs, "note": note}


def finding_shows(s, f):
    """Whether the program of a known finding still gives the wrong text."""
    traces = s.run([f["program"]])
    return any(o["o"] == f["observed"] for o in observed(traces[0], f["h"]))


def replay(s, r):
    if r.get("programs"):
        s.build(race=True)
        for _ in range(5):
            traces, wrong = s.conc(r["programs"])
            if wrong:
                print(wrong)
                print("VIOLATION property=%s replay=(this)" % r["property"])
                return 1
        return 0
    if "program" not in r:
        print("this replay file has no program: %s" % r.get("note", r["kind"]))
        return 2
    traces = s.run([r["program"]], parallel=1)
    bad, _ = s.check(traces)
    print("\n".join(show(r["program"])))
    for o in traces[0]["outs"]:
        for b in o["obs"]:
            print("v%d: %s %s" % (o["h"], b["x"], " ".join(b["o"])))
    for _, h, e in bad:
        print("specified v%d: %s %s" % (h, e["x"], " ".join(e["o"])))
    if bad:
        print("VIOLATION property=%s replay=%s" % (r["property"], "(this)"))
    return 1 if bad else 0
