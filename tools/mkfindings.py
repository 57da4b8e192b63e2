"""Writes KNOWN-FINDINGS: the findings that are not repaired, with their programs, and the fix commits of /repo."""
import json
import subprocess

H = lambda h: {"t": "h", "v": h}
S = lambda s: {"t": "s", "v": s}
L = lambda *a: {"t": "l", "v": list(a)}


class P:
    def __init__(self):
        self.ops = []

    def __call__(self, m, r=0, *a):
        self.ops.append({"m": m, "r": r, "a": list(a)})
        return len(self.ops)


def looser():
    p = P()
    n = p("ASymbolic", 0, S("n"))
    c = [p("IsEqualTo", n, H(p("ASymbolic", 0, S(x)))) for x in "abcde"]
    x = p("And", c[0], H(c[1]))
    y = p("Or", c[2], H(c[3]))
    z = p("And", p("Or", x, H(y)), H(c[4]))
    m = p("AnyNodeNamed", 0, S("n"))
    w = p("WhereConditionContainer", p("Match", 0, L(H(m))), H(z))
    h = p("Build", p("ReturningByNamed", w, L(H(m))))
    return p, h


def aliases():
    p = P()
    n = p("AnyNodeNamed", 0, S("n"))
    q = p("Property", n, S("name"))
    a, b = p("AliasedExpressionCreate", 0, H(q), S("x")), p("AliasedExpressionCreate", 0, H(q), S("y"))
    h = p("Build", p("Returning", p("Match", 0, L(H(n))), L(H(a), H(b))))
    return p, h


findings = [
    ("C06", "a compound condition to which a compound of another operator was joined, and that is then continued with a single condition by its first operator, is not grouped: (A AND B OR (C OR D)) AND E is rendered A AND B OR (C OR D) AND E (the existing TestNestedCondition5 expects such text)",
     looser, "MATCH ( n ) WHERE ( n = a AND n = b OR ( n = c OR n = d ) AND n = e ) RETURN n"),
    ("C05", "a second alias of one and the same expression object in a statement is not defined: RETURN n.name AS x, y",
     aliases, "MATCH ( n ) RETURN n . name AS x , y"),
]
props = "84da2c5 C04|c9f3a8d C04|4e36b15 C01|86949d2 C02|5837c5d C02|d0ffacf C02|0f287a6 C14|d2dbc99 C06|57c123f C01|70b58f3 C07|7f017c4 C07|e20d560 C07|f2d2ef9 C09|85cb392 C08|ac5b150 C03|f5195de C14|230e03e C16|4717a51 C10|331392a C12|a800749 C13|f7ea745 C15|68cd779 C07|a8cd8f8 C05|f4b9c4d C08|813cbf9 C05|7a6c84c C07|ca96bbf C06|6d2b652 C02|063fc03 C09|e4ae363 C08|db06ae5 C07|f3c8ca0 C07|472ed28 C07|f5e67b4 C07|9322b55 C07|8d69ff7 C07|3b91dbf C07|68ef790 C09|aece7ba C13|f4e897c C17|50d9947 C14|b74f97a C08|4c03920 C07|6a87cb1 C12|3025025 C05|ec6e409 C07|b7891b6 C07|4368d05 C07"
props = dict(x.split() for x in props.split("|"))
with open("/verif/KNOWN-FINDINGS", "w") as f:
    for prop, what, make, text in findings:
        p, h = make()
        f.write("finding: property=%s %s\n" % (prop, json.dumps({"what": what, "program": {"id": prop + "-known", "ops": p.ops, "mode": 1}, "h": h, "observed": text.split()})))
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if s.startswith("fix: "):
            f.write("fixed: property=%s %s before it, this did not hold: %s\n" % (props[h], h, s[5:]))
