package main

import (
	"reflect"
	"sort"
	"strings"
)

// Which properties an operation is about.

var methodTags = map[string]string{}

func init() {
	put := func(kind, tags string, ms ...string) {
		for _, m := range ms {
			methodTags[kind+m] = tags
		}
	}
	// of builders of statements
	put("b.", "C01", "Match", "OptionalMatch", "MatchDefault", "With", "WithByString", "WithByNamed", "Returning", "ReturningByString",
		"ReturningByNamed", "Unwind", "UnwindByString", "Unwinds")
	put("b.", "C01,C14", "WithDistinct", "WithDistinctByString", "WithDistinctByNamed", "ReturningDistinct", "ReturningDistinctByString",
		"ReturningDistinctByNamed")
	put("b.", "C01,C17", "Create", "Merge", "Set", "SetWithNamed", "SetByNode", "RemoveByNode", "Remove", "OnCreate", "OnMatch", "Delete",
		"DeleteByString", "DeleteByNamed", "DetachDelete", "DetachDeleteByString", "DetachDeleteByNamed")
	put("b.", "C01,C12", "Call1")
	put("b.", "C01,C13", "Call")
	put("b.", "C13,C06", "AsCondition")
	put("b.", "C14,C06", "Where", "WhereConditionContainer", "WherePattern", "And", "Or", "AndPattern", "OrPattern")
	put("b.", "C14", "OrderBy", "OrderByExpression", "OrderBySortItem", "And1", "Ascending", "Descending", "Skip", "Limit")
	put("b.", "C12", "WithArgs", "Yield", "YieldString", "YieldSymbolic")
	put("b.", "C10,C12", "AsFunction")
	// of expressions and conditions
	put("e.", "C15,C06", comparisons...)
	put("e.", "C15,C06", tests...)
	put("e.", "C15", arithMethods...)
	put("e.", "C05", "As", "Aliased", "AsName")
	put("e.", "C14", "Ascending", "Descending")
	put("e.", "C06", "Not", "And", "Or", "Xor", "AndPattern", "OrPattern", "XorPattern")
	put("e.", "C17", "To")
	put("e.", "C16", "When", "Then", "ElseDefault")
	put("e.", "C16,C09", "AddEntries")
	put("p.", "C16", "And")
	// of patterns
	put("n.", "C11", "RelationshipTo", "RelationshipFrom", "RelationshipBetween", "Min", "Max", "Length", "Unbounded")
	put("n.", "C11,C04", "Named", "NamedC", "NamedByString", "WithProperties", "Properties", "WithRawProperties", "PropertiesRaw")
	put("n.", "C15", "Property")
	put("n.", "C06", "HasLabels")
	put("n.", "C10", "InternalId", "Labels")
	put("n.", "C05", "As")
	put("n.", "C16", "Project")
	// of the builders of elements
	put("x.", "C16", "In", "Where", "Returning", "ReturningByNamed", "ReturningDefault", "And", "Or", "WherePattern", "AndPattern", "OrPattern",
		"Then")
	put("x.", "C11", "DefinedBy")
	put("x.", "C01,C05", "As")
	put("x.", "C17", "Set", "SetWithNamed")
}

func kindOf(t reflect.Type) string {
	t = plain(t)
	switch {
	case t == tNode || t == tRel || t == tChain || t == tPath:
		return "n."
	case t == tProj:
		return "p."
	case t == tSort || t.AssignableTo(tExpr):
		return "e."
	case has(t, "Build") || has(t, "ReturningDistinct"):
		return "b."
	}
	return "x."
}

// tagsOf gives the tags of all operations that are not just means to show something.
func tagsOf(p Program) []string {
	ts := staticTypes(p.Ops)
	out := map[string]bool{}
	raw := false
	var lookRaw func(a Arg, depth int)
	lookRaw = func(a Arg, depth int) {
		if depth > 0 && (a.T == "i" || a.T == "f" || a.T == "b" || a.T == "n") {
			raw = true
		}
		for _, x := range a.L {
			lookRaw(x, depth+1)
		}
		if a.T == "s" && !simple(a.S) {
			out["C08"] = true
		}
	}
	named, pattern := false, false
	for _, o := range p.Ops {
		tags := ""
		if o.R == 0 {
			tags = wordByName[o.M].props
			if o.M == "AnyNodeNamed" {
				named = true
			}
		} else if ts != nil {
			k := kindOf(ts[o.R])
			tags = methodTags[k+o.M]
			if k == "n." && strings.HasPrefix(o.M, "Named") {
				named = true
			}
		}
		for _, a := range o.A {
			lookRaw(a, 0)
			if ts != nil {
				for _, r := range refs(a) {
					if ts[r].AssignableTo(tPE) && strings.Contains("Match Create Merge AnOptionalMatch MatchWithOption OptionalMatch", o.M) {
						pattern = true
					}
					if ts[r].AssignableTo(tRelPat) || ts[r] == tPath {
						pattern = true
					}
				}
			}
		}
		switch o.M { // what merely fills a place
		case "ASymbolic", "AnyNode", "AnyNodeNamed", "TRUE_CONDITION", "LiteralTrue":
			continue
		case "MapOf":
			if len(refs(lArg(o.A))) == 0 && len(o.A[0].L) == 0 {
				continue
			}
		}
		for _, t := range strings.Split(tags, ",") {
			if t != "" && t != "C08" {
				out[t] = true
			}
		}
	}
	if raw {
		out["C09"] = true
	}
	if named && pattern {
		out["C04"] = true
	}
	// something that other things were made from more than once, or that was used and something was made from it
	if ts != nil {
		made, used := map[int]int{}, map[int]int{}
		for _, o := range p.Ops {
			if o.R > 0 {
				made[o.R]++
			}
			for _, r := range opRefs(o) {
				used[r]++
			}
		}
		for r, n := range used {
			if n > 1 && made[r] > 0 && p.Ops[r-1].M != "ASymbolic" {
				out["C02"] = true
			}
		}
	}
	l := []string{}
	for t := range out {
		l = append(l, t)
	}
	sort.Strings(l)
	return l
}
