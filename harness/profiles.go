package main

func profileOf(name string) profile {
	p := profile{cat: map[string]float64{}, build: map[string]float64{}, task: map[string]float64{}, weird: 0.06, reuse: 0.3,
		invalid: 0.06, depth: 2, tasks: 3, steps: 5}
	cat := func(w float64, ks ...string) {
		for _, k := range ks {
			p.cat[k] = w
		}
	}
	build := func(w float64, ks ...string) {
		for _, k := range ks {
			p.build[k] = w
		}
	}
	task := func(w float64, ks ...string) {
		for _, k := range ks {
			p.task[k] = w
		}
	}
	only := func(ks ...string) {
		for _, k := range tasks {
			p.task[k] = 0.05
		}
		task(2, ks...)
	}
	switch name {
	case "general":
	case "C01":
		only("walk", "fork", "update", "rebuild")
		p.steps, p.depth, p.tasks = 9, 1, 3
		build(0.5, "Returning", "ReturningDistinct", "ReturningByString")
	case "C02":
		only("fork", "derive", "old", "rebuild", "call", "update")
		task(1, "walk")
		p.reuse, p.tasks, p.depth = 0.45, 6, 1
	case "C03":
		only("walk", "old", "union", "subquery", "rebuild", "expr", "pattern")
		p.reuse, p.tasks = 0.5, 6
	case "C04":
		only("pattern", "walk", "derive", "old")
		task(0.6, "union", "subquery")
		build(3, "Match", "OptionalMatch", "Create", "Merge", "WherePattern", "MatchDefault")
		cat(2, "pattern", "exists", "subquery", "compr")
		p.reuse, p.depth, p.tasks = 0.6, 1, 4
	case "C05":
		only("walk", "expr", "old", "fork")
		task(0.5, "subquery", "union", "derive")
		build(3, "With", "WithDistinct", "OrderBy", "OrderByExpression", "OrderBySortItem", "Unwind", "Returning", "Yield")
		cat(5, "alias")
		p.reuse, p.depth = 0.6, 1
	case "C06":
		only("cond", "derive", "walk")
		task(0.5, "fork", "old")
		build(6, "Where", "And", "Or", "AndPattern", "OrPattern")
		cat(4, "cond", "join")
		cat(2.5, "not", "pattern", "labels", "exists")
		p.depth, p.reuse = 3, 0.35
	case "C07":
		p.invalid, p.depth, p.tasks = 0.9, 2, 2
	case "C08":
		p.weird, p.depth = 0.6, 1
		task(1, "literal", "call", "pattern", "expr", "update")
	case "C09":
		only("literal", "expr", "old", "pattern")
		cat(4, "list", "map")
		cat(12, "leaf")
		p.weird, p.reuse, p.invalid = 0.15, 0.2, 0.15
	case "C10":
		only("expr", "cond")
		task(0.5, "old", "walk")
		cat(20, "fn")
		cat(4, "pred", "exists")
		p.invalid = 0.12
	case "C11":
		only("pattern", "derive", "walk")
		task(0.4, "old", "fork")
		cat(3, "pattern", "exists", "subquery", "compr")
		p.reuse, p.tasks = 0.3, 3
	case "C12":
		only("call", "walk", "fork")
		build(6, "Call1", "WithArgs", "Yield", "YieldString", "YieldSymbolic")
		build(4, "ACall", "StatementCall", "ACallSimple", "Where")
		p.depth = 1
	case "C13":
		only("union", "subquery", "walk", "rebuild")
		build(5, "Call", "ACallByStatement")
		cat(5, "subquery")
		p.reuse, p.tasks = 0.4, 4
	case "C14":
		only("walk", "fork", "update")
		build(4, "With", "WithDistinct", "Where", "OrderBy", "OrderByExpression", "OrderBySortItem", "And1", "Skip", "Limit", "ReturningDistinct",
			"OptionalMatch")
		p.steps, p.depth = 8, 1
	case "C15":
		only("expr", "cond")
		task(0.5, "old", "walk")
		cat(14, "arith")
		cat(5, "listop", "cond")
		cat(4, "cmp", "test")
		p.depth, p.reuse = 3, 0.25
	case "C16":
		only("expr", "derive", "walk")
		task(0.5, "old", "cond")
		cat(7, "case", "compr", "list", "listop", "map", "proj")
		cat(4, "pred")
		p.depth = 2
	case "C17":
		only("update", "walk", "fork")
		build(3, "Create", "Merge", "Set", "SetWithNamed", "SetByNode", "RemoveByNode", "Remove", "OnCreate", "OnMatch")
		build(1.5, "Delete", "DeleteByString", "DeleteByNamed", "DetachDelete", "DetachDeleteByString", "DetachDeleteByNamed")
		p.steps, p.depth = 7, 1
	default:
		fail("no profile %s", name)
	}
	return p
}
