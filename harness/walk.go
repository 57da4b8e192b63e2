package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
)

var buildDefault = map[string]float64{
	"Match": 2, "OptionalMatch": 1.5, "MatchDefault": 0.7, "With": 1.5, "WithByString": 0.7, "WithByNamed": 0.7, "WithDistinct": 0.7,
	"WithDistinctByString": 0.4, "WithDistinctByNamed": 0.4, "Unwind": 0.6, "UnwindByString": 0.4, "Unwinds": 0.4, "Call": 0.5, "Call1": 0.7,
	"Create": 0.8, "Merge": 0.9, "Set": 0.8, "SetWithNamed": 0.4, "SetByNode": 0.4, "RemoveByNode": 0.4, "Remove": 0.5,
	"Delete": 0.4, "DeleteByString": 0.2, "DeleteByNamed": 0.2, "DetachDelete": 0.4, "DetachDeleteByString": 0.2, "DetachDeleteByNamed": 0.2,
	"OnCreate": 2, "OnMatch": 2,
	"Where": 4, "WhereConditionContainer": 1, "WherePattern": 1, "And": 2, "Or": 1.5, "AndPattern": 0.7, "OrPattern": 0.7,
	"OrderBy": 1, "OrderByExpression": 1, "OrderBySortItem": 1, "And1": 2, "Ascending": 2, "Descending": 2, "Skip": 1, "Limit": 1,
	"Returning": 1.2, "ReturningByString": 0.4, "ReturningByNamed": 0.4, "ReturningDistinct": 0.5, "ReturningDistinctByString": 0.25,
	"ReturningDistinctByNamed": 0.25, "WithArgs": 3, "Yield": 1, "YieldString": 1, "YieldSymbolic": 1, "Build": 1.5, "As": 5,
}
var returns = []string{"Returning", "Returning", "Returning", "ReturningByString", "ReturningByNamed", "ReturningDistinct",
	"ReturningDistinctByString", "ReturningDistinctByNamed"}

var startDefault = map[string]float64{"Match": 5, "AnOptionalMatch": 0.7, "MatchWithOption": 0.5, "Create": 1, "Merge": 1.2, "With": 0.8,
	"WithByString": 0.4, "WithByNamed": 0.4, "Unwind": 0.5, "UnwindMulti": 0.4, "CypherReturning": 0.8, "ACall": 0.5, "StatementCall": 0.3,
	"ACallSimple": 0.5, "ACallByStatement": 0.4}

var starts, builds = keys(startDefault), keys(buildDefault)

func keys(m map[string]float64) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (g *gen) buildWeight(k string) float64 {
	if w, ok := g.p.build[k]; ok {
		return w
	}
	if w, ok := startDefault[k]; ok {
		if v, ok := buildDefault[k]; !ok || v < w {
			return w
		}
	}
	return buildDefault[k]
}

func has(t reflect.Type, m string) bool {
	_, ok := t.MethodByName(m)
	return ok
}

// isBuilder: a statement under construction
func isBuilder(m *meta) bool {
	return m.t.Kind() == reflect.Interface && (has(m.t, "Returning") && !has(m.t, "ReturningDefault") && !has(m.t, "AsFunction") && has(m.t, "ReturningDistinct") ||
		has(m.t, "Build") || has(m.t, "OrderByExpression"))
}

// step calls one of the continuations of the builder b, of those in from.
func (g *gen) step(b, d int, ok func(string) bool) int {
	t := g.hs[b].t
	opts := []string{}
	for _, m := range builds {
		if has(t, m) && ok(m) && m != "Build" {
			if (m == "OnCreate" || m == "OnMatch") && g.hs[b].open != "merge" {
				continue
			}
			opts = append(opts, m)
		}
	}
	if len(opts) == 0 {
		return 0
	}
	m := weighted(g.r, opts, g.buildWeight)
	return g.continueBy(b, m, d)
}

func (g *gen) continueBy(b int, m string, d int) int {
	var h int
	switch m {
	case "Where", "And", "Or", "WhereConditionContainer":
		mt, _ := g.hs[b].t.MethodByName(m)
		if p := mt.Type.In(0); p == tCond || p == tCondC {
			if p == tCond && g.invalid() {
				h = g.emit(m, b, Arg{T: "n"})
			} else {
				h = g.emit(m, b, hArg(g.cond(d, true)))
			}
		} else {
			h = g.call(b, m, d)
		}
	case "Unwind":
		if c := g.candidates(tAliased, nil); len(c) > 0 && g.chance(0.4) {
			h = g.emit(m, b, hArg(c[g.r.Intn(len(c))]))
		} else {
			h = g.call(b, m, d)
		}
		h = g.emit("As", h, g.str("name"))
	case "UnwindByString", "Unwinds":
		h = g.emit("As", g.call(b, m, d), g.str("name"))
	case "OnCreate", "OnMatch":
		h = g.call(g.emit(m, b), g.pick("Set", "Set", "Set", "SetWithNamed"), d)
		g.m(h).open = "merge"
	default:
		h = g.call(b, m, d)
	}
	if m == "Merge" {
		g.m(h).open = "merge"
	}
	return h
}

func (g *gen) start(d int) int {
	f := weighted(g.r, starts, g.buildWeight)
	h := 0
	switch f {
	case "Unwind", "UnwindMulti":
		h = g.emit("As", g.fn(f, d), g.str("name"))
	default:
		h = g.fn(f, d)
	}
	if f == "Merge" {
		g.m(h).open = "merge"
	}
	return h
}

// finish walks from the builder b to a statement.
func (g *gen) finish(b, steps, d int, mustReturn bool) int {
	for i := 0; ; i++ {
		t := g.hs[b].t
		returned := !has(t, "Returning") && has(t, "Build") && !has(t, "AsFunction")
		if has(t, "Build") && (returned || !mustReturn) {
			p := 0.15
			if returned {
				p = 0.4
			}
			if i >= steps {
				p = 0.8
			}
			if g.chance(p) {
				h := g.emit("Build", b)
				g.m(h).open = "other"
				if returned {
					g.m(h).open = "ret"
				}
				return h
			}
		}
		next := 0
		if i >= steps && has(t, "Returning") && !returned {
			m := g.pick(returns...)
			next = g.call(b, m, d)
		} else {
			next = g.step(b, d, func(m string) bool {
				return !(mustReturn && i >= steps) || !has(t, "Returning")
			})
		}
		if next == 0 {
			if has(t, "Build") {
				h := g.emit("Build", b)
				g.m(h).open = "other"
				return h
			}
			panic(fmt.Sprintf("stuck at %v", t))
		}
		b = next
		if i > 40 {
			panic(fmt.Sprintf("endless at %v", t))
		}
	}
}

func returning(m *meta) bool { return m.open == "ret" || m.open == "union" }
func single(m *meta) bool    { return m.open == "ret" }

// statement makes a statement that returns something.
func (g *gen) statement(d int) int {
	if h := g.again(tStatement, returning); h > 0 {
		return h
	}
	if g.chance(0.15) && d > 0 {
		return g.union(d - 1)
	}
	return g.finish(g.start(d-1), 1+g.r.Intn(2), d-1, true)
}

func (g *gen) union(d int) int {
	m := g.pick("Union", "UnionAll")
	out := []Arg{}
	n := 2 + g.r.Intn(3)
	if g.invalid() {
		n = 1
	}
	for i := 0; i < n; i++ {
		if i == 0 && g.chance(0.3) || g.chance(0.07) {
			for h := len(g.hs) - 1; h > 0; h-- {
				if g.hs[h].open == "union" && (g.ops[h-1].M == m || g.invalid()) {
					out = append(out, hArg(h))
					break
				}
			}
			if len(out) > i {
				continue
			}
		}
		if c := g.candidates(tStatement, single); len(c) > 0 && g.chance(0.4) {
			out = append(out, hArg(c[g.r.Intn(len(c))]))
			continue
		}
		if g.chance(0.08) {
			if g.invalid() {
				out = append(out, Arg{T: "n"})
				continue
			}
		}
		out = append(out, hArg(g.finish(g.start(d), g.r.Intn(2), d, true)))
	}
	h := g.emit(m, 0, lArg(out))
	g.m(h).open = "union"
	return h
}

// show makes a statement out of elements, so that they can be seen.
func (g *gen) show(hs ...int) {
	pes, exprs, conds, sorts := []Arg{}, []Arg{}, []Arg{}, []Arg{}
	for _, h := range hs {
		m := g.hs[h]
		t := plain(m.t)
		switch {
		case m.absent:
			conds = append(conds, hArg(h))
		case t.AssignableTo(tCond) && g.chance(0.5):
			conds = append(conds, hArg(h))
		case t == tSort:
			sorts = append(sorts, hArg(h))
		case t.AssignableTo(tExpr):
			exprs = append(exprs, hArg(h))
		case t.AssignableTo(tPE):
			pes = append(pes, hArg(h))
		}
	}
	b := 0
	if len(pes) > 0 {
		b = g.emit(g.pick("Match", "Match", "Match", "AnOptionalMatch", "Create", "Merge"), 0, lArg(pes))
	}
	for len(conds) > 0 {
		if b == 0 {
			b = g.emit("Match", 0, lArg([]Arg{hArg(g.emit("AnyNodeNamed", 0, sArg("n")))}))
		}
		if !has(g.hs[b].t, "Where") && !has(g.hs[b].t, "And") {
			b = g.emit("WithByString", b, lArg([]Arg{sArg("w")}))
		}
		if has(g.hs[b].t, "Where") {
			b = g.emit("Where", b, conds[0])
		} else {
			b = g.emit(g.pick("And", "Or"), b, conds[0])
		}
		conds = conds[1:]
	}
	if len(exprs) == 0 {
		exprs = append(exprs, hArg(g.emit("ASymbolic", 0, sArg("s"))))
	}
	if len(exprs) > 1 && g.chance(0.3) {
		m := g.pick("With", "With", "WithDistinct")
		if b == 0 {
			b = g.emit("With", 0, lArg(exprs[:1]))
		} else {
			b = g.emit(m, b, lArg(exprs[:1]))
		}
		exprs = exprs[1:]
	}
	if b == 0 {
		b = g.emit("CypherReturning", 0, lArg(exprs))
	} else {
		b = g.emit(g.pick("Returning", "Returning", "ReturningDistinct"), b, lArg(exprs))
	}
	if len(sorts) > 0 {
		b = g.emit("OrderBySortItem", b, lArg(sorts))
	}
	h := g.emit("Build", b)
	g.m(h).open = "ret"
}

func showable(m *meta) bool {
	t := plain(m.t)
	return t.AssignableTo(tExpr) && t != tEntry || t.AssignableTo(tPE) || t == tSort
}

var tasks = []string{"walk", "fork", "expr", "cond", "pattern", "derive", "union", "subquery", "rebuild", "old", "literal", "call", "update"}
var taskDefault = map[string]float64{"walk": 3, "fork": 1.5, "expr": 1.5, "cond": 1, "pattern": 1, "derive": 1, "union": 0.3, "subquery": 0.3,
	"rebuild": 0.3, "old": 0.7, "literal": 0.2, "call": 0.3, "update": 0.4}

func (g *gen) task(k string) {
	d := g.p.depth
	g.budget = 25
	switch k {
	case "walk":
		g.finish(g.start(d), g.r.Intn(g.p.steps+1), d, false)
	case "fork":
		c := []int{}
		for h := range g.hs {
			if h > 0 && isBuilder(&g.hs[h]) && (!g.hs[h].bad || g.bad) && g.hs[h].size < 80 {
				c = append(c, h)
			}
		}
		if len(c) == 0 {
			g.task("walk")
			return
		}
		b := c[g.r.Intn(len(c))]
		for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
			g.budget = 10
			g.finish(b, g.r.Intn(3), g.r.Intn(d+1), false)
		}
	case "expr":
		hs := []int{}
		for i, n := 0, 1+g.r.Intn(2); i < n; i++ {
			hs = append(hs, g.expr(d+1))
		}
		g.show(hs...)
	case "cond":
		hs := []int{g.cond(d+1, true)}
		if g.chance(0.3) {
			hs = append(hs, g.cond(d, true))
		}
		g.show(hs...)
	case "literal":
		hs := []int{}
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			switch g.r.Intn(4) {
			case 0:
				hs = append(hs, g.param())
			case 1:
				hs = append(hs, g.fn(g.pick("ListOf", "ListOfRaw", "MapOf", "ListLiteralCreate"), 1))
			default:
				hs = append(hs, g.literal(d))
			}
		}
		g.show(hs...)
	case "pattern":
		hs := []int{}
		for i, n := 0, 1+g.r.Intn(2); i < n; i++ {
			hs = append(hs, g.pe(d))
		}
		g.show(hs...)
	case "derive":
		g.derive(d)
	case "union":
		g.union(d - 1)
	case "subquery":
		q := g.statement(d)
		b := 0
		if g.chance(0.5) {
			b = g.emit("ACallByStatement", 0, hArg(q))
		} else {
			s := g.emit("Match", 0, lArg([]Arg{hArg(g.pe(1))}))
			b = g.emit("Call", s, hArg(q))
		}
		g.finish(b, g.r.Intn(3), d, true)
	case "rebuild":
		c := []int{}
		for h := range g.hs {
			if h > 0 && g.hs[h].t.Kind() == reflect.Interface && has(g.hs[h].t, "Build") && (!g.hs[h].bad || g.bad) {
				c = append(c, h)
			}
		}
		if len(c) == 0 {
			g.task("walk")
			return
		}
		b := c[g.r.Intn(len(c))]
		h := g.emit("Build", b)
		g.m(h).open = "other"
		if !has(g.hs[b].t, "Returning") && !has(g.hs[b].t, "AsFunction") {
			g.m(h).open = "ret"
		}
	case "old":
		c := []int{}
		for h := range g.hs {
			if h > 0 && showable(&g.hs[h]) && (!g.hs[h].bad || g.bad) && g.hs[h].size < 60 {
				c = append(c, h)
			}
		}
		if len(c) == 0 {
			g.task("expr")
			return
		}
		hs := []int{}
		for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
			hs = append(hs, c[g.r.Intn(len(c))])
		}
		g.show(hs...)
	case "call":
		b := g.fn(g.pick("ACall", "ACallSimple", "StatementCall"), d)
		forks := []int{b}
		for i, n := 0, 1+g.r.Intn(2); i < n; i++ {
			f := forks[g.r.Intn(len(forks))]
			if has(g.hs[f].t, "WithArgs") && g.chance(0.6) {
				f = g.call(f, "WithArgs", d-1)
				forks = append(forks, f)
			}
			if has(g.hs[f].t, "Yield") && g.chance(0.6) {
				f = g.call(f, g.pick("Yield", "YieldString", "YieldSymbolic"), d-1)
				forks = append(forks, f)
			}
			g.finish(f, g.r.Intn(3), d-1, false)
		}
	case "update":
		b := 0
		switch g.r.Intn(3) {
		case 0:
			b = g.fn("Create", d-1)
		case 1:
			b = g.fn("Merge", d-1)
			g.m(b).open = "merge"
		case 2:
			b = g.fn("Match", d-1)
		}
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			x := g.step(b, d-1, func(m string) bool {
				switch m {
				case "Set", "SetWithNamed", "SetByNode", "RemoveByNode", "Remove", "Delete", "DetachDelete", "DeleteByString", "DeleteByNamed",
					"DetachDeleteByString", "DetachDeleteByNamed", "Create", "Merge", "OnCreate", "OnMatch", "WithByString":
					return true
				}
				return false
			})
			if x == 0 {
				break
			}
			b = x
		}
		g.finish(b, 0, d-1, false)
	}
}

// derive makes several things from one and shows them and the one they came from.
func (g *gen) derive(d int) {
	hs := []int{}
	switch g.r.Intn(8) {
	case 0:
		x := g.node(d, false)
		hs = append(hs, x)
		for i := 0; i < 2+g.r.Intn(2); i++ {
			hs = append(hs, g.nodeDerive(hs[g.r.Intn(len(hs))], d-1))
		}
	case 1:
		x := g.rel(d, false)
		hs = append(hs, x)
		for i := 0; i < 2+g.r.Intn(2); i++ {
			from := hs[g.r.Intn(len(hs))]
			y := g.relDerive(from, d-1)
			if g.hs[y].t == tRel {
				hs = append(hs, y)
			}
		}
	case 2:
		x := g.chain(d)
		hs = append(hs, x)
		for i := 0; i < 2+g.r.Intn(3); i++ {
			from := hs[g.r.Intn(len(hs))]
			y := g.chainDerive(from, d-1)
			if g.hs[y].t == tChain {
				hs = append(hs, y)
			}
		}
	case 3:
		x := g.cond(d, true)
		hs = append(hs, x)
		for i := 0; i < 2+g.r.Intn(3); i++ {
			from := hs[g.r.Intn(len(hs))]
			c := g.cond(1, true)
			y := g.emit(g.pick("And", "Or", "Xor"), from, hArg(c))
			g.m(y).absent = g.m(from).absent && g.m(c).absent
			hs = append(hs, y)
		}
	case 4:
		x := g.caseExpr(d)
		hs = append(hs, x)
		for i := 0; i < 2+g.r.Intn(2); i++ {
			from := hs[g.r.Intn(len(hs))]
			y := g.emit("Then", g.emit("When", from, hArg(g.expr(1))), hArg(g.expr(1)))
			hs = append(hs, y)
			if g.chance(0.4) {
				hs = append(hs, g.emit("ElseDefault", y, hArg(g.expr(1))))
			}
		}
	case 5:
		x := g.mapProj(d)
		hs = append(hs, x)
		for i := 0; i < 2; i++ {
			hs = append(hs, g.call(hs[g.r.Intn(len(hs))], "And", d-1))
		}
	case 6:
		x := g.mapExpr(d)
		hs = append(hs, x)
		for i := 0; i < 2; i++ {
			hs = append(hs, g.call(hs[g.r.Intn(len(hs))], "AddEntries", d-1))
		}
	case 7:
		x := g.delegate(d)
		hs = append(hs, x)
		y := g.emit("AliasedExpressionCreate", 0, hArg(x), g.str("alias"))
		hs = append(hs, y, g.emit("Aliased", y, g.str("alias")))
	}
	for i := 0; i < 2; i++ {
		sub := []int{}
		for _, h := range hs {
			if g.chance(0.6) {
				sub = append(sub, h)
			}
		}
		if len(sub) == 0 {
			sub = hs[:1]
		}
		g.show(sub...)
	}
	if g.chance(0.4) {
		g.show(hs...)
	}
}

// Generate makes program number n of a profile.
func Generate(p profile, seed int64, id string) Program {
	g := &gen{r: rand.New(rand.NewSource(seed)), p: p, hs: make([]meta, 1), inject: -1}
	if g.chance(p.invalid) {
		g.inject = g.r.Intn(25)
		if g.chance(0.4) {
			g.inject = g.r.Intn(6)
		}
	}
	for i, n := 0, 1+g.r.Intn(p.tasks); i < n && len(g.ops) < 70; i++ {
		g.task(weighted(g.r, tasks, func(k string) float64 {
			if w, ok := p.task[k]; ok {
				return w
			}
			return taskDefault[k]
		}))
	}
	return Program{ID: id, Ops: g.ops, Mode: g.r.Int63()}
}
