package main

import (
	"reflect"
	"sort"
)

// Shrinking: smaller programs that could fail like a given one.

type Task struct {
	Program Program `json:"program"`
	H       int     `json:"h"`
}

type Candidate struct {
	Task    int     `json:"task"`
	Program Program `json:"program"`
	H       int     `json:"h"`
}

func refs(a Arg) []int {
	if a.T == "h" {
		return []int{a.H}
	}
	out := []int{}
	for _, x := range a.L {
		out = append(out, refs(x)...)
	}
	return out
}

func opRefs(o Op) []int {
	out := []int{}
	if o.R > 0 {
		out = append(out, o.R)
	}
	for _, a := range o.A {
		out = append(out, refs(a)...)
	}
	return out
}

func mapArg(a Arg, f func(int) int) Arg {
	if a.T == "h" {
		a.H = f(a.H)
		return a
	}
	l := make([]Arg, len(a.L))
	for i, x := range a.L {
		l[i] = mapArg(x, f)
	}
	a.L = l
	return a
}

func mapOp(o Op, f func(int) int) Op {
	if o.R > 0 {
		o.R = f(o.R)
	}
	as := make([]Arg, len(o.A))
	for i, a := range o.A {
		as[i] = mapArg(a, f)
	}
	o.A = as
	return o
}

// needed are the operations that the operation h depends on, and h.
func needed(ops []Op, h int) map[int]bool {
	in := map[int]bool{h: true}
	for i := h; i > 0; i-- {
		if in[i] {
			for _, r := range opRefs(ops[i-1]) {
				in[r] = true
			}
		}
	}
	return in
}

// keep drops the operations that are not in, which nothing that is in may need.
func keep(p Program, h int, in map[int]bool) (Program, int) {
	at := map[int]int{}
	ops := []Op{}
	for i := 1; i <= len(p.Ops); i++ {
		if in[i] {
			ops = append(ops, mapOp(p.Ops[i-1], func(r int) int { return at[r] }))
			at[i] = len(ops)
		}
	}
	p.Ops = ops
	return p, at[h]
}

// redirect uses the value b (an earlier one) instead of the value a.
func redirect(p Program, a, b int) Program {
	ops := make([]Op, len(p.Ops))
	for i, o := range p.Ops {
		ops[i] = mapOp(o, func(r int) int {
			if r == a {
				return b
			}
			return r
		})
	}
	p.Ops = ops
	return p
}

func replaceOp(p Program, i int, o Op) Program {
	ops := append([]Op{}, p.Ops...)
	ops[i-1] = o
	p.Ops = ops
	return p
}

// types of the values of a program, as far as they can be told; nil if a call does not fit
func staticTypes(ops []Op) (ts []reflect.Type) {
	ts = make([]reflect.Type, len(ops)+1)
	for i, o := range ops {
		var mt reflect.Type
		skip := 0
		if o.R == 0 {
			f, ok := functions[o.M]
			if !ok {
				return nil
			}
			mt = f.Type()
			if mt.Kind() != reflect.Func {
				ts[i+1] = mt
				continue
			}
		} else {
			rt := ts[o.R]
			m, ok := rt.MethodByName(o.M)
			if !ok {
				rt = plain(rt)
				if m, ok = rt.MethodByName(o.M); !ok {
					return nil
				}
			}
			mt = m.Type
			if rt.Kind() != reflect.Interface {
				skip = 1
			}
		}
		if mt.NumIn()-skip != len(o.A) {
			return nil
		}
		for j, a := range o.A {
			if !fits(a, mt.In(j+skip), ts) {
				return nil
			}
		}
		ts[i+1] = mt.Out(0)
	}
	return ts
}

func fits(a Arg, t reflect.Type, ts []reflect.Type) bool {
	switch a.T {
	case "h":
		if t == tCondC {
			t = tCond
		}
		if t == tStatement && ts[a.H] != tStatement { // names and literals have its methods, too
			return false
		}
		return plain(ts[a.H]).AssignableTo(t)
	case "s":
		return t == tAny || t == tLocation || t.Kind() == reflect.String
	case "b":
		return t == tAny || t.Kind() == reflect.Bool
	case "i":
		return t == tAny || t.Kind() >= reflect.Int && t.Kind() <= reflect.Float64
	case "f":
		return t == tAny || t.Kind() == reflect.Float64
	case "l":
		if t == tAny {
			t = reflect.SliceOf(tLiteral)
		}
		if t.Kind() != reflect.Slice {
			return false
		}
		for _, x := range a.L {
			if !fits(x, t.Elem(), ts) {
				return false
			}
		}
	}
	return true
}

var leaves = []Op{
	{"ASymbolic", 0, []Arg{sArg("a")}}, {"TRUE_CONDITION", 0, nil}, {"LiteralTrue", 0, nil}, {"AnyNode", 0, nil},
	{"AnyNodeNamed", 0, []Arg{sArg("a")}}, {"AParam", 0, []Arg{sArg("a")}}, {"AProperty", 0, []Arg{sArg("a"), sArg("a")}},
	{"MapOf", 0, []Arg{lArg(nil)}},
}

func simple(s string) bool {
	for i, r := range s {
		if !(r == '_' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || i > 0 && '0' <= r && r <= '9') {
			return false
		}
	}
	return s != ""
}

func argVariants(a Arg, out func(Arg)) {
	switch a.T {
	case "s":
		if a.S == "" || a.S == "a" || a.S == "b" {
			return
		}
		out(sArg("a"))
		if !simple(a.S) {
			rs := []rune(a.S)
			if len(rs) > 1 && len(rs) <= 8 {
				for i := range rs {
					out(sArg(string(rs[:i]) + string(rs[i+1:])))
				}
			} else if len(rs) > 8 {
				out(sArg(string(rs[:len(rs)/2])))
				out(sArg(string(rs[len(rs)/2:])))
			}
		} else {
			out(sArg("b"))
		}
	case "i":
		if a.S != "1" {
			out(iArg(1))
		}
	case "f":
		if a.S != "0.5" {
			out(fArg(0.5))
		}
	case "l":
		for i := range a.L {
			l := append([]Arg{}, a.L[:i]...)
			out(lArg(append(l, a.L[i+1:]...)))
			if i+1 < len(a.L) {
				l := append([]Arg{}, a.L[:i]...)
				out(lArg(append(l, a.L[i+2:]...)))
			}
			argVariants(a.L[i], func(x Arg) {
				l := append([]Arg{}, a.L...)
				l[i] = x
				out(lArg(l))
			})
		}
	}
}

// operations that another one can stand for
var plainOf = map[string]string{"Create": "Match", "Merge": "Match", "AnOptionalMatch": "Match", "OptionalMatch": "Match",
	"WithDistinct": "With", "ReturningDistinct": "Returning", "ReturningByString": "Returning", "WithByString": "With",
	"ReturningByNamed": "Returning", "WithByNamed": "With", "WhereConditionContainer": "Where", "OrderByExpression": "OrderBy",
	"NamedByString": "Named", "Named": "NamedByString"}

func size(p Program) int {
	n := 0
	var arg func(a Arg)
	arg = func(a Arg) {
		n += 10
		if a.T == "s" && a.S != "a" {
			n += 1 + len(a.S)
		}
		if a.T == "i" && a.S != "1" || a.T == "f" && a.S != "0.5" {
			n++
		}
		for _, x := range a.L {
			arg(x)
		}
	}
	for _, o := range p.Ops {
		n += 100
		if plainOf[o.M] != "" && o.M != "NamedByString" {
			n += 5
		}
		for _, l := range leaves {
			if o.M == l.M {
				n -= 20
			}
		}
		if o.M == "ASymbolic" {
			n -= 15
		}
		for _, a := range o.A {
			arg(a)
		}
	}
	return n
}

// candidates gives smaller programs, smallest first.
func candidates(p Program, h int, limit int) []Candidate {
	out := []Candidate{}
	have := size(p)
	add := func(q Program, h int) {
		// drop what only the replaced things needed
		if h == 0 || len(q.Ops) == 0 {
			return
		}
		ts := staticTypes(q.Ops)
		if ts == nil {
			return
		}
		if size(q) < have {
			out = append(out, Candidate{Program: q, H: h})
		}
	}
	prune := func(q Program, h int, was map[int]int) { // drops the operations that are not used any more
		for {
			used := map[int]bool{h: true}
			for _, o := range q.Ops {
				for _, r := range opRefs(o) {
					used[r] = true
				}
			}
			in := map[int]bool{}
			n := 0
			for i := range q.Ops {
				if used[i+1] || was[i+1] == 0 {
					in[i+1] = true
					n++
				}
			}
			if n == len(q.Ops) {
				break
			}
			at := map[int]int{}
			k := 0
			for i := 1; i <= len(q.Ops); i++ {
				if in[i] {
					k++
					at[i] = k
				}
			}
			nw := map[int]int{}
			for i, x := range was {
				if at[i] > 0 {
					nw[at[i]] = x
				}
			}
			q, h = keep(q, h, in)
			was = nw
		}
		add(q, h)
	}
	uses := func() map[int]int {
		u := map[int]int{}
		for _, o := range p.Ops {
			for _, r := range opRefs(o) {
				u[r]++
			}
		}
		return u
	}()
	// only what h needs
	q, k := keep(p, h, needed(p.Ops, h))
	add(q, k)
	// without one operation and all that depend on it
	for i := range p.Ops {
		gone := map[int]bool{i + 1: true}
		for j := i + 1; j < len(p.Ops); j++ {
			for _, r := range opRefs(p.Ops[j]) {
				if gone[r] {
					gone[j+1] = true
				}
			}
		}
		if gone[h] {
			continue
		}
		in := map[int]bool{}
		for j := range p.Ops {
			if !gone[j+1] {
				in[j+1] = true
			}
		}
		q, k := keep(p, h, in)
		add(q, k)
	}
	ts := staticTypes(p.Ops)
	if ts == nil {
		return nil
	}
	for i := 1; i <= len(p.Ops); i++ {
		o := p.Ops[i-1]
		if i != h {
			// its receiver or one of its arguments instead of it
			for _, r := range opRefs(o) {
				prune(redirect(p, i, r), h, uses)
			}
			isLeaf := len(opRefs(o)) == 0 && len(o.A) < 2
			for _, l := range leaves {
				if o.M != l.M && (!isLeaf || l.M == "ASymbolic" || l.M == "LiteralTrue") {
					prune(replaceOp(p, i, l), h, uses)
				}
			}
			// an equal or other value of its type from before
			for j := 1; j < i; j++ {
				if ts[j] == ts[i] {
					prune(redirect(p, i, j), h, uses)
				}
			}
		} else if o.R > 0 {
			continue
		}
		if m := plainOf[o.M]; m != "" {
			add(replaceOp(p, i, Op{m, o.R, o.A}), h)
		}
		for k, a := range o.A {
			argVariants(a, func(x Arg) {
				as := append([]Arg{}, o.A...)
				as[k] = x
				prune(replaceOp(p, i, Op{o.M, o.R, as}), h, uses)
			})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return size(out[i].Program) < size(out[j].Program) })
	if len(out) > limit {
		// the smallest, and some of all sizes
		some := out[:limit/2]
		rest := out[limit/2:]
		for i := 0; i < limit-limit/2; i++ {
			some = append(some, rest[i*len(rest)/(limit-limit/2)])
		}
		out = some
	}
	return out
}
