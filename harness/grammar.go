package main

import (
	"reflect"
	"sort"
	"strings"
)

// A Grammar is the fluent interface as the code declares it: which methods the values of a type have and what they
// return, what the functions return and of which types a parameter can be.
type Grammar struct {
	Types map[string]map[string]string `json:"types"`
	Funcs map[string]string            `json:"funcs"`
	Fits  map[string][]string          `json:"fits"`
	Calls []signature                  `json:"calls"`
}

// A signature is a function, or a method of a type, with its parameters.
type signature struct {
	M  string  `json:"m"`
	On string  `json:"on"`
	P  []param `json:"p"`
}

// A param is a parameter: a string (s), integer (i), number (f), boolean (b), value of a type (h), anything (any),
// or a list of one of these (ls, lh, lany).
type param struct {
	K    string `json:"k"`
	T    string `json:"t"`
	Role string `json:"role"`
}

var byName = map[string]reflect.Type{}

func params(t reflect.Type, skip int, roles string) []param {
	out := []param{}
	rs := strings.Split(roles, ",")
	for i := skip; i < t.NumIn(); i++ {
		p := param{}
		if i-skip < len(rs) {
			p.Role = strings.TrimPrefix(strings.TrimSpace(rs[i-skip]), "-")
		}
		e := t.In(i)
		if e.Kind() == reflect.Slice {
			p.K, e = "l", e.Elem()
		}
		switch {
		case e == tString || e == tLocation:
			p.K += "s"
		case e == tInt || e == tInt64:
			p.K += "i"
		case e == tFloat:
			p.K += "f"
		case e == tBool:
			p.K += "b"
		case e == tAny:
			p.K += "any"
		default:
			p.K, p.T = p.K+"h", typeName(e)
			byName[p.T] = e
		}
		out = append(out, p)
	}
	return out
}

func typeName(t reflect.Type) string { return t.String() }

func grammar() Grammar {
	g := Grammar{map[string]map[string]string{}, map[string]string{}, map[string][]string{}, nil}
	todo := []reflect.Type{}
	seen := map[reflect.Type]bool{}
	visit := func(t reflect.Type) string {
		if !seen[t] {
			seen[t] = true
			todo = append(todo, t)
		}
		return typeName(t)
	}
	for n, f := range functions {
		t := f.Type()
		if t.Kind() == reflect.Func {
			g.Calls = append(g.Calls, signature{n, "", params(t, 0, wordByName[n].roles)})
			t = t.Out(0)
		}
		g.Funcs[n] = visit(t)
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		ms := map[string]string{}
		for _, u := range []reflect.Type{plain(t), t} {
			for i := 0; i < u.NumMethod(); i++ {
				m := u.Method(i)
				if m.Type.NumOut() == 0 || m.Type.NumOut() > 2 || m.Type.Out(0).PkgPath() != tNode.PkgPath() {
					continue
				}
				skip := 1
				if u.Kind() == reflect.Interface {
					skip = 0
				}
				if _, ok := ms[m.Name]; !ok {
					g.Calls = append(g.Calls, signature{m.Name, typeName(t), params(m.Type, skip, methodRoles[m.Name])})
				}
				ms[m.Name] = visit(m.Type.Out(0))
			}
		}
		g.Types[typeName(t)] = ms
	}
	named := map[string]reflect.Type{"Expression": tExpr, "Condition": tCond, "PatternElement": tPE, "RelationshipPattern": tRelPat,
		"Node": tNode, "Relationship": tRel, "RelationshipChain": tChain, "SymbolicName": tSym, "Statement": tStatement, "SortItem": tSort,
		"AliasedExpression": tAliased, "MapExpression": tMap, "Property": tProp, "NamedPath": tPath}
	for _, c := range g.Calls {
		for _, p := range c.P {
			if p.T != "" && g.Fits[p.T] == nil {
				g.Fits[p.T] = []string{}
				for t := range seen {
					if p.T == typeName(t) || plain(t).AssignableTo(byName[p.T]) {
						g.Fits[p.T] = append(g.Fits[p.T], typeName(t))
					}
				}
				sort.Strings(g.Fits[p.T])
			}
		}
	}
	sort.Slice(g.Calls, func(i, j int) bool {
		return g.Calls[i].M < g.Calls[j].M || g.Calls[i].M == g.Calls[j].M && g.Calls[i].On < g.Calls[j].On
	})
	for n, p := range named {
		for t := range seen {
			if p == tStatement && t != tStatement {
				continue
			}
			if plain(t).AssignableTo(p) {
				g.Fits[n] = append(g.Fits[n], typeName(t))
			}
		}
		sort.Strings(g.Fits[n])
	}
	return g
}
