package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// A word is a function or variable of the package with the roles of its arguments and the properties it belongs to.
type word struct{ name, roles, props string }

func typeOf(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }

var (
	tNode      = typeOf((*cypher.Node)(nil))
	tRel       = typeOf((*cypher.Relationship)(nil))
	tChain     = typeOf((*cypher.RelationshipChain)(nil))
	tPath      = typeOf((*cypher.NamedPath)(nil))
	tRelPat    = typeOf((*cypher.RelationshipPattern)(nil))
	tPE        = typeOf((*cypher.PatternElement)(nil))
	tSym       = typeOf((*cypher.SymbolicName)(nil))
	tMap       = typeOf((*cypher.MapExpression)(nil))
	tProp      = typeOf((*cypher.Property)(nil))
	tParam     = typeOf((*cypher.Parameter)(nil))
	tAliased   = typeOf((*cypher.AliasedExpression)(nil))
	tSort      = typeOf((*cypher.SortItem)(nil))
	tEntry     = typeOf((*cypher.KeyValueMapEntry)(nil))
	tCase      = typeOf((*cypher.Case)(nil))
	tCaseEnd   = typeOf((*cypher.CaseEnding)(nil))
	tProj      = typeOf((*cypher.MapProjection)(nil))
	tString    = reflect.TypeOf("")
	tInt       = reflect.TypeOf(0)
	tInt64     = reflect.TypeOf(int64(0))
	tFloat     = reflect.TypeOf(0.0)
	tBool      = reflect.TypeOf(false)
	tFn        = typeOf((*cypher.FunctionInvocation)(nil))
	tOngoing   = typeOf((*cypher.OngoingReadingWithoutWhere)(nil))
	wordByName = map[string]word{}
)

func init() {
	for _, w := range vocabulary {
		wordByName[w.name] = w
	}
}

// roles of the arguments of methods, where their types do not settle them
var methodRoles = map[string]string{
	"NamedByString": "name", "Named": "name", "NamedC": "name", "RelationshipTo": "-,types", "RelationshipFrom": "-,types",
	"RelationshipBetween": "-,types", "Min": "nat", "Max": "nat", "Length": "nat,nat", "WithRawProperties": "pairs",
	"PropertiesRaw": "pairs", "Property": "key", "HasLabels": "labels1", "As": "alias", "Aliased": "alias", "Project": "proj",
	"And": "proj", "MatchesPattern": "str", "YieldString": "names1", "YieldSymbolic": "exprs1", "Yield": "exprs1",
	"ReturningByString": "names1", "ReturningDistinctByString": "names1", "WithByString": "names1",
	"WithDistinctByString": "names1", "DeleteByString": "names1", "DetachDeleteByString": "names1", "UnwindByString": "name",
	"Skip": "skip", "Limit": "pos", "Call1": "proc", "SetByNode": "node,labels1", "RemoveByNode": "node,labels1",
	"WithArgs": "exprs", "Returning": "exprs1", "ReturningDistinct": "exprs1", "With": "exprs1", "WithDistinct": "exprs1",
	"ReturningByNamed": "nameds1", "ReturningDistinctByNamed": "nameds1", "WithByNamed": "nameds1",
	"WithDistinctByNamed": "nameds1", "Delete": "exprs1", "DetachDelete": "exprs1", "DeleteByNamed": "nameds1",
	"DetachDeleteByNamed": "nameds1", "Match": "pes1", "OptionalMatch": "pes1", "MatchDefault": "-,pes1", "Create": "pes1",
	"Merge": "pes1", "Set": "items", "Remove": "exprs1", "AddEntries": "entries", "OrderBySortItem": "exprs1",
	"Unwinds": "exprs",
}

type meta struct {
	t      reflect.Type
	named  bool // of nodes and relationships
	absent bool // a condition that may be absent
	bad    bool // made from something invalid
	open   string
	first  bool // the first clause of the statement is still open
	size   int
}

// A profile says what the programs of a generator are mainly about.
type profile struct {
	cat     map[string]float64 // weights of kinds of expressions
	build   map[string]float64 // weights of builder calls
	task    map[string]float64
	weird   float64 // how often a name or string is an unusual one
	reuse   float64 // how often an earlier value is used again
	invalid float64 // how many programs contain something invalid
	depth   int
	tasks   int
	steps   int
}

type gen struct {
	r      *rand.Rand
	p      profile
	ops    []Op
	hs     []meta // from 1
	inject int    // the number of arguments until one is made invalid; negative: never
	hit    bool
	budget int
	bad    bool
	pool   []string
}

func (g *gen) chance(p float64) bool    { return g.r.Float64() < p }
func (g *gen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }

func weighted(r *rand.Rand, keys []string, w func(string) float64) string {
	sum := 0.0
	for _, k := range keys {
		sum += w(k)
	}
	x := r.Float64() * sum
	for _, k := range keys {
		x -= w(k)
		if x < 0 {
			return k
		}
	}
	return keys[len(keys)-1]
}

func (g *gen) m(h int) *meta { return &g.hs[h] }

// emit adds an operation and gives its handle.
func (g *gen) emit(m string, r int, args ...Arg) int {
	var t reflect.Type
	if r == 0 {
		f, ok := functions[m]
		if !ok {
			panic("no function " + m)
		}
		if t = f.Type(); t.Kind() == reflect.Func {
			t = t.Out(0)
		}
	} else {
		rt := g.hs[r].t
		mt, ok := rt.MethodByName(m)
		if !ok {
			rt = plain(rt)
			if mt, ok = rt.MethodByName(m); !ok {
				panic(fmt.Sprintf("a %v has no method %s", rt, m))
			}
		}
		t = mt.Type.Out(0)
	}
	size := 1
	bad := g.hit
	g.hit = false
	deps := append([]Arg{}, args...)
	if r > 0 {
		deps = append(deps, Arg{T: "h", H: r})
	}
	for len(deps) > 0 {
		a := deps[0]
		deps = append(deps[1:], a.L...)
		if a.T == "h" {
			size += g.hs[a.H].size
			bad = bad || g.hs[a.H].bad
		}
	}
	g.ops = append(g.ops, Op{m, r, args})
	g.hs = append(g.hs, meta{t: t, bad: bad, size: size})
	if bad {
		g.bad = true
	}
	return len(g.hs) - 1
}

func sArg(s string) Arg  { return Arg{T: "s", S: s} }
func hArg(h int) Arg     { return Arg{T: "h", H: h} }
func iArg(n int64) Arg   { return Arg{T: "i", S: strconv.FormatInt(n, 10)} }
func lArg(l []Arg) Arg   { return Arg{T: "l", L: l} }
func bArg(b bool) Arg    { return Arg{T: "b", B: b} }
func fArg(f float64) Arg { return Arg{T: "f", S: CanonFloat(f)} }

// invalid tells whether the argument that is generated now is to be an invalid one.
func (g *gen) invalid() bool {
	if g.inject < 0 {
		return false
	}
	g.inject--
	if g.inject < 0 {
		g.hit = true
		return true
	}
	return false
}

var plainNames = []string{"n", "m", "a", "b", "x", "r", "p", "foo", "T", "_1", "name", "person", "count", "true1"}
var plainKeys = []string{"name", "age", "x", "y", "id", "since", "a", "b", "firstName", "K_1"}
var plainLabels = []string{"Person", "Movie", "A", "B", "KNOWS", "n", "HAS_1"}
var weirdPieces = []string{"a", "Z", "0", " ", "`", "'", "\"", "\\", ".", ",", ":", ")", "}", "$", "-", "é", "ß", "名", "\U0001F600",
	"\n", "\t", "u0041", "//", "/*", "*/", "\\u0060", "_", "|", "*", ";", "%", "%d", "%s%", "{", "}", "&", "``", "\\\\", "\xff", "\u00a0", "\u2028", "\r", "\b", "\f", "\x01", "²", "\u0301", "n"}
var weirdWords = []string{"a b", "a`b", "`", "``", "`a`", "a``b", " ", "  ", "\n", "1a", "a-b", "a.b", "$x", "MATCH", "null", "é", "名前", "a\"b",
	"x) DETACH DELETE n //", "n`) RETURN 1 //", "O'Reilly", "\\", "\\'", "\\\\", "\\u0060", "\\u0027", "' OR 1=1", "\U0001F600", "\xff", "a\xc3", "*", "0", "-1", "a'b", "\t", "ñ1", "²", "a\u0301",
	"100%", "%s", "%!d(string=x)", "%%", "'%d'", "a`b`c`d`e", "`````", "''''", "\\\\\\\\", "\"'\"'\"'", strings.Repeat("x", 70), strings.Repeat("n", 300),
	strings.Repeat("`", 130), strings.Repeat("ab'", 90), strings.Repeat("é", 40), "{x}", "$$", "A&B", "CASE", "null ", " a", "a ", "a  b", "#", "~", "^", "!", "AS b"}

func (g *gen) weirdName() string {
	if g.chance(0.5) {
		return weirdWords[g.r.Intn(len(weirdWords))]
	}
	s := ""
	n := 1 + g.r.Intn(5)
	if g.chance(0.15) {
		n = 6 + g.r.Intn(12)
	}
	hot := weirdPieces[g.r.Intn(len(weirdPieces))] // one that comes again and again
	for i := 0; i < n; i++ {
		if g.chance(0.25) {
			s += hot
			continue
		}
		s += weirdPieces[g.r.Intn(len(weirdPieces))]
	}
	return s
}

func (g *gen) name(from []string) string {
	if g.invalid() {
		return ""
	}
	if g.chance(g.p.weird) {
		return g.weirdName()
	}
	return from[g.r.Intn(len(from))]
}

func (g *gen) str(role string) Arg {
	switch role {
	case "name", "alias":
		return sArg(g.name(plainNames))
	case "label", "type":
		return sArg(g.name(plainLabels))
	case "key":
		return sArg(g.name(plainKeys))
	case "par":
		if g.invalid() {
			return sArg(g.pick("", "$", "$$"))
		}
		if g.chance(0.2) {
			return sArg(g.pick("$p", "$$q", "p.x", "0", "12", "p.q.r", "$a.b"))
		}
		s := g.name(plainNames)
		for strings.TrimLeft(s, "$") == "" {
			s = g.name(plainNames)
		}
		return sArg(s)
	case "str":
		if g.chance(0.1) {
			return sArg("")
		}
		if g.chance(0.3 + g.p.weird) {
			return sArg(g.weirdName())
		}
		return sArg(g.pick("foo", "bar", "Tom Hanks", "x", "a.*"))
	case "iso":
		if g.invalid() {
			return sArg("")
		}
		if g.chance(g.p.weird) {
			return sArg(g.weirdName())
		}
		return sArg(g.pick("2020-01-01", "2020-01-01T10:00:00", "P1D", "10:00"))
	case "func":
		if g.invalid() {
			return sArg("")
		}
		if g.chance(0.3) {
			return sArg(g.pick("apoc.text.join", "a.b", "apoc.coll.sum"))
		}
		s := g.name([]string{"round", "abs", "myFunc", "rand", "keys"})
		if strings.Contains(s, ".") {
			s = "abs"
		}
		return sArg(s)
	case "zone":
		return sArg(g.pick("UTC", "Europe/Berlin", "Asia/Ho_Chi_Minh"))
	case "proc1":
		if g.invalid() {
			return sArg("")
		}
		if g.chance(0.6) {
			return sArg(g.pick("db.labels", "dbms.security.createUser", "apoc.do.it", "proc", "a.b"))
		}
		s := g.name(plainNames)
		for strings.Contains(s, ".") {
			s = g.name(plainNames)
		}
		return sArg(s)
	}
	panic("string role " + role)
}

func (g *gen) integer(role string) Arg {
	switch role {
	case "nat":
		if g.invalid() {
			return iArg(-1 - int64(g.r.Intn(3)))
		}
		return iArg(int64(g.r.Intn(6)))
	case "skip":
		if g.invalid() {
			return iArg(-1 - int64(g.r.Intn(3)))
		}
		return iArg([]int64{0, 1, 2, 3, 10, 25, 1000000}[g.r.Intn(7)])
	case "pos":
		if g.invalid() {
			return iArg(-int64(g.r.Intn(3)))
		}
		return iArg([]int64{1, 2, 3, 5, 10, 100, 1 << 40}[g.r.Intn(7)])
	}
	switch g.r.Intn(8) {
	case 0:
		return iArg([]int64{1<<63 - 1, -1 << 63, 1 << 53, 1<<53 + 1, -1 << 31, 1 << 31, 1234567890123}[g.r.Intn(7)])
	case 1:
		return iArg(-int64(g.r.Intn(20)))
	}
	return iArg(int64(g.r.Intn(100)))
}

func (g *gen) float(role string) Arg {
	if role == "frac" {
		if g.invalid() {
			return fArg([]float64{-0.5, 1.5, 2}[g.r.Intn(3)])
		}
		return fArg([]float64{0, 1, 0.5, 0.25, 0.9, 0.95, 0.123456789}[g.r.Intn(7)])
	}
	if g.invalid() {
		return Arg{T: "f", S: g.pick("NaN", "Inf", "-Inf")}
	}
	switch g.r.Intn(4) {
	case 0:
		return fArg([]float64{0.1, 1e21, 1e-7, 3.141592653589793, 1e308, 5e-324, 1e19, 123456789.125, -2.5, 1e18, 0.1 + 0.2, 1e-300}[g.r.Intn(12)])
	case 1:
		return fArg(g.r.NormFloat64() * 1000)
	}
	return fArg(float64(g.r.Intn(2000)-200) / 8)
}

// candidates are the handles that can be used as a t.
func (g *gen) candidates(t reflect.Type, ok func(*meta) bool) []int {
	out := []int{}
	for h := 1; h < len(g.hs); h++ {
		m := &g.hs[h]
		if m.bad && !g.bad || m.bad && g.chance(0.5) {
			continue
		}
		if plain(m.t).AssignableTo(t) && m.size < 60 && (ok == nil || ok(m)) {
			out = append(out, h)
		}
	}
	return out
}

func (g *gen) again(t reflect.Type, ok func(*meta) bool) int {
	if !g.chance(g.p.reuse) {
		return 0
	}
	c := g.candidates(t, ok)
	if len(c) == 0 {
		return 0
	}
	if g.chance(0.5) && len(c) > 4 {
		c = c[len(c)-4:]
	}
	return c[g.r.Intn(len(c))]
}

func notAbsent(m *meta) bool { return !m.absent && m.t != tEntry }
func isNamed(m *meta) bool   { return m.named }

// ---------------------------------------------------------------------------------------------------------------
// elements

func (g *gen) sym() int {
	if h := g.again(tSym, nil); h > 0 {
		return h
	}
	if g.chance(0.15) {
		if c := g.candidates(tNamed, isNamed); len(c) > 0 {
			return g.emit("GetRequiredSymbolicName", c[g.r.Intn(len(c))])
		}
	}
	return g.emit(g.pick("ASymbolic", "SymbolicNameCreate"), 0, g.str("name"))
}

func (g *gen) properties(d int) []Arg {
	n := g.r.Intn(3)
	if g.chance(0.1) {
		n = 3
	}
	return g.pairs(n, d)
}

func (g *gen) pairs(n, d int) []Arg {
	out := []Arg{}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		k := g.str("key")
		if used[k.S] {
			if !g.invalid() {
				continue
			}
		}
		used[k.S] = true
		out = append(out, k)
		if g.invalid() {
			if g.chance(0.5) {
				return out // a key without a value
			}
			out[len(out)-1] = iArg(1)
		}
		out = append(out, g.raw(d, true))
	}
	return out
}

// raw is a Go value as an argument of type interface{}
func (g *gen) raw(d int, expressions bool) Arg {
	switch g.r.Intn(8) {
	case 0:
		return g.str("str")
	case 1:
		return g.integer("int")
	case 2:
		return g.float("float")
	case 3:
		return bArg(g.chance(0.5))
	case 4:
		return Arg{T: "n"}
	case 5:
		l := []Arg{}
		for i, n := 0, g.r.Intn(3); i < n; i++ {
			l = append(l, hArg(g.literal(d-1)))
		}
		return lArg(l)
	}
	if expressions {
		return hArg(g.expr(d - 1))
	}
	return g.str("str")
}

func (g *gen) node(d int, named bool) int {
	ok := isNamed
	if !named {
		ok = nil
	}
	if h := g.again(tNode, ok); h > 0 {
		return h
	}
	h := 0
	switch g.r.Intn(6) {
	case 0:
		h = g.emit("AnyNode", 0)
	case 1, 2:
		h = g.emit("AnyNodeNamed", 0, g.str("name"))
		g.m(h).named = true
	case 3:
		h = g.emit("ANode", 0, g.str("label"))
	case 4:
		h = g.emit("NewNodeWithLabels", 0, g.str("label"), lArg(g.strs("label", g.r.Intn(3))))
	case 5:
		if !cheapProps(d) {
			h = g.emit("NewNodeWithProperties", 0, g.str("label"), hArg(g.mapExpr(d-1)), lArg(g.strs("label", g.r.Intn(2))))
		} else {
			h = g.emit("ANode", 0, g.str("label"))
		}
	}
	for g.chance(0.35) {
		h = g.nodeDerive(h, d)
	}
	if !g.m(h).named && (named || g.chance(0.5)) {
		h = g.nameNode(h)
	}
	return h
}

func cheapProps(d int) bool { return d <= 0 }

func (g *gen) nameNode(h int) int {
	if g.chance(0.25) {
		h = g.emit("Named", h, hArg(g.sym()))
	} else {
		h = g.emit("NamedByString", h, g.str("name"))
	}
	g.m(h).named = true
	return h
}

func (g *gen) nodeDerive(h, d int) int {
	named := g.m(h).named
	switch g.r.Intn(3) {
	case 0:
		return g.nameNode(h)
	case 1:
		x := g.emit("WithRawProperties", h, lArg(g.properties(d)))
		g.m(x).named = named
		return x
	}
	x := g.emit("WithProperties", h, hArg(g.mapExpr(d-1)))
	g.m(x).named = named
	return x
}

func (g *gen) strs(role string, n int) []Arg {
	out := []Arg{}
	for i := 0; i < n; i++ {
		out = append(out, g.str(role))
	}
	return out
}

func (g *gen) types() Arg {
	n := 0
	if g.chance(0.6) {
		n = 1 + g.r.Intn(2)
	}
	out := []Arg{}
	for i := 0; i < n; i++ {
		s := plainLabels[g.r.Intn(len(plainLabels))]
		if g.chance(g.p.weird) {
			s = g.weirdName()
		}
		out = append(out, sArg(s))
	}
	return lArg(out)
}

var directions = []string{"RelationshipTo", "RelationshipFrom", "RelationshipBetween"}

func (g *gen) rel(d int, named bool) int {
	ok := isNamed
	if !named {
		ok = nil
	}
	if h := g.again(tRel, ok); h > 0 {
		return h
	}
	h := g.emit(g.pick(directions...), g.node(d, false), hArg(g.node(d-1, false)), g.types())
	for g.chance(0.4) {
		h = g.relDerive(h, d)
	}
	if named && !g.m(h).named {
		h = g.emit(g.pick("Named", "NamedByString"), h, g.str("name"))
		g.m(h).named = true
	}
	return h
}

func (g *gen) relDerive(h, d int) int {
	named := g.m(h).named
	m := g.pick("Named", "NamedByString", "Min", "Max", "Length", "Unbounded", "WithProperties", "WithRawProperties")
	x := g.call(h, m, d)
	g.m(x).named = named || strings.HasPrefix(m, "Named")
	return x
}

func (g *gen) chain(d int) int {
	if h := g.again(tChain, nil); h > 0 {
		return h
	}
	h := g.emit(g.pick(directions...), g.rel(d, false), hArg(g.node(d-1, false)), g.types())
	for g.chance(0.5) {
		h = g.chainDerive(h, d)
	}
	return h
}

func (g *gen) chainDerive(h, d int) int {
	if g.chance(0.35) {
		return g.emit(g.pick(directions...), h, hArg(g.node(d-1, false)), g.types())
	}
	m := g.pick("NamedC", "Min", "Max", "Length", "Unbounded", "Properties", "PropertiesRaw")
	return g.call(h, m, d)
}

func (g *gen) relPat(d int) int {
	if h := g.again(tRelPat, nil); h > 0 {
		return h
	}
	if g.inject == 0 && g.chance(0.1) && g.invalid() {
		// naming by the method of the other kind
		if g.chance(0.5) {
			return g.emit("NamedC", g.rel(d, false), sArg("x"))
		}
		return g.emit("Named", g.chain(d), sArg("x"))
	}
	if g.chance(0.35) {
		return g.chain(d)
	}
	return g.rel(d, false)
}

func (g *gen) path(d int) int {
	if h := g.again(tPath, nil); h > 0 {
		return h
	}
	var b int
	var p int
	switch g.r.Intn(4) {
	case 0:
		b = g.emit("APath", 0, g.str("name"))
	case 1:
		b = g.emit("APathBySymbolic", 0, hArg(g.sym()))
	case 2:
		b = g.emit("AShortestPath", 0, g.str("name"))
	case 3:
		b = g.emit("AShortestPathBySymbolic", 0, hArg(g.sym()))
	}
	m, _ := g.hs[b].t.MethodByName("DefinedBy")
	if m.Type.In(0) == tRel {
		p = g.rel(d, false)
	} else {
		p = g.relPat(d)
	}
	h := g.emit("DefinedBy", b, hArg(p))
	g.m(h).named = true
	return h
}

func (g *gen) pe(d int) int {
	if h := g.again(tPE, nil); h > 0 {
		return h
	}
	switch g.r.Intn(8) {
	case 0, 1, 2, 3:
		return g.node(d, g.chance(0.8))
	case 4, 5:
		return g.rel(d, g.chance(0.5))
	case 6:
		return g.chain(d)
	}
	return g.path(d)
}

func (g *gen) named(d int) int {
	if h := g.again(tNamed, isNamed); h > 0 {
		return h
	}
	switch g.r.Intn(6) {
	case 0:
		return g.rel(d, true)
	case 1:
		return g.path(d)
	}
	return g.node(d, true)
}

// of a type, any
func (g *gen) of(t reflect.Type, d int, role string) int {
	switch t {
	case tExpr:
		return g.expr(d)
	case tCond, tCondC:
		return g.cond(d, false)
	case tNode:
		return g.node(d, role == "node")
	case tRel:
		return g.rel(d, role == "rel")
	case tChain:
		return g.chain(d)
	case tPath:
		return g.path(d)
	case tRelPat:
		return g.relPat(d)
	case tPE:
		return g.pe(d)
	case tNamed:
		return g.named(d)
	case tSym:
		return g.sym()
	case tMap:
		return g.mapExpr(d)
	case tProp:
		return g.prop(d)
	case tParam:
		return g.param()
	case tAliased:
		return g.aliased(d)
	case tSort:
		return g.sort(d)
	case tLiteral:
		return g.literal(d)
	case tEntry:
		return g.entry(d)
	case tStatement:
		return g.statement(d)
	}
	panic(fmt.Sprintf("no way to make a %v", t))
}

// argument makes an argument of type t.
func (g *gen) argument(t reflect.Type, role string, d int) Arg {
	switch t {
	case tString, tLocation:
		return g.str(role)
	case tInt, tInt64:
		return g.integer(role)
	case tFloat:
		return g.float(role)
	case tBool:
		return bArg(g.chance(0.5))
	}
	if t == tAny {
		if g.invalid() {
			return hArg(g.node(d, false))
		}
		return g.raw(d, false)
	}
	if t.Kind() == reflect.Slice {
		e := t.Elem()
		n := g.r.Intn(3)
		if strings.HasSuffix(role, "1") {
			n = 1 + g.r.Intn(2)
			if g.chance(0.15) {
				n++
			}
			if g.invalid() {
				n = 0
			}
		}
		switch role {
		case "pairs":
			return lArg(g.properties(d))
		case "proj":
			return lArg(g.projection(d))
		case "items":
			return lArg(g.items(d))
		case "proc":
			return lArg(g.procName())
		case "lits":
			out := []Arg{}
			for i := 0; i < n; i++ {
				out = append(out, g.raw(d, false))
			}
			return lArg(out)
		case "entries":
			out := []Arg{}
			for i := 0; i < n; i++ {
				out = append(out, hArg(g.entry(d)))
			}
			return lArg(out)
		}
		out := []Arg{}
		for i := 0; i < n; i++ {
			r := strings.TrimSuffix(strings.TrimSuffix(role, "1"), "s")
			out = append(out, g.argument(e, r, d))
		}
		return lArg(out)
	}
	if t.Kind() == reflect.Interface && role != "opt" && g.invalid() {
		if t == tExpr && g.chance(0.3) {
			return hArg(g.emit("ASymbolic", 0, sArg("")))
		}
		return Arg{T: "n"}
	}
	if role == "opt" && t.Kind() == reflect.Interface && g.chance(0.4) {
		return Arg{T: "n"}
	}
	return hArg(g.of(t, d, role))
}

func (g *gen) procName() []Arg {
	if g.invalid() {
		if g.chance(0.5) {
			return []Arg{}
		}
		return []Arg{sArg("a"), sArg("")}
	}
	if g.chance(0.3) {
		return []Arg{sArg(g.pick("db.labels", "apoc.x.y", "proc"))}
	}
	out := []Arg{}
	for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
		s := g.name(plainNames)
		for n == 1 && strings.Contains(s, ".") {
			s = g.name(plainNames)
		}
		out = append(out, sArg(s))
	}
	return out
}

func (g *gen) projection(d int) []Arg {
	out := []Arg{}
	used := map[string]bool{}
	for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
		if g.invalid() {
			out = append(out, g.pickArg(sArg(""), iArg(3), hArg(g.literal(0))))
			continue
		}
		lastKey := len(out) > 0 && out[len(out)-1].T == "s"
		k := g.str("key")
		for used[k.S] {
			k.S += "1"
		}
		switch g.r.Intn(6) {
		case 0, 1:
			used[k.S] = true
			out = append(out, k)
		case 2:
			used[k.S] = true
			v := 0
			if g.chance(0.15) {
				v = g.named(d)
			} else {
				v = g.exprNoAsterisk(d - 1)
			}
			out = append(out, k, hArg(v))
		default:
			if lastKey {
				used[k.S] = true
				out = append(out, k)
				continue
			}
			switch g.r.Intn(5) {
			case 0:
				out = append(out, hArg(g.sym()))
			case 1:
				out = append(out, hArg(g.prop(d-1)))
			case 2:
				h := g.aliased(d - 1)
				out = append(out, hArg(h))
			case 3:
				out = append(out, hArg(g.emit(g.pick("AnAsterisk", "ASTERISK"), 0)))
			case 4:
				out = append(out, hArg(g.named(d)))
			}
		}
	}
	return out
}

func (g *gen) pickArg(as ...Arg) Arg { return as[g.r.Intn(len(as))] }

func (g *gen) exprNoAsterisk(d int) int {
	for {
		h := g.expr(d)
		if m := g.ops[h-1].M; m != "AnAsterisk" && m != "ASTERISK" {
			return h
		}
	}
}

// items of SET
func (g *gen) items(d int) []Arg {
	out := []Arg{}
	n := 1 + g.r.Intn(2)
	if g.invalid() {
		if g.chance(0.5) {
			return out
		}
		return []Arg{hArg(g.prop(d))}
	}
	for i := 0; i < n; i++ {
		switch g.r.Intn(5) {
		case 0:
			out = append(out, hArg(g.emit("OperationSet", 0, hArg(g.prop(d)), g.argument(tExpr, "", d))))
		case 1:
			out = append(out, hArg(g.emit("OperationSetLabel", 0, hArg(g.node(d, true)), lArg(g.labels1()))))
		case 2:
			out = append(out, hArg(g.emit("To", g.prop(d), g.argument(tExpr, "", d))))
		case 3:
			out = append(out, hArg(g.prop(d)), g.argument(tExpr, "", d))
		case 4:
			out = append(out, hArg(g.sym()), hArg(g.mapExpr(d)))
		}
	}
	return out
}

func (g *gen) labels1() []Arg {
	if g.invalid() {
		return []Arg{}
	}
	return g.strs("label", 1+g.r.Intn(2))
}

// call calls method m of h with arguments by their types.
func (g *gen) call(h int, m string, d int) int {
	rt := g.hs[h].t
	if _, ok := rt.MethodByName(m); !ok {
		rt = plain(rt)
	}
	mt, ok := rt.MethodByName(m)
	if !ok {
		panic(fmt.Sprintf("a %v has no method %s", rt, m))
	}
	skip := 1
	if rt.Kind() == reflect.Interface {
		skip = 0
	}
	roles := strings.Split(methodRoles[m], ",")
	args := []Arg{}
	for i := skip; i < mt.Type.NumIn(); i++ {
		role := ""
		if i-skip < len(roles) {
			role = strings.TrimSpace(roles[i-skip])
		}
		if role == "-" {
			role = ""
		}
		args = append(args, g.argument(mt.Type.In(i), role, d))
	}
	return g.emit(m, h, args...)
}

// fn calls the function f with arguments by their types.
func (g *gen) fn(f string, d int) int {
	t := functions[f].Type()
	if t.Kind() != reflect.Func {
		return g.emit(f, 0)
	}
	roles := strings.Split(wordByName[f].roles, ",")
	args := []Arg{}
	for i := 0; i < t.NumIn(); i++ {
		role := ""
		if i < len(roles) && roles[i] != "-" {
			role = roles[i]
		}
		args = append(args, g.argument(t.In(i), role, d))
	}
	return g.emit(f, 0, args...)
}

func (g *gen) literal(d int) int {
	if h := g.again(tLiteral, nil); h > 0 {
		if m := g.ops[h-1].M; m != "AnAsterisk" && m != "ASTERISK" {
			return h
		}
	}
	fs := []string{"LiteralOf", "LiteralTrue", "LiteralFalse", "BooleanLiteralCreate", "NullLiteralCreate", "StringLiteralCreate",
		"StringLiteralCreate", "NumberLiteralCreate", "NumberLiteralCreate1", "NumberLiteralCreate2", "TRUE", "FALSE", "NIL_INSTANCE",
		"LiteralOf", "LiteralOf"}
	if d > 0 {
		fs = append(fs, "ListLiteralCreate", "LiteralOf")
	}
	return g.fn(g.pick(fs...), d-1)
}

func (g *gen) param() int {
	if h := g.again(tParam, nil); h > 0 {
		return h
	}
	return g.fn(g.pick("AParam", "ParameterCreate"), 0)
}

func (g *gen) prop(d int) int {
	if h := g.again(tProp, nil); h > 0 {
		return h
	}
	switch g.r.Intn(8) {
	case 0:
		return g.emit("AProperty", 0, g.str("name"), g.str("key"))
	case 1:
		return g.emit("APropertyByExpression", 0, g.argument(tExpr, "", d-1), g.str("key"))
	case 2:
		return g.emit("Property", g.rel(d-1, true), g.str("key"))
	}
	return g.emit("Property", g.node(d-1, true), g.str("key"))
}

func (g *gen) entry(d int) int {
	if h := g.again(tEntry, nil); h > 0 {
		return h
	}
	return g.fn("KeyValueMapEntryCreate", d-1)
}

func (g *gen) mapExpr(d int) int {
	if h := g.again(tMap, nil); h > 0 {
		return h
	}
	h := g.emit(g.pick("MapOf", "NewMapExpression"), 0, lArg(g.properties(d)))
	if g.chance(0.15) {
		h = g.call(h, "AddEntries", d-1)
	}
	return h
}

func (g *gen) aliased(d int) int {
	if h := g.again(tAliased, nil); h > 0 {
		return h
	}
	switch g.r.Intn(8) {
	case 0:
		return g.emit("As", g.node(d-1, true), g.str("alias"))
	case 1:
		if c := g.candidates(tAliased, nil); len(c) > 0 {
			return g.emit("Aliased", c[g.r.Intn(len(c))], g.str("alias"))
		}
	}
	return g.emit("AliasedExpressionCreate", 0, hArg(g.delegate(d-1)), g.str("alias"))
}

// delegate is an expression that can be given an alias: one that is no alias itself
func (g *gen) delegate(d int) int {
	for {
		h := g.expr(d)
		m := g.ops[h-1].M
		if g.hs[h].t != tAliased && m != "As" && m != "AnAsterisk" && m != "ASTERISK" {
			return h
		}
	}
}

func (g *gen) sort(d int) int {
	if h := g.again(tSort, nil); h > 0 {
		if g.chance(0.3) {
			return g.emit(g.pick("Ascending", "Descending"), h)
		}
		return h
	}
	if g.chance(0.4) {
		return g.emit(g.pick("Ascending", "Descending"), g.expr(d-1))
	}
	return g.fn(g.pick("Sort", "CreateAscendingSortItem", "CreateDescendingSortItem"), d-1)
}

var comparisons = []string{"IsEqualTo", "IsNotEqualTo", "Lt", "Lte", "Gt", "Gte", "Matches", "StartWiths", "Contains", "EndsWith", "In"}
var tests = []string{"IsTrue", "IsFalse", "IsNull", "IsNotNull", "IsEmpty", "MatchesPattern"}
var arithMethods = []string{"Add", "Concat", "Subtract", "Multiply", "Divide", "Remainder", "Pow"}
var arithFns = []string{"OperationAdd", "OperationConcat", "OperationSubtract", "OperationMultiply", "OperationDivide", "OperationRemainder", "OperationPow"}
var listOps = []string{"SubList", "ASubList", "SubListFrom", "ASubListFromByExpression", "CypherSubListFrom", "SubListUntil",
	"CypherSubListUntilByExpression", "ASubListUntil", "ValueAt", "CypherValueAtByExpression", "CypherValueAt"}

var fnNames = func() []string {
	out := []string{}
	for _, w := range vocabulary {
		f := functions[w.name].Type()
		if f.Kind() == reflect.Func && f.Out(0) == tFn {
			out = append(out, w.name)
		}
	}
	return out
}()

var exprCats = []string{"leaf", "arith", "cond", "fn", "list", "listop", "map", "case", "compr", "alias", "proj"}
var exprDefault = map[string]float64{"leaf": 6, "arith": 3, "cond": 2, "fn": 3, "list": 1, "listop": 1, "map": 0.7, "case": 0.7,
	"compr": 0.7, "alias": 0.4, "proj": 0.4}
var condCats = []string{"cmp", "test", "join", "not", "const", "labels", "pattern", "pred", "exists", "subquery", "case", "empty"}
var condDefault = map[string]float64{"cmp": 4, "test": 2, "join": 4, "not": 1, "const": 0.7, "labels": 0.7, "pattern": 0.6, "pred": 0.6,
	"exists": 0.5, "subquery": 0.3, "case": 0.3}

func (g *gen) weight(def map[string]float64) func(string) float64 {
	return func(k string) float64 {
		if w, ok := g.p.cat[k]; ok {
			return w
		}
		return def[k]
	}
}

func (g *gen) leaf() int {
	switch g.r.Intn(5) {
	case 0, 1:
		return g.literal(0)
	case 2:
		return g.sym()
	case 3:
		return g.param()
	}
	return g.prop(0)
}

func (g *gen) expr(d int) int {
	g.budget--
	if h := g.again(tExpr, notAbsent); h > 0 {
		return h
	}
	if d <= 0 || g.budget < 0 {
		return g.leaf()
	}
	switch weighted(g.r, exprCats, g.weight(exprDefault)) {
	case "arith":
		if g.chance(0.5) {
			return g.call(g.expr(d-1), g.pick(arithMethods...), d-1)
		}
		return g.fn(g.pick(arithFns...), d-1)
	case "cond":
		return g.cond(d, false)
	case "fn":
		if g.chance(0.05) {
			return g.emit("InternalId", g.node(d-1, true))
		}
		if g.chance(0.05) {
			return g.emit("Labels", g.node(d-1, true))
		}
		if g.chance(0.05) {
			b := g.fn(g.pick("ACall", "ACallSimple", "StatementCall"), d-1)
			if g.chance(0.7) {
				b = g.call(b, "WithArgs", d-1)
			}
			return g.emit("AsFunction", b)
		}
		return g.fn(g.pick(fnNames...), d-1)
	case "list":
		return g.fn(g.pick("ListOf", "ListOfRaw", "ListLiteralCreate", "Range"), d-1)
	case "listop":
		return g.fn(g.pick(listOps...), d-1)
	case "map":
		return g.mapExpr(d)
	case "case":
		return g.caseExpr(d)
	case "compr":
		return g.comprehension(d)
	case "alias":
		if g.chance(0.3) {
			return g.emit("As", g.delegate(d-1), g.str("alias"))
		}
		h := g.aliased(d)
		if g.chance(0.15) {
			h = g.emit("AsName", h)
		}
		return h
	case "proj":
		return g.mapProj(d)
	}
	return g.leaf()
}

func (g *gen) mapProj(d int) int {
	if h := g.again(tProj, nil); h > 0 {
		if g.chance(0.5) {
			return g.call(h, "And", d-1)
		}
		return h
	}
	switch g.r.Intn(3) {
	case 0:
		return g.fn("MapProjectionCreate", d-1)
	case 1:
		return g.call(g.rel(d-1, true), "Project", d-1)
	}
	return g.call(g.node(d-1, true), "Project", d-1)
}

func (g *gen) caseExpr(d int) int {
	h := 0
	if c := g.candidates(tCase, nil); len(c) > 0 && g.chance(g.p.reuse) {
		h = c[g.r.Intn(len(c))]
	} else if c := g.candidates(tCaseEnd, nil); len(c) > 0 && g.chance(g.p.reuse) {
		h = c[g.r.Intn(len(c))]
	} else if g.chance(0.5) {
		h = g.emit("GenericCaseExpression", 0)
	} else {
		h = g.fn("CaseExpression", d-1)
	}
	first := true
	for first || g.chance(0.4) {
		first = false
		w := g.emit("When", h, g.argument(tExpr, "", d-1))
		h = g.emit("Then", w, g.argument(tExpr, "", d-1))
		if g.chance(0.2) {
			h = g.emit("ElseDefault", h, g.argument(tExpr, "", d-1))
		}
	}
	if g.chance(0.5) {
		h = g.emit("ElseDefault", h, g.argument(tExpr, "", d-1))
	}
	return h
}

func (g *gen) comprehension(d int) int {
	if g.chance(0.5) {
		b := g.emit(g.pick("ListComprehensionWith", "CypherListWith"), 0, hArg(g.sym()))
		b = g.emit("In", b, g.argument(tExpr, "", d-1))
		if g.chance(0.5) {
			b = g.emit("Where", b, hArg(g.cond(d-1, true)))
		}
		return g.call(b, g.pick("Returning", "Returning", "ReturningByNamed", "ReturningDefault"), d-1)
	}
	var b int
	switch g.r.Intn(3) {
	case 0:
		b = g.emit(g.pick("ListBasedOnNamed", "PatternComprehensionBasedOnNamePath"), 0, hArg(g.path(d-1)))
	default:
		b = g.emit(g.pick("ListBasedOn", "PatternComprehensionBasedOn"), 0, hArg(g.relPat(d-1)))
	}
	if g.chance(0.6) {
		if g.chance(0.3) {
			b = g.emit("WherePattern", b, hArg(g.relPat(d-1)))
		} else {
			b = g.emit("Where", b, hArg(g.cond(d-1, true)))
		}
		for g.chance(0.4) {
			if g.chance(0.3) {
				b = g.emit(g.pick("AndPattern", "OrPattern"), b, hArg(g.relPat(d-1)))
			} else {
				b = g.emit(g.pick("And", "Or"), b, hArg(g.cond(d-1, true)))
			}
		}
	}
	return g.call(b, g.pick("Returning", "Returning", "ReturningByNamed"), d-1)
}

func (g *gen) cond(d int, absentOK bool) int {
	g.budget--
	ok := notAbsent
	if absentOK {
		ok = nil
		if g.chance(0.08) {
			h := g.fn(g.pick("EMPTY_CONDITION", "ConditionsNoCondition"), 0)
			g.m(h).absent = true
			return h
		}
	}
	if h := g.again(tCond, ok); h > 0 {
		return h
	}
	if d <= 0 || g.budget < 0 {
		switch g.r.Intn(5) {
		case 0:
			return g.fn(g.pick("TRUE_CONDITION", "FALSE_CONDITION", "ConditionsIsTrue", "ConditionsIsFalse"), 0)
		case 1:
			return g.emit(g.pick("IsNull", "IsNotNull", "IsTrue"), g.prop(0))
		}
		return g.emit(g.pick(comparisons...), g.leaf(), hArg(g.leaf()))
	}
	switch weighted(g.r, condCats, g.weight(condDefault)) {
	case "test":
		return g.call(g.expr(d-1), g.pick(tests...), d-1)
	case "join":
		l := g.cond(d-1, true)
		for i := 0; ; i++ {
			la := g.m(l).absent
			m := g.pick("And", "Or", "Xor")
			x := 0
			if g.chance(0.12) {
				x = g.emit(m+"Pattern", l, g.argument(tRelPat, "", d-1))
				la = false
			} else {
				r := g.cond(d-1, true)
				la = la && g.m(r).absent
				x = g.emit(m, l, hArg(r))
			}
			g.m(x).absent = la
			l = x
			if (!la || absentOK) && !g.chance(0.45) || i > 6 {
				break
			}
		}
		if g.m(l).absent && !absentOK {
			return g.emit("ConditionsIsTrue", 0)
		}
		return l
	case "not":
		if g.chance(0.5) {
			return g.emit("Not", g.cond(d-1, false))
		}
		return g.emit("ConditionsNot", 0, hArg(g.cond(d-1, false)))
	case "const":
		return g.fn(g.pick("TRUE_CONDITION", "FALSE_CONDITION", "ConditionsIsTrue", "ConditionsIsFalse"), 0)
	case "labels":
		return g.emit("HasLabels", g.node(d-1, true), lArg(g.labels1()))
	case "pattern":
		return g.fn("ConditionsNotByPattern", d-1)
	case "pred":
		f := g.pick("PredicateAll", "PredicateAny", "PredicateNone", "PredicateSingle", "PredicateAllBySymbolicName",
			"PredicateAnyBySymbolicName", "PredicateNoneBySymbolicName", "PredicateSingleBySymbolicName")
		b := g.emit("In", g.fn(f, d-1), g.argument(tExpr, "", d-1))
		return g.emit("Where", b, hArg(g.cond(d-1, false)))
	case "exists":
		return g.fn(g.pick("PredicateExists", "PredicateExistsByPattern"), d-1)
	case "subquery":
		b := g.emit("Match", 0, lArg([]Arg{hArg(g.pe(d - 1))}))
		if g.chance(0.6) {
			b = g.emit("Where", b, hArg(g.cond(d-1, true)))
			for g.chance(0.3) {
				b = g.emit(g.pick("And", "Or"), b, hArg(g.cond(d-1, true)))
			}
		}
		return g.emit("AsCondition", b)
	case "case":
		return g.caseExpr(d)
	}
	return g.call(g.expr(d-1), g.pick(comparisons...), d-1)
}
