package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"time"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// An Arg is an argument of an operation: a handle ("h"), a string ("s"), an int ("i"), a float ("f"), a bool ("b"),
// nil ("n") or a list ("l": the trailing arguments of a variadic call, or a slice).
type Arg struct {
	T string
	S string // s, i, f: the value as text
	H int    // h
	B bool   // b
	L []Arg  // l
}

type wireArg struct {
	T string          `json:"t"`
	V json.RawMessage `json:"v,omitempty"`
}

func (a Arg) MarshalJSON() ([]byte, error) {
	var v interface{}
	switch a.T {
	case "h":
		v = a.H
	case "s":
		return []byte(`{"t":"s","v":` + quoteASCII(a.S) + `}`), nil
	case "i", "f":
		v = a.S
	case "b":
		v = a.B
	case "n":
		return []byte(`{"t":"n"}`), nil
	case "l":
		if a.L == nil {
			a.L = []Arg{}
		}
		v = a.L
	}
	raw, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	return json.Marshal(wireArg{a.T, raw})
}

func (a *Arg) UnmarshalJSON(data []byte) error {
	var w wireArg
	if err := json.Unmarshal(data, &w); err != nil {
		return err
	}
	a.T = w.T
	switch a.T {
	case "h":
		return json.Unmarshal(w.V, &a.H)
	case "s":
		if err := json.Unmarshal(w.V, &a.S); err != nil {
			return err
		}
		a.S = unprintable(a.S)
		return nil
	case "i", "f":
		return json.Unmarshal(w.V, &a.S)
	case "b":
		return json.Unmarshal(w.V, &a.B)
	case "n":
		return nil
	case "l":
		return json.Unmarshal(w.V, &a.L)
	}
	return fmt.Errorf("argument type %q", a.T)
}

// quoteASCII is a JSON string with all but ASCII escaped.
func quoteASCII(s string) string {
	out := []byte{'"'}
	for _, r := range printable(s) {
		switch {
		case r == '"' || r == '\\':
			out = append(out, '\\', byte(r))
		case r >= 0x20 && r < 0x7f:
			out = append(out, byte(r))
		case r >= 0x10000:
			r -= 0x10000
			out = append(out, fmt.Sprintf("\\u%04x\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff))...)
		default:
			out = append(out, fmt.Sprintf("\\u%04x", r)...)
		}
	}
	return string(append(out, '"'))
}

// unprintable undoes printable.
func unprintable(s string) string {
	out := []byte{}
	for _, r := range s {
		if r >= 0xE000 && r < 0xE100 {
			out = append(out, byte(r-0xE000))
		} else {
			out = append(out, string(r)...)
		}
	}
	return string(out)
}

type Op struct {
	M string `json:"m"`
	R int    `json:"r"`
	A []Arg  `json:"a"`
}

func (o Op) MarshalJSON() ([]byte, error) {
	type wire Op
	if o.A == nil {
		o.A = []Arg{}
	}
	return json.Marshal(wire(o))
}

// A Program is a sequence of operations and, in Obs, in which order and how its statements are rendered.
type Program struct {
	ID  string `json:"id"`
	Ops []Op   `json:"ops"`
	// seed of the choices of the executor (how slices are passed, which renderer is used, the order of observations)
	Mode int64 `json:"mode"`
}

// An Obs is what was observed of a statement.
type Obs struct {
	X string   // "", "err" or "panic"
	O []string // the tokens
	T string   // the text, or the error
}

func (o Obs) MarshalJSON() ([]byte, error) {
	out := []byte(`{"x":"` + o.X + `","o":[`)
	for i, t := range o.O {
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, quoteASCII(t)...)
	}
	return append(out, "]}"...), nil
}

type Out struct {
	H   int   `json:"h"`
	Obs []Obs `json:"obs"`
}

type Trace struct {
	ID   string `json:"id"`
	Ops  []Op   `json:"ops"`
	Outs []Out  `json:"outs"`
	Skip bool   `json:"skip,omitempty"`
}

type value struct {
	v  reflect.Value // with the static type, as a user's variable
	ok bool
}

var (
	tError     = reflect.TypeOf((*error)(nil)).Elem()
	tExpr      = reflect.TypeOf((*cypher.Expression)(nil)).Elem()
	tCond      = reflect.TypeOf((*cypher.Condition)(nil)).Elem()
	tExprC     = reflect.TypeOf(cypher.ExpressionContainer{})
	tCondC     = reflect.TypeOf(cypher.ConditionContainer{})
	tStatement = reflect.TypeOf((*cypher.Statement)(nil)).Elem()
	tNamed     = reflect.TypeOf((*cypher.Named)(nil)).Elem()
	tLiteral   = reflect.TypeOf((*cypher.Literal)(nil)).Elem()
	tAny       = reflect.TypeOf((*interface{})(nil)).Elem()
	tLocation  = reflect.TypeOf((*time.Location)(nil))
)

// plain is the type of what a user has after Get().
func plain(t reflect.Type) reflect.Type {
	if t == tExprC {
		return tExpr
	}
	if t == tCondC {
		return tCond
	}
	return t
}

func unwrap(v reflect.Value) reflect.Value {
	switch v.Type() {
	case tExprC:
		return slot(tExpr, reflect.ValueOf(v.Interface().(cypher.ExpressionContainer).Get()))
	case tCondC:
		return slot(tCond, reflect.ValueOf(v.Interface().(cypher.ConditionContainer).Get()))
	}
	return v
}

// slot is a variable of type t that holds v.
func slot(t reflect.Type, v reflect.Value) reflect.Value {
	s := reflect.New(t).Elem()
	if v.IsValid() {
		s.Set(v)
	}
	return s
}

// goValue is a variable of type t that holds a Go value, if it can.
func goValue(t reflect.Type, x interface{}) reflect.Value {
	v := reflect.ValueOf(x)
	if !v.Type().AssignableTo(t) {
		fail("a %v is no %v", v.Type(), t)
	}
	return slot(t, v)
}

type executor struct {
	env    []value // from 1
	late   []reflect.Value
	rnd    uint64
	shared *cypher.CypherRenderer
	own    bool // use no renderer of others
}

func (e *executor) next() uint64 {
	e.rnd += 0x9e3779b97f4a7c15
	z := e.rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type infra struct{ msg string }

func fail(format string, a ...interface{}) { panic(infra{fmt.Sprintf(format, a...)}) }

func (e *executor) handle(h int) reflect.Value {
	if h < 1 || h >= len(e.env) {
		fail("no handle %d", h)
	}
	return e.env[h].v
}

func (e *executor) arg(a Arg, t reflect.Type) reflect.Value {
	switch a.T {
	case "h":
		v := e.handle(a.H)
		if t == tCondC {
			if v.Type() == tCondC {
				return v
			}
			c, ok := v.Interface().(cypher.Condition)
			if !ok {
				fail("no condition: %v", v.Type())
			}
			return reflect.ValueOf(cypher.ConditionWrap(c))
		}
		v = unwrap(v)
		if t == tAny && v.Kind() == reflect.Interface {
			return slot(t, v.Elem())
		}
		if !v.Type().AssignableTo(t) {
			fail("a %v is no %v", v.Type(), t)
		}
		return slot(t, v)
	case "n":
		return reflect.Zero(t)
	case "s":
		if t == tLocation {
			return reflect.ValueOf(time.FixedZone(a.S, 3600))
		}
		return goValue(t, a.S)
	case "b":
		return goValue(t, a.B)
	case "i":
		n, err := strconv.ParseInt(a.S, 10, 64)
		if err != nil {
			fail("int %q", a.S)
		}
		if t == tAny {
			return slot(t, reflect.ValueOf(int(n)))
		}
		if k := t.Kind(); k < reflect.Int || k > reflect.Float64 {
			fail("an int is no %v", t)
		}
		return reflect.ValueOf(n).Convert(t)
	case "f":
		var f float64
		switch a.S {
		case "NaN":
			f = math.NaN()
		case "Inf":
			f = math.Inf(1)
		case "-Inf":
			f = math.Inf(-1)
		default:
			var err error
			if f, err = strconv.ParseFloat(a.S, 64); err != nil {
				fail("float %q", a.S)
			}
		}
		return goValue(t, f)
	case "l":
		if t == tAny {
			t = reflect.SliceOf(tLiteral)
			s := e.slice(a.L, t)
			return slot(tAny, s)
		}
		if t.Kind() != reflect.Slice {
			fail("a list is no %v", t)
		}
		return e.slice(a.L, t)
	}
	fail("argument %q", a.T)
	return reflect.Value{}
}

// slice is the caller's slice, with room behind its end: it is overwritten after the call and when the program is over.
func (e *executor) slice(as []Arg, t reflect.Type) reflect.Value {
	if len(as) == 0 && e.next()%2 == 0 {
		return reflect.Zero(t)
	}
	s := reflect.MakeSlice(t, len(as), len(as)+int(e.next()%3))
	for i, a := range as {
		s.Index(i).Set(e.arg(a, t.Elem()))
	}
	e.late = append(e.late, s)
	return s
}

var (
	scribbleNode = cypher.AnyNodeNamed("scribbled")
	scribbles    = []reflect.Value{
		reflect.ValueOf(cypher.StringLiteralCreate("scribbled")), reflect.ValueOf(scribbleNode),
		reflect.ValueOf(scribbleNode.Property("scribbled")), reflect.ValueOf("scribbled"),
		reflect.ValueOf(cypher.CreateDescendingSortItem(cypher.StringLiteralCreate("scribbled"))),
		reflect.ValueOf(cypher.StringLiteralCreate("scribbled").IsNull().Get()),
	}
)

func scribble(s reflect.Value) {
	s = s.Slice3(0, s.Cap(), s.Cap())
	for i := 0; i < s.Len(); i++ {
		for _, v := range scribbles {
			if v.Type().AssignableTo(s.Type().Elem()) {
				s.Index(i).Set(v)
				break
			}
		}
	}
}

func (e *executor) callable(op Op) (reflect.Value, bool) {
	if op.R == 0 {
		f, ok := functions[op.M]
		if !ok {
			fail("no function %s", op.M)
		}
		return f, true
	}
	r := e.handle(op.R)
	if t := r.Type(); t == tExprC || t == tCondC {
		// a container is used as it is or unwrapped
		m := r.MethodByName(op.M)
		half := e.next()%2 == 0
		if _, only := plain(t).MethodByName(op.M); m.IsValid() && (half || !only) {
			return m, true
		}
		r = unwrap(r)
	}
	if _, ok := r.Type().MethodByName(op.M); !ok {
		fail("a %v has no method %s", r.Type(), op.M)
	}
	return r.MethodByName(op.M), true
}

// do executes one operation; panicked is what the code under test panicked with.
func (e *executor) do(op Op) (res value, panicked string) {
	var args []reflect.Value
	mine := len(e.late)
	f, _ := e.callable(op)
	if f.Kind() != reflect.Func {
		if len(op.A) != 0 {
			fail("%s takes no arguments", op.M)
		}
		return value{f, true}, ""
	}
	t := f.Type()
	if t.NumIn() != len(op.A) {
		fail("%s takes %d arguments, not %d", op.M, t.NumIn(), len(op.A))
	}
	for i, a := range op.A {
		args = append(args, e.arg(a, t.In(i)))
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(infra); ok {
					panic(x)
				}
				panicked = fmt.Sprint(r)
			}
		}()
		if t.IsVariadic() {
			out = f.CallSlice(args)
		} else {
			out = f.Call(args)
		}
	}()
	for _, s := range e.late[mine:] {
		for i := 0; i < s.Len(); i++ {
			scribble(s.Slice3(0, s.Len(), s.Len()))
		}
	}
	if panicked != "" {
		return value{}, panicked
	}
	if len(out) == 2 && out[1].Type() == tError {
		if !out[1].IsNil() {
			return value{slot(tStatement, reflect.Value{}), false}, ""
		}
		out = out[:1]
	}
	if len(out) != 1 {
		fail("%s returns %d values", op.M, len(out))
	}
	return value{slot(t.Out(0), out[0]), true}, ""
}

var globalRenderer = cypher.NewRenderer()

func (e *executor) render(h int, how uint64) (o Obs) {
	v := e.env[h]
	if !v.ok || v.v.IsNil() {
		return Obs{X: "err", T: "(Build failed)"}
	}
	st, ok := v.v.Interface().(cypher.Statement)
	if !ok {
		fail("handle %d is no statement", h)
	}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(infra); ok {
				panic(x)
			}
			o = Obs{X: "panic", T: fmt.Sprint(r)}
		}
	}()
	r := e.shared
	switch {
	case how%3 == 0:
		r = cypher.NewRenderer()
	case how%3 == 1 && !e.own:
		r = globalRenderer
	}
	text, err := r.Render(st)
	if err != nil {
		return Obs{X: "err", T: err.Error()}
	}
	return Obs{O: Lex(text), T: text}
}

func isStatement(v value) bool { return v.v.IsValid() && v.v.Type() == tStatement }

// Run executes a program and observes all of its statements: when they were built, again while others are built,
// and in another order at the end, after the slices the program passed have been overwritten.
func Run(p Program) (tr Trace) {
	e := &executor{env: make([]value, 1), rnd: uint64(p.Mode), shared: cypher.NewRenderer()}
	tr = Trace{ID: p.ID, Ops: []Op{}, Outs: []Out{}}
	seen := map[int][]Obs{}
	order := []int{}
	see := func(h int) {
		step(h)
		o := e.render(h, e.next())
		for _, x := range seen[h] {
			if x.X == o.X && equal(x.O, o.O) {
				return
			}
		}
		if len(seen[h]) == 0 {
			order = append(order, h)
		}
		seen[h] = append(seen[h], o)
	}
	stmts := []int{}
	for i, op := range p.Ops {
		if op.A == nil {
			op.A = []Arg{}
		}
		tr.Ops = append(tr.Ops, op)
		step(i + 1)
		v, panicked := e.do(op)
		e.env = append(e.env, v)
		if panicked != "" {
			order = append(order, i+1)
			seen[i+1] = []Obs{{X: "panic", T: panicked}}
			break
		}
		if isStatement(v) {
			stmts = append(stmts, i+1)
			if e.next()%4 != 0 {
				see(i + 1)
			}
			see(stmts[int(e.next()%uint64(len(stmts)))])
		}
	}
	for _, s := range e.late {
		scribble(s)
	}
	n := len(stmts)
	for round := 0; round < 2; round++ {
		for i := n - 1; i > 0; i-- {
			j := int(e.next() % uint64(i+1))
			stmts[i], stmts[j] = stmts[j], stmts[i]
		}
		for _, h := range stmts {
			see(h)
		}
	}
	for _, h := range order {
		tr.Outs = append(tr.Outs, Out{h, seen[h]})
	}
	return tr
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
