package main

import (
	"sync"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// RunConcurrently executes the first operations of a program, and then the others in several goroutines at once: each has
// values of its own that it derives from the shared ones, and renders the statements with renderers of its own.
// All observations of all goroutines have to be what the specification says.
func RunConcurrently(p Program, goroutines int) Trace {
	e := &executor{env: make([]value, 1), rnd: uint64(p.Mode), shared: cypher.NewRenderer()}
	tr := Trace{ID: p.ID, Ops: []Op{}, Outs: []Out{}}
	for _, op := range p.Ops {
		if op.A == nil {
			op.A = []Arg{}
		}
		tr.Ops = append(tr.Ops, op)
	}
	cut := int(e.next() % uint64(len(p.Ops)+1))
	seen := map[int][]Obs{}
	order := []int{}
	var mu sync.Mutex
	see := func(h int, o Obs) {
		mu.Lock()
		defer mu.Unlock()
		for _, x := range seen[h] {
			if x.X == o.X && equal(x.O, o.O) {
				return
			}
		}
		if len(seen[h]) == 0 {
			order = append(order, h)
		}
		seen[h] = append(seen[h], o)
	}
	outs := func() Trace {
		for _, h := range order {
			tr.Outs = append(tr.Outs, Out{h, seen[h]})
		}
		return tr
	}
	stop := len(p.Ops)
	for i, op := range p.Ops[:cut] {
		v, panicked := e.do(op)
		e.env = append(e.env, v)
		if panicked != "" {
			see(i+1, Obs{X: "panic", O: []string{panicked}})
			tr.Ops = tr.Ops[:i+1]
			return outs()
		}
	}
	for _, s := range e.late {
		scribble(s)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < goroutines; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			e := &executor{env: append([]value{}, e.env...), rnd: uint64(p.Mode) + uint64(g)*7919 + 1, shared: cypher.NewRenderer()}
			i := cut
			if msg := guarded(func() {
				e.own = true
				for round := 0; round < 2; round++ { // what is shared
					for h := 1; h <= cut; h++ {
						if isStatement(e.env[h]) {
							see(h, e.render(h, e.next()))
						}
					}
				}
				for ; i < len(p.Ops); i++ {
					v, panicked := e.do(p.Ops[i])
					e.env = append(e.env, v)
					if panicked != "" {
						see(i+1, Obs{X: "panic", O: []string{panicked}})
						mu.Lock()
						if i+1 < stop {
							stop = i + 1
						}
						mu.Unlock()
						return
					}
					if isStatement(v) {
						see(i+1, e.render(i+1, e.next()))
					}
				}
				for h := len(e.env) - 1; h > 0; h-- {
					if isStatement(e.env[h]) {
						see(h, e.render(h, e.next()))
					}
				}
			}); msg != "" {
				die("program %s: %s", p.ID, msg)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	return outs()
}

// conc executes groups of programs at the same time.
func conc(ps []Program, group, goroutines int) []Trace {
	traces := make([]Trace, len(ps))
	for from := 0; from < len(ps); from += group {
		var wg sync.WaitGroup
		for i := from; i < from+group && i < len(ps); i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				traces[i] = RunConcurrently(ps[i], goroutines)
			}(i)
		}
		wg.Wait()
	}
	return traces
}
