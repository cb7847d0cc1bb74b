package main

import (
	"fmt"
	"sync"
)

// runBackends analyses every registered generator from its entry point with a
// fresh client, in parallel, and adds up what was covered.
func runBackends(P *Program, rep *Report, cov Coverage, only map[string]bool, mk func(b Backend) Client, setup func(b Backend, e *Engine), done func(b Backend, e *Engine, rs []Result)) {
	bs := P.backends()
	if len(bs) < 4 {
		rep.add("anchor|backends", fmt.Sprintf("only %d generators are registered with a constant name and function; the analysis expects the four of the command", len(bs)))
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	steps, emits, ctxs := 0, 0, 0
	fns := map[string]bool{}
	for _, b := range bs {
		if only != nil && !only[b.Name] {
			continue
		}
		wg.Add(1)
		go func(b Backend) {
			defer wg.Done()
			defer rep.guard()
			e := newEngine(P, mk(b))
			if setup != nil {
				setup(b, e)
			}
			rs := e.exec(b.Fn, e.paramVals(b.Fn), nil, &State{prop: e.client.Init(), mem: newMem()}, nil, nil)
			mu.Lock()
			defer mu.Unlock()
			steps += e.Steps
			emits += e.Emits
			ctxs += len(e.ctxs)
			for f := range e.Inlined {
				fns[f.String()] = true
			}
			for _, u := range e.Undecided {
				rep.undecide(b.Name + ": " + u)
			}
			if e.Emits == 0 {
				rep.add("anchor|emits|"+b.Name, "no text emission was reached from the "+b.Name+" generator")
			}
			if done != nil {
				done(b, e, rs)
			}
		}(b)
	}
	wg.Wait()
	addInt(cov, "block_visits", steps)
	addInt(cov, "text_emissions_interpreted", emits)
	addInt(cov, "calling_contexts", ctxs)
	if n, ok := cov["functions_interpreted"].(int); !ok || len(fns) > n {
		cov["functions_interpreted"] = len(fns)
	}
}

func addInt(c Coverage, k string, n int) {
	if o, ok := c[k].(int); ok {
		n += o
	}
	c[k] = n
}
