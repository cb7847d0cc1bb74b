package main

import (
	"fmt"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violation: a stable identity (rule and construct, no line
// numbers) and a message that names the construct.
type Finding struct {
	Key string
	Msg string
}

type Report struct {
	mu        sync.Mutex
	m         map[string]string
	undecided []string
}

func (r *Report) add(key, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.m == nil {
		r.m = map[string]string{}
	}
	if o, ok := r.m[key]; !ok || msg < o {
		r.m[key] = msg
	}
}

// guard is deferred where the analysis runs in parallel.
func (r *Report) guard() {
	if x := recover(); x != nil {
		r.add("panic", fmt.Sprintf("the analysis met a construct it does not know: %v at %s", x, panicSite()))
	}
}

func (r *Report) undecide(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.undecided {
		if x == s {
			return
		}
	}
	r.undecided = append(r.undecided, s)
}

func (r *Report) list() []Finding {
	var out []Finding
	for k, m := range r.m {
		out = append(out, Finding{k, m})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

// where names the repository function a text comes from: the innermost caller
// that is not a method of the text writer itself.
func (e *Engine) where(c *Ctx, in ssa.Instruction) string {
	x, i := e.whereCtx(c, in)
	return fnName(x.fn) + " (" + e.P.instrPos(i) + ")"
}

func (e *Engine) whereCtx(c *Ctx, in ssa.Instruction) (*Ctx, ssa.Instruction) {
	x := c
	i := in
	for x != nil && x.parent != nil && x.call != nil && x.fn.Signature.Recv() != nil && namedOf(x.fn.Signature.Recv().Type()) == "build.Writer" {
		i = x.call
		x = x.parent
	}
	return x, i
}
