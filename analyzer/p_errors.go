package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", "For every call reachable from the command that may fail (a module function that can return a non-nil error, with the callbacks it is given taken into account; file, directory, read, flush and close operations; regexp.Compile; conversions of schema text) every path on which the error is not nil is followed: before the function returns normally the error must have been returned (possibly wrapped, or stored in the named result), recorded in the parser's error list, or the process ended with a failure status. Buffered writers must be flushed on every path that does not already report an error; the error list is only appended to, only empty lists give a nil error, and whoever creates a parser returns its list; recover must re-panic or belong to a recorded error; main returns normally only after a build without error or for the version flag.", runErrors)
}

type errCheck struct {
	F      *Flow
	P      *Program
	rep    *Report
	busy   map[string]bool
	may    map[string]bool
	rw     map[string]int
	nRet   map[*ssa.Function]int
	report map[*ssa.Function]int
	nPath  int
	nSite  int
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

// errResult is the index of the error among the results, or -1.
func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErr(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

const (
	failNo = iota
	failYes
	failConv // conversion of schema text
)

// external tells how a library call can fail.
func extFail(n string) int {
	switch {
	case hasAnyPrefix(n, "strconv.Unquote", "strconv.Append", "strconv.Quote"):
		return failNo
	case hasAnyPrefix(n, "strconv.", "time.Parse"):
		return failConv
	case hasAnyPrefix(n, "fmt.Sscan"):
		return failConv
	case hasAnyPrefix(n, "os.", "(*os.File).", "io.", "io/ioutil.", "io/fs.", "path/filepath.", "regexp.Compile", "(*bufio.Writer).Flush", "bufio.", "(*bufio.Reader).", "(io.", "encoding/", "text/template.", "(*text/template", "go/format.", "os/exec.", "(*os/exec."):
		return failYes
	}
	return failNo
}

func (c *errCheck) writesTo(cc *ssa.CallCommon, n string) bool {
	if !hasAnyPrefix(n, "fmt.Fprint", "io.WriteString", "io.Copy") || len(cc.Args) == 0 {
		return false
	}
	w := cc.Args[0]
	if mi, ok := w.(*ssa.MakeInterface); ok {
		t := mi.X.Type().String()
		if t == "*os.File" {
			if u, ok := mi.X.(*ssa.UnOp); ok {
				if _, g := u.X.(*ssa.Global); g {
					return false // standard output
				}
			}
			return true
		}
		return !strings.Contains(t, "strings.Builder") && !strings.Contains(t, "bytes.Buffer") && !strings.Contains(t, "bufio.Writer")
	}
	return true
}

// mayFail: the call can yield a non-nil error.
func (c *errCheck) mayFail(ci ssa.CallInstruction, bind map[*ssa.Parameter][]*ssa.Function) int {
	cc := ci.Common()
	if errResult(cc.Signature()) < 0 {
		return failNo
	}
	n := callName(cc)
	if strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" {
		if c.writesTo(cc, n) {
			return failYes
		}
		return failNo
	}
	if k := extFail(n); k != failNo {
		return k
	}
	var targets []*ssa.Function
	if p, ok := cc.Value.(*ssa.Parameter); ok && bind[p] != nil {
		targets = bind[p]
	} else if f := funcOf(cc.Value); f != nil && !cc.IsInvoke() {
		targets = []*ssa.Function{f}
	} else {
		targets = c.F.calls[ci]
		if len(targets) == 0 {
			return failYes
		}
	}
	for _, g := range targets {
		if len(g.Blocks) == 0 {
			continue
		}
		nb := map[*ssa.Parameter][]*ssa.Function{}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for i, a := range args {
			if i >= len(g.Params) {
				break
			}
			if fs := c.funcsOf(a, bind); fs != nil {
				nb[g.Params[i]] = fs
			}
		}
		if c.fnFails(g, nb) {
			return failYes
		}
	}
	return failNo
}

func (c *errCheck) funcsOf(v ssa.Value, bind map[*ssa.Parameter][]*ssa.Function) []*ssa.Function {
	if _, ok := v.Type().Underlying().(*types.Signature); !ok {
		return nil
	}
	if f := funcOf(v); f != nil {
		return []*ssa.Function{f}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return bind[p]
	}
	return nil
}

func (c *errCheck) fnFails(g *ssa.Function, bind map[*ssa.Parameter][]*ssa.Function) bool {
	i := errResult(g.Signature)
	if i < 0 {
		return false
	}
	key := fmt.Sprintf("%p", g)
	for _, p := range g.Params {
		for _, f := range bind[p] {
			key += fmt.Sprintf(",%s=%p", p.Name(), f)
		}
	}
	if v, ok := c.may[key]; ok {
		return v
	}
	if c.busy[key] {
		return false
	}
	c.busy[key] = true
	res := false
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && c.valFails(g, r.Results[i], bind, map[ssa.Value]bool{}) {
			res = true
			break
		}
	}
	delete(c.busy, key)
	if res || len(c.busy) == 0 {
		c.may[key] = res
	}
	return res
}

func (c *errCheck) valFails(g *ssa.Function, v ssa.Value, bind map[*ssa.Parameter][]*ssa.Function, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.valFails(g, e, bind, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		if ci, ok := x.Tuple.(*ssa.Call); ok {
			return c.mayFail(ci, bind) != failNo
		}
		return true
	case *ssa.Call:
		return c.mayFail(x, bind) != failNo
	case *ssa.ChangeInterface:
		return c.valFails(g, x.X, bind, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, s := range cellStores(x.X) {
				if c.valFails(s.Parent(), s.Val, bind, seen) {
					return true
				}
			}
			if _, ok := x.X.(*ssa.Alloc); ok {
				return false
			}
		}
		return true
	}
	return true
}

// cellStores are the stores into a local cell, by its function and its closures.
func cellStores(cell ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, x)
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						walk(f.FreeVars[i])
					}
				}
			}
		}
	}
	walk(cell)
	return out
}

// --- following one error -------------------------------------------------

type errState struct {
	b     *ssa.BasicBlock
	i     int
	nn    map[ssa.Value]bool // values and cells that hold a non-nil error
	defs  map[*ssa.Defer]bool
	steps int
}

func (s *errState) key() string {
	var ks []string
	for v, ok := range s.nn {
		if ok {
			ks = append(ks, fmt.Sprintf("%p", v))
		}
	}
	for d := range s.defs {
		ks = append(ks, fmt.Sprintf("%p", d))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d.%d:", s.b.Index, s.i) + strings.Join(ks, ",")
}

func (s *errState) fork() *errState {
	t := &errState{b: s.b, i: s.i, nn: map[ssa.Value]bool{}, defs: map[*ssa.Defer]bool{}}
	for k, v := range s.nn {
		if v {
			t.nn[k] = true
		}
	}
	for k := range s.defs {
		t.defs[k] = true
	}
	return t
}

// nonNil: v is a non-nil error in state s.
func (c *errCheck) nonNil(v ssa.Value, s *errState, depth int) bool {
	if s.nn[v] {
		return true
	}
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		k, ok := x.X.(*ssa.Const)
		return !ok || k.Value != nil
	case *ssa.ChangeInterface:
		return c.nonNil(x.X, s, depth+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return c.nonNil(ta.X, s, depth+1)
		}
	case *ssa.TypeAssert:
		return c.nonNil(x.X, s, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !c.nonNil(e, s, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErr(x.Type()) {
			_ = g
			return true // a package-level error value
		}
	case *ssa.Call:
		n := callName(&x.Call)
		if n == "fmt.Errorf" || n == "errors.New" || n == "os.NewSyscallError" {
			return true
		}
		if n == "errors.Join" {
			return true
		}
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || errResult(f.Signature) < 0 {
			return false
		}
		return c.wraps(f, x.Call.Args, s, depth)
	}
	return false
}

// wraps: f returns a non-nil error whenever the given argument is one.
func (c *errCheck) wraps(f *ssa.Function, args []ssa.Value, s *errState, depth int) bool {
	t := &errState{nn: map[ssa.Value]bool{}, defs: map[*ssa.Defer]bool{}}
	key := fmt.Sprintf("%p", f)
	for i, a := range args {
		if i < len(f.Params) && (isErr(a.Type()) || types.IsInterface(a.Type())) && c.nonNil(a, s, depth+1) {
			t.nn[f.Params[i]] = true
			key += fmt.Sprintf(",%d", i)
		}
	}
	switch c.rw[key] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	c.rw[key] = 1
	t.b = f.Blocks[0]
	ok := c.follow(f, t, nil, failYes, true, func(ssa.Instruction, string) {})
	c.rw[key] = 3
	if ok {
		c.rw[key] = 2
	}
	return ok
}

// ends: the call does not return.
func (c *errCheck) ends(cc *ssa.CallCommon) bool {
	n := callName(cc)
	switch n {
	case "os.Exit":
		k, ok := cc.Args[0].(*ssa.Const)
		return !ok || k.Value == nil || constant.Sign(k.Value) != 0
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "builtin.panic", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln":
		return true
	}
	f := cc.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	return c.noReturn(f)
}

func (c *errCheck) noReturn(f *ssa.Function) bool {
	switch c.nRet[f] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	c.nRet[f] = 1
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool // a return is reachable
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if c.ends(x.Common()) {
					return false
				}
			case *ssa.Return:
				return true
			case *ssa.Panic:
				return false
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	r := walk(f.Blocks[0])
	c.nRet[f] = 3
	if !r {
		c.nRet[f] = 2
	}
	return !r
}

func isErrorList(t types.Type) bool {
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "ErrorList" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// records: the call adds a diagnostic to the list of errors.
func (c *errCheck) records(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if f.Signature.Recv() != nil && isErrorList(f.Signature.Recv().Type()) && f.Name() == "Add" {
		return true
	}
	return c.isReporter(f)
}

// follow walks every path from s; it returns whether each reaches a sink, and
// calls lost for those that do not. strict: a normal return needs a non-nil
// error result even when no other sink was met.
func (c *errCheck) follow(f *ssa.Function, start *errState, ci ssa.CallInstruction, kind int, quiet bool, lost func(at ssa.Instruction, how string)) bool {
	good := true
	fail := func(in ssa.Instruction, how string) {
		good = false
		lost(in, how)
	}
	seen := map[string]bool{}
	work := []*errState{start}
	ei := errResult(f.Signature)
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s.key()] {
			continue
		}
		seen[s.key()] = true
		if len(seen) > 20000 {
			c.rep.undecide("too many paths in " + fnName(f))
			return false
		}
		c.nPath++
	block:
		for i := s.i; i < len(s.b.Instrs); i++ {
			in := s.b.Instrs[i]
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); !isPhi {
					delete(s.nn, v)
				}
			}
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && s.nn[x.X] {
					s.nn[x] = true
				}
			case *ssa.ChangeInterface, *ssa.MakeInterface:
				if m, ok := in.(*ssa.ChangeInterface); ok && s.nn[m.X] {
					s.nn[m] = true
				}
			case *ssa.Extract:
				if cl, ok := x.Tuple.(*ssa.Call); ok && isErr(x.Type()) {
					if g := cl.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && errResult(g.Signature) == x.Index && c.wrapsAny(g, cl.Call.Args, s) {
						s.nn[x] = true
					}
				}
			case *ssa.Store:
				switch x.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					if c.nonNil(x.Val, s, 0) {
						s.nn[x.Addr] = true
					} else {
						delete(s.nn, x.Addr)
					}
				case *ssa.FieldAddr, *ssa.Global, *ssa.IndexAddr:
					if s.nn[x.Val] {
						if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
							// the arguments of a variadic call
							if a, ok := ia.X.(*ssa.Alloc); ok && !a.Heap || onlySliced(ia.X) {
								break
							}
						}
						break block // kept in a structure
					}
				}
			case *ssa.Defer:
				s.defs[x] = true
			case *ssa.RunDefers:
				c.runDefers(f, s, ci)
			case *ssa.Call:
				if ssa.CallInstruction(x) == ci {
					if kind != failConv || !c.nameFilter(ci) {
						fail(in, "is overwritten by the next round of a loop")
					}
					break block
				}
				if c.ends(&x.Call) || c.records(&x.Call) {
					break block
				}
				if g := x.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && errResult(g.Signature) < 0 {
					if c.handles(g, x.Call.Args, s) {
						break block
					}
				} else if isErr(x.Type()) && c.nonNil(x, s, 0) {
					s.nn[x] = true
				}
			case *ssa.Panic:
				break block
			case *ssa.Return:
				ok := false
				if ei >= 0 && c.nonNil(x.Results[ei], s, 0) {
					ok = true
				}
				for v := range s.nn {
					if fv, isFV := v.(*ssa.FreeVar); isFV && s.nn[fv] {
						ok = true
					}
				}
				for _, r := range x.Results {
					if t, _, isT := nilTest(r); isT && s.nn[t] {
						ok = true // told by a boolean result
					}
				}
				if !ok {
					fail(in, "is lost")
				}
				break block
			case *ssa.If:
				t, nilOnTrue, ok := nilTest(x.Cond)
				var cell ssa.Value
				if ok {
					t = stripIface(t)
					if u, isU := t.(*ssa.UnOp); isU && u.Op == token.MUL {
						switch u.X.(type) {
						case *ssa.Alloc, *ssa.FreeVar:
							cell = u.X
						}
					}
				}
				for k, succ := range s.b.Succs {
					u := s.fork()
					if ok && isErr(t.Type()) {
						isNil := (k == 0) == nilOnTrue
						if c.nonNil(t, s, 0) && isNil {
							continue
						}
						if !isNil {
							u.nn[t] = true
							if cell != nil {
								u.nn[cell] = true
							}
						}
					}
					if k == 0 && c.isEOFTest(x.Cond, s) {
						continue
					}
					if kind == failConv && ci != nil && naturalLoops(f)[succ][ci.(ssa.Instruction).Block()] && c.nameFilter(ci) {
						continue
					}
					c.enter(u, s.b, succ)
					work = append(work, u)
				}
				break block
			case *ssa.Jump:
				if kind == failConv && ci != nil && naturalLoops(f)[s.b.Succs[0]][ci.(ssa.Instruction).Block()] && c.nameFilter(ci) {
					break block // the element whose name it is is skipped
				}
				u := s.fork()
				c.enter(u, s.b, s.b.Succs[0])
				work = append(work, u)
				break block
			}
		}
	}
	return good
}

func (c *errCheck) wrapsAny(g *ssa.Function, args []ssa.Value, s *errState) bool {
	for _, a := range args {
		if isErr(a.Type()) && c.nonNil(a, s, 0) {
			return c.wraps(g, args, s, 0)
		}
	}
	return false
}

// handles: g, which returns no error, reports the error it is given.
func (c *errCheck) handles(g *ssa.Function, args []ssa.Value, s *errState) bool {
	for _, a := range args {
		if (isErr(a.Type()) || types.IsInterface(a.Type())) && c.nonNil(a, s, 0) && isErr(a.Type()) {
			return c.wraps(g, args, s, 0)
		}
	}
	return false
}

func (c *errCheck) isEOFTest(v ssa.Value, s *errState) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL {
		return false
	}
	for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if u, ok := p[1].(*ssa.UnOp); ok && s.nn[p[0]] {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
				return true
			}
		}
	}
	return false
}

func onlySliced(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r.(type) {
		case *ssa.IndexAddr, *ssa.Slice:
		default:
			return false
		}
	}
	return true
}

func (c *errCheck) enter(u *errState, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var set, del []ssa.Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if k >= 0 && isErr(ph.Type()) && c.nonNil(ph.Edges[k], u, 0) {
			set = append(set, ph)
		} else {
			del = append(del, ph)
		}
	}
	for _, v := range del {
		delete(u.nn, v)
	}
	for _, v := range set {
		u.nn[v] = true
	}
	u.b, u.i = to, 0
}

// runDefers applies the deferred closures that may be pending to the cells.
func (c *errCheck) runDefers(f *ssa.Function, s *errState, ci ssa.CallInstruction) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			if !s.defs[d] && !(ci != nil && reaches(d, ci.(ssa.Instruction))) {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			g := mc.Fn.(*ssa.Function)
			for i, bd := range mc.Bindings {
				if !s.nn[bd] {
					continue
				}
				if !c.keepsNonNil(g, g.FreeVars[i]) {
					delete(s.nn, bd)
				}
			}
		}
	}
}

// keepsNonNil: the closure leaves a non-nil error in the cell.
func (c *errCheck) keepsNonNil(g *ssa.Function, fv *ssa.FreeVar) bool {
	any := false
	for _, r := range *fv.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(fv) {
			any = true
		}
	}
	if !any {
		return true
	}
	t := &errState{b: g.Blocks[0], nn: map[ssa.Value]bool{fv: true}, defs: map[*ssa.Defer]bool{}}
	key := fmt.Sprintf("keep%p", fv)
	switch c.rw[key] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	c.rw[key] = 1
	ok := c.follow(g, t, nil, failYes, true, func(ssa.Instruction, string) {})
	c.rw[key] = 3
	if ok {
		c.rw[key] = 2
	}
	return ok
}

// reaches: control can get from a to b.
func reaches(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrBefore(a, b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// nameFilter: the text converted is a part of a name, used to select elements.
func (c *errCheck) nameFilter(ci ssa.CallInstruction) bool {
	v := ci.Common().Args[0]
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.Call:
			if strings.HasPrefix(callName(&x.Call), "strings.Trim") {
				v = x.Call.Args[0]
				continue
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok && strings.HasPrefix(callName(&cl.Call), "strings.Cut") {
				v = cl.Call.Args[0]
				continue
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				return types.TypeString(st, nil) == modPath+"/pkg/ast.Ident"
			}
		}
		return false
	}
	return false
}

// --- the parser's list of errors -----------------------------------------

// isReporter: every return of f has recorded a diagnostic.
func (c *errCheck) isReporter(f *ssa.Function) bool {
	switch c.report[f] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	c.report[f] = 1
	res := false
	if len(f.Blocks) > 0 && c.P.isRepoFunc(f) {
		_, res = c.silentPath(f)
	}
	c.report[f] = 3
	if res {
		c.report[f] = 2
	}
	return res
}

// silentPath finds a return reached without recording a diagnostic.
func (c *errCheck) silentPath(f *ssa.Function) (ssa.Instruction, bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var found ssa.Instruction
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || found != nil {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if c.records(&x.Call) || c.ends(&x.Call) || c.isHandlerCall(&x.Call) {
					return
				}
			case *ssa.Panic:
				return
			case *ssa.Return:
				found = in
				return
			case *ssa.If:
				if t, nilOnTrue, ok := nilTest(x.Cond); ok && isHandler(t.Type()) {
					// without a handler there is nothing to record
					if nilOnTrue {
						walk(b.Succs[1])
					} else {
						walk(b.Succs[0])
					}
					return
				}
				if k := c.allErrorsTest(x.Cond); k >= 0 {
					walk(b.Succs[k])
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	return found, found == nil
}

// isHandler: func(token.Position, string).
func isHandler(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 0 && strings.HasSuffix(types.TypeString(s.Params().At(0).Type(), nil), "pkg/token.Position")
}

func (c *errCheck) isHandlerCall(cc *ssa.CallCommon) bool {
	return !cc.IsInvoke() && cc.StaticCallee() == nil && isHandler(cc.Value.Type())
}

// allErrorsTest: the condition tests the AllErrors bit of the parser's mode;
// the result is the successor taken when the bit is set.
func (c *errCheck) allErrorsTest(v ssa.Value) int {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return -1
	}
	and, ok := b.X.(*ssa.BinOp)
	k, ok2 := b.Y.(*ssa.Const)
	if !ok || !ok2 || and.Op != token.AND || k.Value == nil || constant.Sign(k.Value) != 0 {
		return -1
	}
	m, ok := and.Y.(*ssa.Const)
	if !ok || !strings.HasSuffix(types.TypeString(and.X.Type(), nil), "pkg/parser.Mode") {
		return -1
	}
	bits, _ := constant.Uint64Val(m.Value)
	if bits == 0 || !c.modeAlways(bits) {
		return -1
	}
	if b.Op == token.EQL {
		return 1
	}
	return 0
}

// modeAlways: every caller outside the parser passes a mode with the bits set.
func (c *errCheck) modeAlways(bits uint64) bool {
	n := 0
	for _, f := range c.F.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !c.P.isRepoFunc(g) {
					continue
				}
				for i, a := range ci.Common().Args {
					if i < len(g.Params) && strings.HasSuffix(types.TypeString(a.Type(), nil), "pkg/parser.Mode") {
						switch x := a.(type) {
						case *ssa.Const:
							v, _ := constant.Uint64Val(x.Value)
							n++
							if v&bits != bits {
								return false
							}
						case *ssa.Parameter:
						default:
							return false
						}
					}
				}
			}
		}
	}
	return n > 0
}

func runErrors(P *Program, rep *Report, cov Coverage, tier string) {
	F := newFlow(P)
	if F.Main == nil {
		rep.undecide("the command's main function was not found")
		return
	}
	c := &errCheck{F: F, P: P, rep: rep, busy: map[string]bool{}, may: map[string]bool{}, rw: map[string]int{}, nRet: map[*ssa.Function]int{}, report: map[*ssa.Function]int{}}
	nCalls := 0
	for _, f := range F.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				nCalls++
				c.site(f, ci)
				c.special(f, ci)
			}
		}
	}
	c.lists()
	c.mainReturns()
	cov["functions_analysed"] = len(F.Fns)
	cov["calls_checked"] = nCalls
	cov["calls_that_may_fail"] = c.nSite
	cov["path_states_followed"] = c.nPath
	cov["explanation"] = "every reachable call, every path on which its error is not nil"
	if c.nSite < 40 {
		rep.undecide(fmt.Sprintf("only %d calls that may fail were found", c.nSite))
	}
}

func (c *errCheck) site(f *ssa.Function, ci ssa.CallInstruction) {
	// calls of parameters are judged where the function is called
	kind := c.mayFail(ci, nil)
	if kind == failNo {
		return
	}
	cc := ci.Common()
	n := callName(cc)
	if n == "" {
		n = "a " + cc.Value.Type().String()
		n = strings.ReplaceAll(n, modPath+"/pkg/", "")
	}
	n = strings.ReplaceAll(n, modPath+"/pkg/", "")
	at := c.P.instrPos(ci.(ssa.Instruction))
	c.nSite++
	bad := func(in ssa.Instruction, how string) {
		where := at
		if in != nil {
			where = at + ", at " + c.P.instrPos(in)
		}
		c.rep.add("lost:"+fkey(f)+":"+n, fmt.Sprintf("%s: a failure of %s %s (call at %s)", fnName(f), n, how, where))
	}
	call, ok := ci.(*ssa.Call)
	if !ok {
		// deferred or started in a goroutine
		if n == "(*os.File).Close" && c.onlyRead(cc.Args[0]) {
			return
		}
		bad(nil, "is dropped by the deferred call")
		return
	}
	if n == "(*os.File).Close" && c.onlyRead(cc.Args[0]) {
		return
	}
	ei := errResult(cc.Signature())
	var E ssa.Value
	if cc.Signature().Results().Len() == 1 {
		E = call
	} else {
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == ei {
				E = e
			}
		}
	}
	if E == nil || E.Referrers() == nil || len(*E.Referrers()) == 0 {
		if n == "(*os.File).Close" && c.afterError(call) {
			return
		}
		bad(nil, "is ignored")
		return
	}
	st := &errState{b: call.Block(), nn: map[ssa.Value]bool{E: true}, defs: map[*ssa.Defer]bool{}}
	in := E.(ssa.Instruction)
	for k, x := range in.Block().Instrs {
		if x == in {
			st.b, st.i = in.Block(), k+1
		}
	}
	c.follow(f, st, ci, kind, false, bad)
}

// onlyRead: the file was opened for reading.
func (c *errCheck) onlyRead(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	cl, ok := e.Tuple.(*ssa.Call)
	return ok && callName(&cl.Call) == "os.Open"
}

// afterError: every path from the call returns an error anyway.
func (c *errCheck) afterError(call *ssa.Call) bool {
	f := call.Parent()
	st := &errState{b: call.Block(), nn: map[ssa.Value]bool{}, defs: map[*ssa.Defer]bool{}}
	for k, x := range call.Block().Instrs {
		if x == ssa.Instruction(call) {
			st.i = k + 1
		}
	}
	// errors known to be there: tested on every way to the call
	for b := call.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		if t, nilOnTrue, ok := nilTest(iff.Cond); ok && isErr(t.Type()) {
			if (d.Succs[0] == b) != nilOnTrue {
				st.nn[t] = true
			}
		}
	}
	return c.follow(f, st, nil, failYes, true, func(ssa.Instruction, string) {})
}

// special: buffered writers, recover, exits.
func (c *errCheck) special(f *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	at := c.P.instrPos(ci.(ssa.Instruction))
	switch n := callName(cc); n {
	case "bufio.NewWriter", "bufio.NewWriterSize":
		call, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		if ret := c.unflushed(f, call); ret != nil {
			c.rep.add("unflushed:"+fkey(f), fmt.Sprintf("%s: the buffered writer made at %s is not flushed on the way to the return at %s, so what was written and its errors are lost", fnName(f), at, c.P.instrPos(ret)))
		}
	case "os.Exit":
		if k, ok := cc.Args[0].(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
			c.rep.add("exit0:"+fkey(f), fmt.Sprintf("%s ends the process with a success status (%s)", fnName(f), at))
		}
	case "builtin.recover":
		v, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		st := &errState{b: v.Block(), nn: map[ssa.Value]bool{}, defs: map[*ssa.Defer]bool{}}
		if !c.recovers(f, v) {
			c.rep.add("recover:"+fkey(f), fmt.Sprintf("%s recovers from a panic without raising it again or reporting it (%s)", fnName(f), at))
		}
		_ = st
	}
}

// recovers: on every path on which a panic was recovered it is raised again,
// unless it is the parser's own bail-out.
func (c *errCheck) recovers(f *ssa.Function, v *ssa.Call) bool {
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		if i == 0 {
			if seen[b] {
				return
			}
			seen[b] = true
		}
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Panic:
				return
			case *ssa.Call:
				if c.ends(&x.Call) || c.records(&x.Call) {
					return
				}
			case *ssa.Return:
				ok = false
				return
			case *ssa.If:
				if t, nilOnTrue, isT := nilTest(x.Cond); isT && t == ssa.Value(v) {
					if nilOnTrue {
						walk(b.Succs[1], 0)
					} else {
						walk(b.Succs[0], 0)
					}
					return
				}
				cond, okEdge := x.Cond, 0
				if u, isU := cond.(*ssa.UnOp); isU && u.Op == token.NOT {
					cond, okEdge = u.X, 1
				}
				if e, isE := cond.(*ssa.Extract); isE && e.Index == 1 {
					if ta, isTA := e.Tuple.(*ssa.TypeAssert); isTA && ta.X == ssa.Value(v) && c.bailType(ta.AssertedType) {
						walk(b.Succs[1-okEdge], 0)
						return
					}
				}
			}
		}
		for _, s := range b.Succs {
			walk(s, 0)
		}
	}
	for i, in := range v.Block().Instrs {
		if in == ssa.Instruction(v) {
			walk(v.Block(), i+1)
		}
	}
	return ok
}

// bailType: a type of the repository, panicked with only where errors have been recorded.
func (c *errCheck) bailType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			p, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			if !ok {
				continue
			}
			mi, ok := p.X.(*ssa.MakeInterface)
			if !ok || !types.Identical(mi.X.Type(), t) {
				continue
			}
			adds := false
			for _, b2 := range f.Blocks {
				for _, in := range b2.Instrs {
					if cl, ok := in.(*ssa.Call); ok && c.records(&cl.Call) {
						adds = true
					}
				}
			}
			if !adds {
				return false
			}
		}
	}
	return true
}

// unflushed finds a return that a buffered writer reaches unflushed.
func (c *errCheck) unflushed(f *ssa.Function, w *ssa.Call) ssa.Instruction {
	ei := errResult(f.Signature)
	seen := map[*ssa.BasicBlock]bool{}
	var found ssa.Instruction
	flushes := func(cc *ssa.CallCommon) bool {
		if callName(cc) == "(*bufio.Writer).Flush" && cc.Args[0] == ssa.Value(w) {
			return true
		}
		g := cc.StaticCallee()
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			g = mc.Fn.(*ssa.Function)
		}
		if g == nil || len(g.Blocks) == 0 {
			return false
		}
		// a helper that flushes the writer it is given
		for i, a := range cc.Args {
			if a == ssa.Value(w) && i < len(g.Params) {
				for _, r := range *g.Params[i].Referrers() {
					if x, ok := r.(*ssa.Call); ok && callName(&x.Call) == "(*bufio.Writer).Flush" {
						return true
					}
				}
			}
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for i, bd := range mc.Bindings {
				if bd == ssa.Value(w) || holds(bd, w) {
					for _, r := range *g.FreeVars[i].Referrers() {
						if u, ok := r.(*ssa.UnOp); ok {
							for _, r2 := range *u.Referrers() {
								if x, ok := r2.(*ssa.Call); ok && callName(&x.Call) == "(*bufio.Writer).Flush" {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		if found != nil {
			return
		}
		if i == 0 {
			if seen[b] {
				return
			}
			seen[b] = true
		}
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Call:
				if flushes(&x.Call) || c.ends(&x.Call) {
					return
				}
			case *ssa.Defer:
				if flushes(&x.Call) {
					return
				}
			case *ssa.Panic:
				return
			case *ssa.Return:
				if ei >= 0 {
					st := &errState{b: b, nn: map[ssa.Value]bool{}, defs: map[*ssa.Defer]bool{}}
					for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
						id := d.Idom()
						if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && len(d.Preds) == 1 {
							if t, nilOnTrue, ok := nilTest(iff.Cond); ok && (id.Succs[0] == d) != nilOnTrue {
								st.nn[t] = true
							}
						}
					}
					v := x.Results[ei]
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
						// the named result: what was stored last in this block
						for k := len(b.Instrs) - 1; k >= 0; k-- {
							if s, ok := b.Instrs[k].(*ssa.Store); ok && s.Addr == u.X {
								v = s.Val
								break
							}
						}
					}
					if c.nonNil(v, st, 0) {
						return
					}
				}
				found = x
				return
			}
		}
		for _, s := range b.Succs {
			walk(s, 0)
		}
	}
	for i, in := range w.Block().Instrs {
		if in == ssa.Instruction(w) {
			walk(w.Block(), i+1)
		}
	}
	return found
}

func holds(cell ssa.Value, v ssa.Value) bool {
	for _, s := range cellStores(cell) {
		if s.Val == v {
			return true
		}
	}
	return false
}

// lists checks the handling of the parser's error list.
func (c *errCheck) lists() {
	P := c.P
	for _, f := range c.F.Fns {
		// stores to a list
		isMethod := f.Signature.Recv() != nil && isErrorList(f.Signature.Recv().Type())
		addsDirect, callsHandler := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !isErrorList(x.Val.Type()) {
						continue
					}
					if _, ok := x.Addr.(*ssa.Alloc); ok {
						continue
					}
					if cl, ok := x.Val.(*ssa.Call); ok {
						if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							if u, ok := cl.Call.Args[0].(*ssa.UnOp); ok && sameExpr(u.X, x.Addr) {
								continue
							}
						}
					}
					c.rep.add("list:"+fkey(f), fmt.Sprintf("%s overwrites the list of errors (%s)", fnName(f), P.instrPos(in)))
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && isErrorList(g.Signature.Recv().Type()) && g.Name() == "Add" {
						addsDirect = true
					}
					if c.isHandlerCall(&x.Call) {
						callsHandler = true
					}
					if g := x.Call.StaticCallee(); g != nil {
						for i, a := range x.Call.Args {
							if i >= len(g.Params) || !isHandler(a.Type()) {
								continue
							}
							h := funcOf(a)
							if _, isParam := a.(*ssa.Parameter); isParam {
								continue
							}
							if h == nil || !c.isReporter(h) {
								c.rep.add("handler:"+fkey(f), fmt.Sprintf("%s gives %s an error handler that does not record every error (%s)", fnName(f), fnName(g), P.instrPos(in)))
							}
						}
					}
				}
			}
		}
		if (addsDirect || callsHandler) && !isMethod {
			if ret, ok := c.silentPath(f); !ok && f.Signature.Results().Len() == 0 && takesMessage(f) {
				c.rep.add("silent:"+fkey(f), fmt.Sprintf("%s can return without recording the error it was given (%s)", fnName(f), P.instrPos(ret)))
			}
		}
		if isMethod && errResult(f.Signature) >= 0 {
			c.listErr(f)
		}
		c.parserOwner(f)
	}
}

func takesMessage(f *ssa.Function) bool {
	for _, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return true
		}
	}
	return false
}

// listErr: the list gives a nil error only when it is empty.
func (c *errCheck) listErr(f *ssa.Function) {
	i := errResult(f.Signature)
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if !c.nilOnlyEmpty(f, b, r.Results[i]) {
			c.rep.add("listerr:"+fkey(f), fmt.Sprintf("%s gives no error for a list that is not empty (%s)", fnName(f), c.P.instrPos(r)))
		}
	}
}

func (c *errCheck) nilOnlyEmpty(f *ssa.Function, b *ssa.BasicBlock, v ssa.Value) bool {
	if ph, ok := v.(*ssa.Phi); ok {
		for k, e := range ph.Edges {
			if isNilConst(e) && !emptyOnEdge(ph.Block().Preds[k], ph.Block()) && !c.nilOnlyEmpty(f, ph.Block().Preds[k], e) {
				return false
			}
		}
		return true
	}
	if !isNilConst(v) {
		_, ok := v.(*ssa.MakeInterface)
		return ok
	}
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		if len(d.Preds) == 1 && emptyOnEdge(d.Preds[0], d) {
			return true
		}
	}
	return false
}

// emptyOnEdge: on the edge the length of something is known to be 0.
func emptyOnEdge(p, d *ssa.BasicBlock) bool {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, isTrue := iff.Cond, p.Succs[0] == d
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if _, isC := x.(*ssa.Const); isC {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := constInt(y)
	if !ok {
		return false
	}
	cl, ok := x.(*ssa.Call)
	if !ok {
		return false
	}
	bi, isLen := cl.Call.Value.(*ssa.Builtin)
	if !(isLen && bi.Name() == "len") && !(cl.Call.StaticCallee() != nil && cl.Call.StaticCallee().Name() == "Len") {
		return false
	}
	switch {
	case op == token.EQL && k == 0, op == token.LSS && k == 1, op == token.LEQ && k == 0:
		return isTrue
	case op == token.NEQ && k == 0, op == token.GTR && k == 0, op == token.GEQ && k == 1:
		return !isTrue
	}
	return false
}

// parserOwner: a function that makes a parser returns the parser's errors.
func (c *errCheck) parserOwner(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			st, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			fi := -1
			for i := 0; i < st.NumFields(); i++ {
				if isErrorList(st.Field(i).Type()) {
					fi = i
				}
			}
			if fi < 0 || isErrorList(a.Type()) {
				continue
			}
			if !c.ownsErrors(f, a, fi) {
				c.rep.add("parser:"+fkey(f), fmt.Sprintf("%s makes a parser but can return without the errors the parser collected (%s)", fnName(f), c.P.instrPos(in)))
			}
		}
	}
}

func (c *errCheck) ownsErrors(f *ssa.Function, a ssa.Value, fi int) bool {
	ei := errResult(f.Signature)
	if ei < 0 {
		return false
	}
	// Err() called on the field, here or in a deferred closure
	errCall := func(g *ssa.Function, base ssa.Value) *ssa.Call {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				h := cl.Call.StaticCallee()
				if h == nil || h.Signature.Recv() == nil || !isErrorList(h.Signature.Recv().Type()) || errResult(h.Signature) < 0 {
					continue
				}
				v := cl.Call.Args[0]
				if u, ok := v.(*ssa.UnOp); ok {
					v = u.X
				}
				if fa, ok := v.(*ssa.FieldAddr); ok && fa.Field == fi && fa.X == base {
					return cl
				}
			}
		}
		return nil
	}
	if cl := errCall(f, a); cl != nil {
		// every return after the parser was made returns the call's result
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !reaches(a.(ssa.Instruction), r) && a.(ssa.Instruction).Block() != b {
				continue
			}
			if r.Results[ei] == ssa.Value(cl) {
				continue
			}
			st := &errState{nn: map[ssa.Value]bool{}, defs: map[*ssa.Defer]bool{}}
			if !c.nonNil(r.Results[ei], st, 0) && !guardedNonNil(b, r.Results[ei]) && !guardedNil(b, cl) {
				return false
			}
		}
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			g := mc.Fn.(*ssa.Function)
			for i, bd := range mc.Bindings {
				if bd != a {
					continue
				}
				cl := errCall(g, g.FreeVars[i])
				if cl == nil {
					continue
				}
				// stored into the cell the results are read from
				for _, r := range *cl.Referrers() {
					s, ok := r.(*ssa.Store)
					if !ok {
						continue
					}
					fv, ok := s.Addr.(*ssa.FreeVar)
					if !ok {
						continue
					}
					var cell ssa.Value
					for j, v := range g.FreeVars {
						if v == fv {
							cell = mc.Bindings[j]
						}
					}
					all := true
					for _, gb := range g.Blocks {
						if gr, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok && !dominatedBy(gr, []ssa.Instruction{s}) && !retFromRecover(gb) {
							all = false
						}
						for _, gi := range gb.Instrs {
							if s2, ok := gi.(*ssa.Store); ok && s2 != s && s2.Addr == ssa.Value(fv) && reaches(s, s2) {
								all = false
							}
						}
					}
					// every return of f after the defer reads the cell
					for _, fb := range f.Blocks {
						fr, ok := fb.Instrs[len(fb.Instrs)-1].(*ssa.Return)
						if !ok || !reaches(d, fr) && d.Block() != fb {
							continue
						}
						u, ok := fr.Results[ei].(*ssa.UnOp)
						if !ok || u.X != cell {
							all = false
						}
					}
					// the parser is not used before the defer is in place
					for _, r2 := range *a.Referrers() {
						if ci, ok := r2.(*ssa.Call); ok && !dominatedBy(ci, []ssa.Instruction{d}) {
							all = false
						}
					}
					if all {
						return true
					}
				}
			}
		}
	}
	return false
}

func retFromRecover(b *ssa.BasicBlock) bool { return b.Comment == "recover" }

// guardedNonNil: the block is only reached when v is not nil.
func guardedNonNil(b *ssa.BasicBlock, v ssa.Value) bool { return guarded(b, v, false) }
func guardedNil(b *ssa.BasicBlock, v ssa.Value) bool    { return guarded(b, v, true) }

func guarded(b *ssa.BasicBlock, v ssa.Value, wantNil bool) bool {
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		id := d.Idom()
		if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && len(d.Preds) == 1 {
			if t, nilOnTrue, ok := nilTest(iff.Cond); ok && t == v && ((id.Succs[0] == d) == nilOnTrue) == wantNil {
				return true
			}
		}
	}
	return false
}

// mainReturns: main ends normally only after a build without error, or to show the version.
func (c *errCheck) mainReturns() {
	f := c.F.Main
	seen := map[string]bool{}
	var walk func(b *ssa.BasicBlock, i int, why bool)
	walk = func(b *ssa.BasicBlock, i int, why bool) {
		k := fmt.Sprint(b.Index, why)
		if i == 0 {
			if seen[k] {
				return
			}
			seen[k] = true
		}
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Call:
				if c.ends(&x.Call) {
					return
				}
				if g := x.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && c.runsBuild(g, map[*ssa.Function]bool{}) {
					why = true // its error is followed like any other
				}
			case *ssa.Return:
				if !why {
					c.rep.add("main", fmt.Sprintf("main can end with a success status although nothing was generated (%s)", c.P.instrPos(x)))
				}
				return
			case *ssa.If:
				cond, t := x.Cond, 0
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
					cond, t = u.X, 1
				}
				if c.isBoolFlag(cond) {
					walk(b.Succs[t], 0, true)
					walk(b.Succs[1-t], 0, why)
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(s, 0, why)
		}
	}
	walk(f.Blocks[0], 0, false)
}

func (c *errCheck) isBoolFlag(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	src := u.X
	if l, ok := src.(*ssa.UnOp); ok {
		for _, s := range cellStores(l.X) {
			src = s.Val
		}
	}
	if cl, ok := src.(*ssa.Call); ok {
		return callName(&cl.Call) == "flag.Bool"
	}
	for _, r := range *src.Referrers() {
		if cl, ok := r.(*ssa.Call); ok && callName(&cl.Call) == "flag.BoolVar" {
			return true
		}
	}
	return false
}

// runsBuild: the function always runs one of the registered generators: it is
// build.Build, or a function that calls it.
func (c *errCheck) runsBuild(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	if g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/pkg/build" && g.Name() == "Build" {
		return true
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok {
				if h := cl.Call.StaticCallee(); h != nil && len(h.Blocks) > 0 && c.runsBuild(h, seen) {
					return true
				}
			}
		}
	}
	return false
}
