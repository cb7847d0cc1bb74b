package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P01", "Every function reachable from the command (call graph by variable-type analysis, plus callbacks handed to library functions) is searched for what can differ between two runs on the same input. Each range over a map must be order-insensitive: its body may only fill maps at the loop key, set constants, count, or collect into a slice that is sorted by a total order before any other use (also when the collecting function returns the slice), and nothing chosen by the order may leave the loop. Time, randomness, environment, process identity, addresses, goroutines, selects and unsorted directory listings must not be used at all.", runOrder)
}

type orderCheck struct {
	F    *Flow
	rep  *Report
	eff  map[*ssa.Function]bool
	unor map[*ssa.Function]string // functions that return a slice in map order
	done map[ssa.Value]bool
	nCol int
}

func runOrder(P *Program, rep *Report, cov Coverage, tier string) {
	F := newFlow(P)
	if F.Main == nil {
		rep.undecide("the command's main function was not found")
		return
	}
	o := &orderCheck{F: F, rep: rep, eff: effectFuncs(P), unor: map[*ssa.Function]string{}, done: map[ssa.Value]bool{}}
	nRange, nCall := 0, 0
	for _, f := range F.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					if x.IsString {
						continue
					}
					nRange++
					o.mapLoop(f, x)
				case *ssa.Go:
					rep.add("go:"+fkey(f), fmt.Sprintf("%s starts a goroutine (%s): the order of its effects is not determined", fnName(f), P.instrPos(in)))
				case *ssa.Select:
					rep.add("select:"+fkey(f), fmt.Sprintf("%s selects between channels (%s)", fnName(f), P.instrPos(in)))
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						rep.add("addr:"+fkey(f), fmt.Sprintf("%s turns an address into a number (%s)", fnName(f), P.instrPos(in)))
					}
				case ssa.CallInstruction:
					nCall++
					o.call(f, x)
				}
			}
		}
	}
	// functions that return an unordered slice: every caller has to sort it
	for again := true; again; {
		again = false
		for _, f := range F.Fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, g := range F.callees(ci) {
						if why := o.unordered(g); why != "" {
							if v, ok := in.(ssa.Value); ok && !o.done[v] {
								o.done[v] = true
								again = true
								o.collected(f, []ssa.Value{v}, nil, why)
							}
						}
					}
				}
			}
		}
	}
	cov["functions_analysed"] = len(F.Fns)
	cov["map_ranges"] = nRange
	cov["calls_checked"] = nCall
	cov["unordered_slices_followed"] = o.nCol
	cov["explanation"] = "every reachable map range and call"
	if nRange < 3 || len(F.Fns) < 200 {
		rep.undecide(fmt.Sprintf("only %d functions and %d map ranges are reachable from main", len(F.Fns), nRange))
	}
}

func (o *orderCheck) unordered(g *ssa.Function) string {
	if w := o.unor[g]; w != "" {
		return w
	}
	if or := g.Origin(); or != nil {
		return o.unor[or]
	}
	return ""
}

var nondet = []string{
	"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.Sleep", "time.Local", "time.LoadLocation",
	"math/rand", "math/rand/v2", "crypto/rand", "hash/maphash",
	"os.Getpid", "os.Getppid", "os.Getuid", "os.Geteuid", "os.Getgid", "os.Hostname", "os.Environ", "os.Getenv", "os.LookupEnv", "os.ExpandEnv", "os.Expand", "os.UserHomeDir", "os.UserCacheDir", "os.UserConfigDir", "os.TempDir", "os.MkdirTemp", "os.CreateTemp", "io/ioutil.TempFile", "io/ioutil.TempDir", "os.Executable",
	"(*os.File).Readdir", "(*os.File).Readdirnames", "(*os.File).ReadDir",
	"runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.Caller", "runtime.Callers", "runtime.Stack", "runtime.ReadMemStats", "runtime/debug",
	"(*sync.Map).Range", "(*sync.Pool).Get", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "os/user", "os/exec", "net", "net/http", "(io/fs.FileInfo).ModTime", "(os.FileInfo).ModTime",
}

func (o *orderCheck) call(f *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	n := callName(cc)
	at := o.F.P.instrPos(ci.(ssa.Instruction))
	for _, p := range nondet {
		if n == p || strings.HasPrefix(n, p+".") && !strings.Contains(p, ".") || strings.Contains(p, "/") && strings.HasPrefix(n, p+".") || strings.Contains(p, "/") && strings.HasPrefix(n, "(*"+p+".") {
			o.rep.add("source:"+fkey(f)+":"+n, fmt.Sprintf("%s calls %s (%s), whose result differs from run to run", fnName(f), n, at))
			return
		}
	}
	if strings.HasSuffix(n, ".ModTime") && cc.IsInvoke() {
		o.rep.add("source:"+fkey(f)+":"+n, fmt.Sprintf("%s uses the modification time of a file (%s)", fnName(f), at))
	}
	switch n {
	case "builtin.print", "builtin.println":
		for _, a := range cc.Args {
			switch a.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
				o.rep.add("addr:"+fkey(f), fmt.Sprintf("%s prints an address (%s)", fnName(f), at))
			}
		}
	case "maps.Keys", "maps.Values", "maps.All":
		v, ok := ci.(ssa.Value)
		if !ok {
			return
		}
		for _, r := range *v.Referrers() {
			c, ok := r.(ssa.CallInstruction)
			if !ok {
				o.rep.add("iter:"+fkey(f), fmt.Sprintf("%s goes over a map through %s in no fixed order (%s)", fnName(f), n, at))
				continue
			}
			switch callName(c.Common()) {
			case "slices.Sorted":
			case "slices.Collect":
				if v, ok := c.(ssa.Value); ok {
					o.collected(f, []ssa.Value{v}, nil, "collected from "+n)
				}
			case "maps.Collect", "maps.Insert":
			default:
				o.rep.add("iter:"+fkey(f), fmt.Sprintf("%s goes over a map through %s in no fixed order (%s)", fnName(f), n, at))
			}
		}
	}
	if strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "log.") {
		for _, a := range cc.Args {
			if s, ok := constString(a); ok && strings.Contains(s, "%p") {
				o.rep.add("addr:"+fkey(f), fmt.Sprintf("%s formats an address (%s)", fnName(f), at))
			}
		}
	}
}

// mapLoop checks one range over a map.
func (o *orderCheck) mapLoop(f *ssa.Function, nx *ssa.Next) {
	P := o.F.P
	hdr := nx.Block()
	body := naturalLoops(f)[hdr]
	if body == nil {
		// the body always leaves: a choice by order if anything of it is used
		body = map[*ssa.BasicBlock]bool{hdr: true}
	}
	bad := func(in ssa.Instruction, why string) {
		o.rep.add("maprange:"+fkey(f)+":"+why, fmt.Sprintf("%s: the range over a map at %s depends on its order: %s (%s)", fnName(f), P.instrPos(nx), why, P.instrPos(in)))
	}
	inside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && body[in.Block()]
	}
	var key, val ssa.Value
	for _, r := range *nx.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				key = e
			case 2:
				val = e
			}
		}
	}
	_ = val
	early := false
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] && b != hdr && !(len(s.Instrs) > 0 && isPanic(s)) {
				early = true
			}
		}
	}
	// the blocks an early exit runs through before it joins others or returns
	isKey := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			}
			return v == key
		}
	}
	counters := map[ssa.Value]bool{}
	acc := map[*ssa.Phi]bool{}
	for _, in := range hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		kind := ""
		if _, isSlice := ph.Type().Underlying().(*types.Slice); isSlice {
			kind = "append"
			if !o.appendChain(ph, ph, body, map[ssa.Value]bool{}) {
				kind = ""
			}
		}
		if kind == "" && o.commutes(ph, ph, body, inside, map[ssa.Value]bool{}) {
			kind = "count"
		}
		switch kind {
		case "append":
			acc[ph] = true
		case "count":
			counters[ph] = true
		default:
			bad(ph, "a value is carried from one element to the next ("+ph.Comment+")")
		}
	}
	var cols []ssa.Value
	var colAt ssa.Instruction
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if inside(x.Map) && freshIn(x.Map, body) {
					continue
				}
				_, cst := x.Value.(*ssa.Const)
				if !isKey(x.Key) && !(cst || !inside(x.Value) || isEmptyStruct(x.Value.Type())) {
					bad(in, "a map is filled at keys that may repeat")
				}
				if early {
					bad(in, "the loop can stop early after it changed a map")
				}
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if ok && inside(ia.X) && freshIn(ia.X, body) {
					continue
				}
				if ok && (counters[ia.Index] || isCounterStep(ia.Index, counters)) {
					cols = append(cols, rootSlice(ia.X))
					colAt = in
					if early {
						bad(in, "the loop can stop early with a part of the elements")
					}
					continue
				}
				if !freshIn(x.Addr, body) {
					bad(in, "memory that outlives the element is written")
				}
			case *ssa.Send:
				bad(in, "a value is sent")
			case *ssa.Defer:
				bad(in, "a call is deferred")
			case *ssa.Return:
				for _, v := range x.Results {
					if inside(v) {
						bad(in, "the result is taken from whichever element comes first")
					}
				}
			case *ssa.Call:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "append", "delete", "min", "max", "panic", "copy", "real", "imag", "recover":
						if bi.Name() == "copy" {
							bad(in, "memory is copied")
						}
					default:
						bad(in, "it runs "+bi.Name())
					}
					continue
				}
				cs := o.F.callees(x)
				if len(cs) == 0 {
					bad(in, "it calls something unknown")
				}
				for _, g := range cs {
					if len(g.Blocks) == 0 {
						if !pureExt(callName(cc)) {
							bad(in, "it calls "+callName(cc))
						}
					} else if o.eff[g] || hasIO(o, g, map[*ssa.Function]bool{}) {
						bad(in, "it calls "+fnName(g)+", which has effects")
					}
				}
			}
			// values of the body used after it
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if ph, ok := v.(*ssa.Phi); ok && b == hdr {
				if acc[ph] || counters[ph] {
					if early && acc[ph] {
						bad(in, "the loop can stop early with a part of the elements")
					}
					continue
				}
				continue
			}
			if v == ssa.Value(nx) {
				continue
			}
			if isAppendOf(v, acc) {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() == nil || body[r.Block()] {
					continue
				}
				if _, isRet := r.(*ssa.Return); isRet {
					bad(r, "the result is taken from whichever element comes first")
					continue
				}
				if st, ok := o.commuteExit(r, v, counters); ok && st {
					continue
				}
				bad(r, "a value chosen by the order is used after the loop")
			}
		}
	}
	for ph := range acc {
		o.collected(f, []ssa.Value{ph}, body, "collected from the map ranged over at "+P.instrPos(nx))
	}
	if len(cols) > 0 {
		_ = colAt
		o.collected(f, cols, body, "collected from the map ranged over at "+P.instrPos(nx))
	}
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func isPanic(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// commuteExit: a counter or flag of the loop leaving it.
func (o *orderCheck) commuteExit(r ssa.Instruction, v ssa.Value, counters map[ssa.Value]bool) (bool, bool) {
	ph, ok := r.(*ssa.Phi)
	if !ok {
		return false, false
	}
	for _, e := range ph.Edges {
		if counters[e] || e == v && isCounterStep(v, counters) {
			continue
		}
		if _, c := e.(*ssa.Const); !c {
			return false, false
		}
	}
	return true, true
}

func isCounterStep(v ssa.Value, counters map[ssa.Value]bool) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && (counters[b.X] || counters[b.Y])
}

// freshIn: memory allocated by the body itself, anew for each element.
func freshIn(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return body[x.Block()]
		case *ssa.MakeMap:
			return body[x.Block()]
		case *ssa.MakeSlice:
			return body[x.Block()]
		default:
			return false
		}
	}
}

func rootSlice(v ssa.Value) ssa.Value {
	for {
		if s, ok := v.(*ssa.Slice); ok {
			v = s.X
			continue
		}
		return v
	}
}

// appendChain: every way round the loop leaves ph as it is or appends to it.
func (o *orderCheck) appendChain(v ssa.Value, ph *ssa.Phi, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if !body[x.Block()] {
			return false
		}
		for i, e := range x.Edges {
			if x == ph && !body[x.Block().Preds[i]] {
				continue
			}
			if !o.appendChain(e, ph, body, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return o.appendChain(x.Call.Args[0], ph, body, seen)
		}
	}
	return false
}

func isAppendOf(v ssa.Value, acc map[*ssa.Phi]bool) bool {
	c, ok := v.(*ssa.Call)
	if ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return true
		}
	}
	if p, ok := v.(*ssa.Phi); ok {
		if _, sl := p.Type().Underlying().(*types.Slice); sl && len(acc) > 0 {
			return true
		}
	}
	return false
}

// commutes: ph only counts, adds up integers or is set to one constant.
func (o *orderCheck) commutes(v ssa.Value, ph *ssa.Phi, body map[*ssa.BasicBlock]bool, inside func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	var consts []constant.Value
	var walk func(v ssa.Value) bool
	adds := false
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !body[x.Block()] {
				return true
			}
			for i, e := range x.Edges {
				if x == ph && !body[x.Block().Preds[i]] {
					continue
				}
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.Const:
			if x.Value == nil {
				return false
			}
			consts = append(consts, x.Value)
			return true
		case *ssa.BinOp:
			if (x.Op == token.ADD || x.Op == token.OR) && isIntT(x.Type()) {
				if dependsOn(x.X, ph, body) && !dependsOn(x.Y, ph, body) {
					adds = true
					return walk(x.X)
				}
				if dependsOn(x.Y, ph, body) && !dependsOn(x.X, ph, body) {
					adds = true
					return walk(x.Y)
				}
			}
			return false
		}
		return !inside(v)
	}
	if !walk(v) {
		return false
	}
	if adds && len(consts) > 0 {
		return false
	}
	for i := 1; i < len(consts); i++ {
		if !constant.Compare(consts[0], token.EQL, consts[i]) {
			return false
		}
	}
	return true
}

func dependsOn(v ssa.Value, ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(ph) {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] || !body[in.Block()] {
			return false
		}
		seen[v] = true
		for _, op := range in.Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

func pureExt(n string) bool {
	return hasAnyPrefix(n, "strings.", "strconv.", "unicode.", "unicode/utf8.", "path.", "path/filepath.Join", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Clean", "path/filepath.Split", "fmt.Sprint", "fmt.Errorf", "errors.New", "bytes.Equal", "bytes.Compare", "cmp.", "math.", "(*regexp.Regexp).", "regexp.MustCompile", "(*strings.Builder).String", "(*strings.Builder).Len", "slices.Contains", "slices.Index", "reflect.TypeOf", "(error).Error")
}

// hasIO: the function writes outside the program.
func hasIO(o *orderCheck, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n := callName(ci.Common())
			if hasAnyPrefix(n, "os.", "(*os.", "fmt.Print", "fmt.Fprint", "log.", "io.", "builtin.print", "(*bufio.") {
				return true
			}
			for _, c := range o.F.callees(ci) {
				if len(c.Blocks) > 0 && hasIO(o, c, seen) {
					return true
				}
			}
		}
	}
	return false
}

// collected follows a slice whose order is that of a map: it has to be sorted
// before anything else is done with it.
func (o *orderCheck) collected(f *ssa.Function, vs []ssa.Value, body map[*ssa.BasicBlock]bool, why string) {
	o.nCol++
	web := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if !web[v] {
			web[v] = true
			work = append(work, v)
		}
	}
	for _, v := range vs {
		add(v)
	}
	type use struct {
		in ssa.Instruction
		v  ssa.Value
	}
	var uses []use
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			if p, ok := v.(*ssa.Parameter); ok {
				o.rep.add("unsorted:"+fkey(f), fmt.Sprintf("%s fills its argument %s in the order of a map (%s)", fnName(f), p.Name(), why))
			}
			continue
		}
		if _, ok := v.(*ssa.Parameter); ok {
			o.rep.add("unsorted:"+fkey(f), fmt.Sprintf("%s fills its argument in the order of a map (%s)", fnName(f), why))
			continue
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				add(x)
				continue
			case *ssa.Extract:
				if _, sl := x.Type().Underlying().(*types.Slice); sl {
					add(x)
				}
				continue
			case *ssa.MakeInterface:
				add(x)
				continue
			case *ssa.ChangeType:
				add(x)
				continue
			case *ssa.Convert:
				add(x)
				continue
			case *ssa.Slice:
				add(x)
				continue
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v {
					add(x)
					continue
				}
			case *ssa.DebugRef:
				continue
			}
			if body != nil && body[r.Block()] {
				if ia, ok := r.(*ssa.IndexAddr); ok && onlyStored(ia) {
					continue
				}
			}
			uses = append(uses, use{r, v})
		}
	}
	var sorts []ssa.Instruction
	for _, u := range uses {
		if ci, ok := u.in.(ssa.CallInstruction); ok && o.sorts(ci, u.v) {
			sorts = append(sorts, u.in)
		}
	}
	for _, u := range uses {
		switch x := u.in.(type) {
		case *ssa.Return:
			if dominatedBy(u.in, sorts) {
				continue
			}
			o.unor[f] = "returned by " + fnName(f) + " in the order of a map"
			continue
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			isSort := false
			for _, s := range sorts {
				isSort = isSort || s == u.in
			}
			if isSort {
				continue
			}
		}
		if !dominatedBy(u.in, sorts) {
			o.rep.add("unsorted:"+fkey(f)+":"+types.TypeString(u.v.Type(), nil), fmt.Sprintf("%s uses a list in the order of a map (%s) at %s: it was %s and is not sorted there", fnName(f), u.v.Name(), o.F.P.instrPos(u.in), why))
		}
	}
}

func onlyStored(ia *ssa.IndexAddr) bool {
	for _, r := range *ia.Referrers() {
		if s, ok := r.(*ssa.Store); !ok || s.Addr != ssa.Value(ia) {
			return false
		}
	}
	return true
}

func dominatedBy(in ssa.Instruction, ds []ssa.Instruction) bool {
	for _, d := range ds {
		if d.Block() == in.Block() {
			if instrBefore(d, in) {
				return true
			}
		} else if d.Block().Dominates(in.Block()) {
			return true
		}
	}
	return false
}

// sorts tells whether the call puts v into an order that only its elements determine.
func (o *orderCheck) sorts(ci ssa.CallInstruction, v ssa.Value) bool {
	cc := ci.Common()
	switch n := callName(cc); n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return cc.Args[0] == v
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		if cc.Args[0] != v {
			return false
		}
		less := funcOf(cc.Args[1])
		return less != nil && comparesElements(less)
	case "sort.Sort", "sort.Stable":
		if cc.Args[0] != v {
			return false
		}
		if mi, ok := v.(*ssa.MakeInterface); ok {
			switch types.TypeString(mi.X.Type(), nil) {
			case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
				return true
			}
		}
		return false
	}
	g := cc.StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return false
	}
	for i, a := range cc.Args {
		if a != v || i >= len(g.Params) {
			continue
		}
		p := g.Params[i]
		for _, r := range *p.Referrers() {
			c2, ok := r.(ssa.CallInstruction)
			if !ok || !o.sorts(c2, p) {
				continue
			}
			all := true
			for _, b := range g.Blocks {
				if _, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && r.Block() != b && !r.Block().Dominates(b) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// comparesElements: the order function compares whole basic elements, at least as tie-breaker.
func comparesElements(less *ssa.Function) bool {
	elem := func(v ssa.Value) bool {
		if len(less.Params) == 2 && (v == ssa.Value(less.Params[0]) || v == ssa.Value(less.Params[1])) {
			_, ok := v.Type().Underlying().(*types.Basic)
			return ok && !isIntT(v.Type()) || ok && less.Signature.Results().Len() == 1 && isIntT(less.Signature.Results().At(0).Type())
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		if _, basic := u.Type().Underlying().(*types.Basic); !basic {
			return false
		}
		return len(less.Params) == 2 && (ia.Index == ssa.Value(less.Params[0]) || ia.Index == ssa.Value(less.Params[1]))
	}
	for _, b := range less.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if (x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ) && elem(x.X) && elem(x.Y) && !sameExpr(x.X, x.Y) {
					return true
				}
			case *ssa.Call:
				switch callName(&x.Call) {
				case "strings.Compare", "cmp.Compare", "cmp.Less":
					if elem(x.Call.Args[0]) && elem(x.Call.Args[1]) && x.Call.Args[0] != x.Call.Args[1] {
						return true
					}
				}
			}
		}
	}
	return false
}
