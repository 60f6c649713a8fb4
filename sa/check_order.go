package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Order: what comes out of the loops over maps, whose order is arbitrary, must not show. A slice that such a
// loop fills has to be sorted before anything looks at it; anything else that the loop does has to be the same
// in every order.

type orderFinding struct {
	construct, why string
	pos            token.Pos
	path           []string
}

type orderScan struct {
	p       *Program
	bad     []orderFinding
	loops   int
	slices  int
	sorts   int
	unknown []string
	seen    map[string]bool
	mut     map[*ssa.Function]map[int]bool
}

// sortCall reports whether a call sorts a slice, and which argument it is.
func sortCall(c *ssa.CallCommon) (int, bool) {
	f := c.StaticCallee()
	if f == nil {
		return 0, false
	}
	switch extName(f) {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Sort", "sort.Stable", "slices.Sort", "sort.Strings", "sort.Ints":
		return 0, true
	}
	return 0, false
}

// under strips what only changes the type of a value.
func under(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.MakeInterface:
			v = a.X
		case *ssa.ChangeType:
			v = a.X
		case *ssa.ChangeInterface:
			v = a.X
		case *ssa.Convert:
			v = a.X
		default:
			return v
		}
	}
}

// place names where a slice is kept: a local variable that is captured, or a field.
func place(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return cellName(u.X)
	}
	return ""
}

func cellName(a ssa.Value) string {
	switch c := a.(type) {
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return fmt.Sprintf("%s.%s", fnOf(a), a.Name())
	case *ssa.FieldAddr:
		return c.X.Type().String() + "." + fieldName(c.X.Type(), c.Field)
	}
	return ""
}

func fnOf(v ssa.Value) string {
	if v.Parent() != nil {
		return v.Parent().String()
	}
	return ""
}

// holdsSlice says whether sorting x sorts the slice m: x is m, or something made of it.
func (o *orderScan) holdsSlice(x, m ssa.Value, depth int) bool {
	x, m = under(x), under(m)
	if x == m {
		return true
	}
	if pl := place(m); pl != "" && pl == place(x) {
		return true
	}
	if depth == 0 {
		return false
	}
	switch a := x.(type) {
	case *ssa.Slice:
		return a.Low == nil && a.High == nil && o.holdsSlice(a.X, m, depth-1)
	case *ssa.Alloc: // &byName{entries: m}
		for _, r := range *a.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr == a && o.holdsSlice(u.Val, m, depth-1) {
					return true
				}
			case *ssa.FieldAddr:
				for _, r2 := range *u.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == u && o.holdsSlice(s.Val, m, depth-1) {
						return true
					}
				}
			}
		}
	case *ssa.UnOp:
		if a.Op == token.MUL {
			return o.holdsSlice(a.X, m, depth-1)
		}
	}
	return false
}

func dominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// sorters lists the instructions of a function that sort a slice, directly or in a helper.
func (o *orderScan) sorters(fn *ssa.Function, m ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if i, ok := sortCall(&c.Call); ok && i < len(c.Call.Args) {
				if o.holdsSlice(c.Call.Args[i], m, 3) {
					out = append(out, in)
				}
				continue
			}
			if f := c.Call.StaticCallee(); f != nil && inModule(f) && f.Blocks != nil && f != fn {
				for i, a := range c.Call.Args {
					if i < len(f.Params) && o.holdsSlice(a, m, 1) && o.sortsParam(f, i, 2) {
						out = append(out, in)
					}
				}
			}
		}
	}
	return out
}

func (o *orderScan) sortsParam(f *ssa.Function, i, depth int) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if k, ok := sortCall(&c.Call); ok && k < len(c.Call.Args) && o.holdsSlice(c.Call.Args[k], f.Params[i], 3) {
				return true
			}
			if g := c.Call.StaticCallee(); depth > 0 && g != nil && inModule(g) && g.Blocks != nil {
				for j, a := range c.Call.Args {
					if j < len(g.Params) && under(a) == f.Params[i] && o.sortsParam(g, j, depth-1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// unsorted follows a slice whose elements are in an arbitrary order: from is the instruction (or loop) that
// makes it.
func (o *orderScan) unsorted(fn *ssa.Function, v ssa.Value, l *espLoop, origin string, depth int) {
	key := fmt.Sprintf("%s/%s/%p", fn, v.Name(), v)
	if o.seen[key] || depth > 6 {
		return
	}
	o.seen[key] = true
	o.slices++
	// the values that are this slice
	class := map[ssa.Value]bool{}
	var members []ssa.Value
	var add func(m ssa.Value)
	add = func(m ssa.Value) {
		if m == nil || class[m] {
			return
		}
		class[m] = true
		members = append(members, m)
		if m.Referrers() == nil {
			return
		}
		for _, r := range *m.Referrers() {
			switch u := r.(type) {
			case *ssa.Phi:
				if _, ok := u.Type().Underlying().(*types.Slice); ok {
					add(u)
				}
			case *ssa.ChangeType:
				add(u)
			case *ssa.Slice:
				add(u)
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && u.Call.Args[0] == m {
					add(u)
				}
			case *ssa.Store:
				if u.Val != m {
					continue
				}
				pl := cellName(u.Addr)
				if pl == "" {
					continue
				}
				// the loads of this place in the same function
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL && cellName(ld.X) == pl {
							add(ld)
						}
					}
				}
			}
		}
	}
	add(v)
	isSort := map[ssa.Instruction]bool{}
	sortersOf := map[ssa.Value][]ssa.Instruction{}
	for _, m := range members {
		sortersOf[m] = o.sorters(fn, m)
		for _, s := range sortersOf[m] {
			isSort[s] = true
		}
	}
	var sortedAt func(m ssa.Value, at ssa.Instruction, busy map[ssa.Value]bool) bool
	sortedAt = func(m ssa.Value, at ssa.Instruction, busy map[ssa.Value]bool) bool {
		for _, s := range sortersOf[m] {
			if dominates(s, at) && (l == nil || !l.body[s.Block()]) {
				return true
			}
		}
		if busy[m] {
			return true
		}
		busy[m] = true
		defer delete(busy, m)
		// what it is made of was sorted, and nothing was added since
		switch a := m.(type) {
		case *ssa.Slice:
			return class[a.X] && sortedAt(a.X, a, busy)
		case *ssa.ChangeType:
			return class[a.X] && sortedAt(a.X, a, busy)
		case *ssa.Phi:
			if l != nil && l.body[a.Block()] {
				return false
			}
			any := false
			for i, e := range a.Edges {
				if !class[e] {
					continue
				}
				any = true
				pb := a.Block().Preds[i]
				if !sortedAt(e, pb.Instrs[len(pb.Instrs)-1], busy) {
					return false
				}
			}
			return any
		}
		return false
	}
	sorted := func(m ssa.Value, at ssa.Instruction) bool {
		if sortedAt(m, at, map[ssa.Value]bool{}) {
			o.sorts++
			return true
		}
		return false
	}
	for _, m := range members {
		if m.Referrers() == nil {
			continue
		}
		for _, r := range *m.Referrers() {
			if l != nil && l.body[r.Block()] && r.Parent() == fn {
				continue // the loop that fills it
			}
			if isSort[r] || onlyAddedTo(r, m) {
				continue
			}
			switch u := r.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.Slice, *ssa.DebugRef, *ssa.MakeClosure:
				continue
			case *ssa.MakeInterface, *ssa.ChangeInterface:
				if feedsSort(u.(ssa.Value)) {
					continue
				}
			case *ssa.Store:
				if cellName(u.Addr) != "" {
					if _, isField := u.Addr.(*ssa.FieldAddr); isField {
						if !sorted(m, r) {
							o.stored(fn, u, origin, depth)
						}
					}
					continue
				}
			case *ssa.BinOp:
				continue // compared with nil
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && len(u.Call.Args) == 2 && u.Call.Args[1] == m && !sorted(m, r) {
						o.unsorted(fn, u, nil, origin, depth+1)
					}
					continue // len, cap, append, copy
				}
				if sorted(m, r) {
					continue
				}
				f := u.Call.StaticCallee()
				if f != nil && inModule(f) && f.Blocks != nil {
					for i, a := range u.Call.Args {
						if a == m && i < len(f.Params) {
							o.unsorted(f, f.Params[i], nil, origin, depth+1)
						}
					}
					continue
				}
				if f != nil && orderFree[extName(f)] {
					continue
				}
				if f != nil && orderKeeps[extName(f)] {
					o.unsorted(fn, u, nil, origin, depth+1)
					continue
				}
				o.report(fn, u.Pos(), origin, "a slice in the order of the map is passed on before it is sorted")
			case *ssa.IndexAddr, *ssa.Index:
				if sorted(m, r) {
					continue
				}
				il := innermost(fn, r.Block())
				if il == nil {
					continue // some element
				}
				o.loop(fn, il, u.(ssa.Value), origin, depth+1)
			case *ssa.Return:
				if sorted(m, r) {
					continue
				}
				o.returned(fn, u, m, origin, depth)
			}
		}
	}
}

// onlyAddedTo: the slice is appended to.
func onlyAddedTo(r ssa.Instruction, m ssa.Value) bool {
	c, ok := r.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "append" && c.Call.Args[0] == m || b.Name() == "len" || b.Name() == "cap" || b.Name() == "clear")
}

func feedsSort(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if _, ok := sortCall(&c.Call); ok {
				return true
			}
		}
	}
	return false
}

var orderFree = map[string]bool{
	"slices.Contains": true, "slices.Max": true, "slices.Min": true, "slices.IsSorted": true, "slices.Sorted": true, "slices.SortedFunc": true,
}

var orderKeeps = map[string]bool{
	"slices.Clone": true, "slices.Grow": true, "slices.Clip": true, "slices.Values": true, "slices.Collect": true, "slices.Compact": true, "slices.Concat": true, "strings.Join": true,
}

func (o *orderScan) report(fn *ssa.Function, pos token.Pos, origin, why string) {
	o.bad = append(o.bad, orderFinding{construct: shortFn(fn), why: why, pos: pos, path: []string{"the order comes from " + origin}})
}

// returned follows a slice to the callers.
func (o *orderScan) returned(fn *ssa.Function, ret *ssa.Return, m ssa.Value, origin string, depth int) {
	idx := -1
	for i, v := range ret.Results {
		if v == m {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	callers := 0
	for _, g := range o.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != fn {
					continue
				}
				callers++
				if fn.Signature.Results().Len() == 1 {
					o.unsorted(g, c, nil, origin, depth+1)
					continue
				}
				for _, r := range *c.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == idx {
						o.unsorted(g, ex, nil, origin, depth+1)
					}
				}
			}
		}
	}
	if callers == 0 || fn.Object() != nil && fn.Object().Exported() {
		o.report(fn, ret.Pos(), origin, "the result is in the order of the map, without having been sorted")
	}
}

// stored follows a slice that is kept in a field.
func (o *orderScan) stored(fn *ssa.Function, st *ssa.Store, origin string, depth int) {
	pl := cellName(st.Addr)
	for _, g := range o.p.Funcs {
		if g == fn {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL && cellName(ld.X) == pl {
					if _, isField := ld.X.(*ssa.FieldAddr); isField {
						o.unsorted(g, ld, nil, origin, depth+1)
					}
				}
			}
		}
	}
}

func innermost(fn *ssa.Function, b *ssa.BasicBlock) *espLoop {
	var best *espLoop
	for _, l := range espLoops(fn) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// elementOf says whether a value is (part of) the element of the iteration, or made in it.
func (o *orderScan) elementOf(l *espLoop, elem ssa.Value, v ssa.Value, depth int) bool {
	if v == elem {
		return true
	}
	if depth == 0 {
		return false
	}
	switch a := v.(type) {
	case *ssa.Alloc:
		return l.body[a.Block()]
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
		return l.body[a.(ssa.Instruction).Block()]
	case *ssa.Extract:
		if nx, ok := a.Tuple.(*ssa.Next); ok {
			return l.body[nx.Block()] && a.Index > 0
		}
		if lk, ok := a.Tuple.(*ssa.Lookup); ok { // m[key]
			return o.elementOf(l, elem, lk.Index, depth-1)
		}
		return o.elementOf(l, elem, a.Tuple, depth-1)
	case *ssa.Lookup:
		return o.elementOf(l, elem, a.Index, depth-1)
	case *ssa.FieldAddr:
		return o.elementOf(l, elem, a.X, depth-1)
	case *ssa.Field:
		return o.elementOf(l, elem, a.X, depth-1)
	case *ssa.IndexAddr:
		return o.elementOf(l, elem, a.X, depth-1)
	case *ssa.UnOp:
		return o.elementOf(l, elem, a.X, depth-1)
	case *ssa.MakeInterface:
		return o.elementOf(l, elem, a.X, depth-1)
	case *ssa.ChangeType:
		return o.elementOf(l, elem, a.X, depth-1)
	case *ssa.TypeAssert:
		return o.elementOf(l, elem, a.X, depth-1)
	case *ssa.Slice:
		return o.elementOf(l, elem, a.X, depth-1)
	}
	return false
}

// writesOut are calls whose order shows.
func writesOut(c *ssa.CallCommon) (ssa.Value, bool) {
	if c.IsInvoke() {
		switch c.Method.Name() {
		case "Write", "WriteAt", "WriteString", "WriteByte", "WriteHeader", "ReadFrom", "Sum":
			return c.Value, true
		}
		return nil, false
	}
	f := c.StaticCallee()
	if f == nil || len(c.Args) == 0 {
		return nil, false
	}
	n := extName(f)
	switch n {
	case "io.WriteString", "io.Copy", "io.CopyN", "io.CopyBuffer", "encoding/binary.Write", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		return c.Args[0], true
	}
	if f.Signature.Recv() != nil && !inModule(f) {
		switch f.Name() {
		case "Write", "WriteAt", "WriteString", "WriteByte", "WriteHeader", "ReadFrom":
			return c.Args[0], true
		}
	}
	return nil, false
}

// mutates lists the parameters (-1: anything else) through which a function writes, other than into maps.
func (o *orderScan) mutates(fn *ssa.Function, depth int) map[int]bool {
	if m, ok := o.mut[fn]; ok {
		return m
	}
	out := map[int]bool{}
	o.mut[fn] = out
	param := func(v ssa.Value) (int, bool) { // ok: matters
		for {
			switch a := v.(type) {
			case *ssa.FieldAddr:
				v = a.X
				continue
			case *ssa.IndexAddr:
				v = a.X
				continue
			case *ssa.UnOp:
				v = a.X
				continue
			case *ssa.Slice:
				v = a.X
				continue
			case *ssa.MakeInterface:
				v = a.X
				continue
			case *ssa.ChangeType:
				v = a.X
				continue
			case *ssa.Parameter:
				for i, p := range fn.Params {
					if p == a {
						return i, true
					}
				}
			case *ssa.FreeVar, *ssa.Global:
				return -1, true
			}
			return 0, false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.Store:
				if i, ok := param(u.Addr); ok {
					out[i] = true
				}
			case *ssa.Call:
				if w, ok := writesOut(&u.Call); ok {
					if i, ok := param(w); ok {
						out[i] = true
					}
					continue
				}
				f := u.Call.StaticCallee()
				if f == nil || !inModule(f) || f.Blocks == nil || depth == 0 {
					continue
				}
				for j := range o.mutates(f, depth-1) {
					if j < 0 {
						out[-1] = true
					} else if j < len(u.Call.Args) {
						if i, ok := param(u.Call.Args[j]); ok {
							out[i] = true
						}
					}
				}
			}
		}
	}
	return out
}

// loop looks at a loop whose iterations come in an arbitrary order.
func (o *orderScan) loop(fn *ssa.Function, l *espLoop, elem ssa.Value, origin string, depth int) {
	key := fmt.Sprintf("loop %s/%d", fn, l.head.Index)
	if o.seen[key] {
		return
	}
	o.seen[key] = true
	o.loops++
	var blocks []*ssa.BasicBlock
	for b := range l.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.Call:
				if bi, ok := u.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && !o.elementOf(l, elem, u.Call.Args[0], 6) && carriedSlice(l, u) {
						o.unsorted(fn, u, l, origin, depth)
					}
					continue
				}
				if w, ok := writesOut(&u.Call); ok && !o.elementOf(l, elem, w, 6) {
					o.report(fn, u.Pos(), origin, "what is written comes in the order of the map")
					continue
				}
				f := u.Call.StaticCallee()
				if f == nil || !inModule(f) || f.Blocks == nil {
					continue
				}
				for j := range o.mutates(f, 3) {
					if j < 0 || j < len(u.Call.Args) && !o.elementOf(l, elem, u.Call.Args[j], 6) {
						o.report(fn, u.Pos(), origin, fmt.Sprintf("%s changes what other iterations see, in the order of the map", shortFn(f)))
						break
					}
				}
			case *ssa.Store:
				ia, ok := u.Addr.(*ssa.IndexAddr)
				if !ok || o.elementOf(l, elem, ia.X, 6) {
					continue
				}
				if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice {
					if _, isPhi := ia.Index.(*ssa.Phi); isPhi || inLoopValue(l, ia.Index) && !o.elementOf(l, elem, ia.Index, 4) {
						if ia.X != elem {
							o.unsorted(fn, ia.X, l, origin, depth)
						}
					}
				}
			}
		}
	}
}

func inLoopValue(l *espLoop, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Parent() == l.fn && l.body[in.Block()]
}

// carriedSlice: the slice that is appended to lives longer than an iteration.
func carriedSlice(l *espLoop, c *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch a := v.(type) {
		case *ssa.Phi:
			if a.Block() == l.head {
				return true
			}
			if !l.body[a.Block()] {
				return true
			}
			for _, e := range a.Edges {
				if walk(e) {
					return true
				}
			}
			return false
		case *ssa.Call:
			if b, ok := a.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return walk(a.Call.Args[0])
			}
			return !l.body[a.Block()]
		case *ssa.UnOp:
			if a.Op == token.MUL {
				if al, ok := a.X.(*ssa.Alloc); ok {
					return !l.body[al.Block()]
				}
				return true
			}
		case *ssa.Slice:
			return walk(a.X)
		case *ssa.Const:
			return false
		}
		return !inLoopValue(l, v)
	}
	return walk(c.Call.Args[0])
}

// scanOrder looks at every loop over a map in some packages.
func (p *Program) scanOrder(in func(fn *ssa.Function) bool) *orderScan {
	o := &orderScan{p: p, seen: map[string]bool{}, mut: map[*ssa.Function]map[int]bool{}}
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || !in(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch u := i.(type) {
				case *ssa.Next:
					rg, ok := u.Iter.(*ssa.Range)
					if !ok {
						continue
					}
					if _, isMap := rg.X.Type().Underlying().(*types.Map); !isMap {
						continue
					}
					for _, l := range espLoops(fn) {
						if l.head == u.Block() {
							o.loop(fn, l, u, "the loop over a map at "+p.at(rg.Pos()), 0)
						}
					}
				case *ssa.Call:
					f := u.Call.StaticCallee()
					if f == nil {
						continue
					}
					switch n := extName(f); {
					case n == "slices.Collect" && len(u.Call.Args) == 1:
						if g, ok := u.Call.Args[0].(*ssa.Call); ok && g.Call.StaticCallee() != nil && strings.HasPrefix(extName(g.Call.StaticCallee()), "maps.") {
							o.unsorted(fn, u, nil, "the elements of a map at "+p.at(u.Pos()), 0)
						}
					}
				}
			}
		}
	}
	return o
}

// volatileCalls are functions whose results differ from run to run.
func volatileCall(name string) bool {
	switch name {
	case "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getenv", "os.LookupEnv", "os.Environ", "os.Getwd", "os.Getuid", "os.Getgid", "os.Geteuid", "os.Getegid", "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "hash/maphash.MakeSeed", "os.TempDir":
		return true
	}
	return strings.HasPrefix(name, "math/rand") || strings.HasPrefix(name, "(*math/rand") || strings.HasPrefix(name, "crypto/rand.") || strings.HasPrefix(name, "(*hash/maphash")
}

func runW14(env *Env, r *Result) {
	env.each(func(p *Program) {
		in := func(fn *ssa.Function) bool { return true }
		o := p.scanOrder(in)
		r.Units["loops in the order of a map "+p.GOOS] = o.loops
		r.Units["slices in the order of a map "+p.GOOS] = o.slices
		seen := map[string]bool{}
		for _, b := range o.bad {
			c := fmt.Sprintf("%s (%s)", b.construct, p.GOOS)
			if seen[c+b.why] {
				continue
			}
			seen[c+b.why] = true
			r.bad("no result depends on the order of a map", c, p.at(b.pos), b.why, b.path...)
		}
		if len(o.bad) == 0 {
			for i := 0; i < o.loops; i++ {
				r.ok("no result depends on the order of a map", fmt.Sprintf("loop %d (%s)", i+1, p.GOOS), "")
			}
		}
		for _, fn := range p.Funcs {
			pk := strings.TrimPrefix(fnPkgPath(fn), modPath+"/")
			if pk != "arfs" && pk != "tarfs" && pk != "erofs" {
				continue
			}
			bad := false
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if g, ok := i.(*ssa.UnOp); ok && g.Op == token.MUL {
						if gl, ok := g.X.(*ssa.Global); ok && gl.Pkg != nil && gl.Pkg.Pkg.Path() == "crypto/rand" {
							r.bad("nothing depends on the moment", fmt.Sprintf("%s (%s)", shortFn(fn), p.GOOS), p.at(i.Pos()), "random numbers are used")
							bad = true
						}
					}
					c, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if f := c.Common().StaticCallee(); f != nil && volatileCall(extName(f)) {
						r.bad("nothing depends on the moment", fmt.Sprintf("%s (%s)", shortFn(fn), p.GOOS), p.at(i.Pos()), extName(f)+" gives another result each time")
						bad = true
					}
				}
			}
			if !bad {
				r.ok("nothing depends on the moment", fmt.Sprintf("%s (%s)", shortFn(fn), p.GOOS), p.at(fn.Pos()))
			}
		}
	})
	r.floor("nothing depends on the moment", 20)
}

func init() {
	register(&Check{ID: "W14", Level: "other", Rule: "Order taint: every loop over a map is looked at; a slice that it fills is followed (through helpers, fields and results) until a sort that dominates the use, and everything else it does must be the same in any order (maps filled by key, the element itself); " +
		"no function of the archive packages calls anything whose result differs from run to run.", Run: runW14})
}
