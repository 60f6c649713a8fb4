package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination: every loop of the library must have a measure that gets smaller on every way round and on
// which a branch of that way puts a lower bound, or consume something finite (the input, a map, the elements
// of a path, the entries of a set); every recursion must count its depth against a limit.

// loopPath is one way through the body of a loop, back to its head.
type loopPath struct {
	blocks []*ssa.BasicBlock
	conds  []pathCond
}

type pathCond struct {
	v    ssa.Value
	want bool
	at   int // index into blocks
}

const maxLoopPaths = 4000

// waysRound lists the ways through the body; inner loops are gone through at most once, ok is false if there
// are too many.
func waysRound(l *espLoop, all []*espLoop) (out []*loopPath, ok bool) {
	inner := map[*ssa.BasicBlock]*espLoop{}
	for _, o := range all {
		if o.head != l.head && l.body[o.head] {
			inner[o.head] = o
		}
	}
	ok = true
	var walk func(p *loopPath, b *ssa.BasicBlock)
	walk = func(p *loopPath, b *ssa.BasicBlock) {
		if len(out) > maxLoopPaths {
			ok = false
			return
		}
		n := &loopPath{append(append([]*ssa.BasicBlock(nil), p.blocks...), b), p.conds}
		for i, s := range b.Succs {
			q := &loopPath{n.blocks, n.conds}
			if in, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If); isIf {
				q.conds = append(append([]pathCond(nil), n.conds...), pathCond{in.Cond, i == 0, len(n.blocks) - 1})
			}
			if s == l.head {
				out = append(out, q)
				continue
			}
			if !l.body[s] {
				continue
			}
			seen := 0
			for _, o := range n.blocks {
				if o == s {
					seen++
				}
			}
			if seen > 0 && (inner[s] == nil || seen > 1) {
				continue
			}
			walk(q, s)
		}
	}
	walk(&loopPath{}, l.head)
	return out, ok
}

// loopEval computes values along a way through a loop.
type loopEval struct {
	p     *Program
	l     *espLoop
	inner map[*ssa.BasicBlock]bool
	path  *loopPath
	t     *Terms
	env   map[ssa.Value]*Tm
	mem   map[string]*Tm // integers in memory
	start map[string]*Tm // what was in memory at the head
	lost  int            // calls that may have changed memory
	head  map[string]bool
	body  map[string]bool
	calls []ssa.CallInstruction
	upd   []ssa.Instruction
	ncond []*tmCond
	rest  []pathCond // conditions that are no comparison of numbers
	maybe bool       // a call may consume input
	opq   bool       // a call may have changed what the loop works on
	pos   int
	cell  map[string]ssa.Value
}

func (e *loopEval) inBody(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && in.Parent() == e.l.fn && e.l.body[in.Block()]
}

func (e *loopEval) atom(name string, typ types.Type, head bool) *Tm {
	n, ok := ntypeOf(typ)
	if !ok {
		return nil
	}
	a := e.t.Atom(name, n, 0, 1)
	if head {
		e.head[name] = true
	} else {
		e.body[name] = true
	}
	return a
}

// addr names a place in memory whose base does not change in the loop.
func (e *loopEval) addr(v ssa.Value) (string, bool) {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		b, ok := e.addr(a.X)
		return b + "." + fieldName(a.X.Type(), a.Field), ok
	case *ssa.UnOp:
		if a.Op == token.MUL {
			b, ok := e.addr(a.X)
			return "*" + b, ok
		}
	case *ssa.Global:
		return a.String(), true
	case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar:
		if e.inBody(v) { // new every time
			return "new " + v.Name(), !e.nested(v.(*ssa.Alloc).Block())
		}
		return v.Name(), true
	}
	if !e.inBody(v) {
		return v.Name(), true
	}
	return "", false
}

func (e *loopEval) eval(v ssa.Value) *Tm {
	if c, ok := v.(*ssa.Const); ok {
		n, ok := ntypeOf(c.Type())
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return nil
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return e.t.Num(uint64(i), n)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return e.t.Num(u, n)
		}
		return nil
	}
	if x, ok := e.env[v]; ok {
		return x
	}
	if !e.inBody(v) {
		return e.atom(v.Name(), v.Type(), true)
	}
	return nil
}

// length is the length of a slice, string or map.
func (e *loopEval) length(v ssa.Value) *Tm {
	it := types.Typ[types.Int]
	switch a := v.(type) {
	case *ssa.Const:
		if a.Value != nil && a.Value.Kind() == constant.String {
			return e.t.Num(uint64(len(constant.StringVal(a.Value))), ntype{64, true})
		}
		return e.t.Num(0, ntype{64, true})
	case *ssa.Phi:
		if x, ok := e.env[v]; ok && x != nil {
			return x
		}
	}
	if x, ok := e.env[v]; ok && x != nil {
		return x
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if k, ok := e.addr(u.X); ok {
			k = "len *" + k
			if x, ok := e.mem[k]; ok {
				return x
			}
			x := e.atom(fmt.Sprintf("%s%s", k, strings.Repeat("'", e.lost)), it, e.lost == 0 && !strings.Contains(k, "new "))
			e.mem[k] = x
			if e.lost == 0 && !strings.Contains(k, "new ") {
				e.start[k] = x
			}
			return x
		}
	}
	return e.atom("len "+v.Name(), it, !e.inBody(v))
}

func hasLen(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func (e *loopEval) run() {
	for i, b := range e.path.blocks {
		e.pos = i
		for _, in := range b.Instrs {
			e.instr(in, i)
		}
		for _, c := range e.path.conds {
			if c.at == i {
				e.cond(c)
			}
		}
	}
}

func (e *loopEval) cond(c pathCond) {
	v := c.v
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, c.want = u.X, !c.want
	}
	if i, ok := v.(*ssa.BinOp); ok {
		a, b := e.eval(i.X), e.eval(i.Y)
		n, isNum := ntypeOf(i.X.Type())
		r, isRel := map[token.Token]int{token.EQL: 2, token.NEQ: 5, token.LSS: 1, token.LEQ: 3, token.GTR: 4, token.GEQ: 6}[i.Op]
		if isNum && isRel && a != nil && b != nil {
			if !c.want {
				r = 7 &^ r
			}
			if k := e.t.cond(a, b, r, n.signed); k != nil {
				e.ncond = append(e.ncond, k)
			}
			return
		}
	}
	e.rest = append(e.rest, pathCond{v, c.want, c.at})
}

func (e *loopEval) instr(in ssa.Instruction, at int) {
	switch i := in.(type) {
	case *ssa.Phi:
		b := i.Block()
		if b == e.l.head && at == 0 {
			if hasLen(i.Type()) {
				e.env[i] = e.atom("len "+i.Name(), types.Typ[types.Int], true)
			} else {
				e.env[i] = e.atom(i.Name(), i.Type(), true)
			}
			return
		}
		if e.inner[b] {
			nm := fmt.Sprintf("%s@%d", i.Name(), at)
			if hasLen(i.Type()) {
				e.env[i] = e.atom("len "+nm, types.Typ[types.Int], false)
			} else {
				e.env[i] = e.atom(nm, i.Type(), false)
			}
			// memory may have changed as well
			e.clobber()
			return
		}
		for k, p := range b.Preds {
			if at > 0 && p == e.path.blocks[at-1] {
				if hasLen(i.Type()) {
					e.env[i] = e.length(i.Edges[k])
				} else {
					e.env[i] = e.eval(i.Edges[k])
				}
			}
		}
	case *ssa.BinOp:
		op := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/", token.REM: "%", token.AND: "&", token.OR: "|", token.XOR: "^", token.AND_NOT: "&^", token.SHL: "<<", token.SHR: ">>"}[i.Op]
		a, b := e.eval(i.X), e.eval(i.Y)
		n, ok := ntypeOf(i.Type())
		if hasLen(i.Type()) && i.Op == token.ADD { // strings
			e.env[i] = e.t.Op("+", ntype{64, true}, e.length(i.X), e.length(i.Y))
			return
		}
		if op == "" || a == nil || b == nil || !ok {
			e.env[i] = e.atom(i.Name(), i.Type(), false)
			return
		}
		e.env[i] = e.t.Op(op, n, a, b)
	case *ssa.Convert:
		a := e.eval(i.X)
		n, ok := ntypeOf(i.Type())
		if _, num := ntypeOf(i.X.Type()); a != nil && ok && num {
			e.env[i] = e.t.Conv(a, n)
		} else if hasLen(i.Type()) && hasLen(i.X.Type()) {
			e.env[i] = e.length(i.X)
		} else {
			e.env[i] = e.atom(i.Name(), i.Type(), false)
		}
	case *ssa.ChangeType:
		if hasLen(i.Type()) {
			e.env[i] = e.length(i.X)
		} else {
			e.env[i] = e.eval(i.X)
		}
	case *ssa.Slice:
		if !hasLen(i.Type()) {
			return
		}
		it := ntype{64, true}
		hi := e.eval0(i.High)
		if hi == nil {
			if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
				hi = e.t.Num(uint64(p.Elem().Underlying().(*types.Array).Len()), it)
			} else {
				hi = e.length(i.X)
			}
		}
		lo := e.t.Num(0, it)
		if i.Low != nil {
			lo = e.eval(i.Low)
			if lo == nil {
				e.env[i] = e.atom("len "+i.Name(), types.Typ[types.Int], false)
				return
			}
			// else the operation panics
			if k := e.t.cond(lo, hi, 3, true); k != nil {
				e.ncond = append(e.ncond, k)
			}
		}
		e.env[i] = e.t.Op("-", it, hi, lo)
	case *ssa.UnOp:
		if i.Op != token.MUL {
			e.env[i] = e.atom(i.Name(), i.Type(), false)
			return
		}
		if hasLen(i.Type()) {
			e.env[i] = e.length(i)
			return
		}
		if _, ok := ntypeOf(i.Type()); !ok {
			return
		}
		if c := e.p.constOf(i); c != nil && c.IsInt64() {
			n, _ := ntypeOf(i.Type())
			e.env[i] = e.t.Num(n.wrap(uint64(c.Int64())), n)
			return
		}
		k, ok := e.addr(i.X)
		if !ok {
			e.env[i] = e.atom(i.Name(), i.Type(), false)
			return
		}
		x, ok := e.mem[k]
		if !ok {
			x = e.atom(fmt.Sprintf("*%s%s", k, strings.Repeat("'", e.lost)), i.Type(), e.lost == 0 && !strings.Contains(k, "new "))
			e.mem[k] = x
			if e.lost == 0 && !strings.Contains(k, "new ") {
				e.start[k] = x
			}
		}
		e.cell[k] = i.X
		e.env[i] = x
	case *ssa.Store:
		k, ok := e.addr(i.Addr)
		if !ok {
			return
		}
		if _, num := ntypeOf(i.Val.Type()); num {
			if _, ok := e.start[k]; !ok && e.lost == 0 && !strings.Contains(k, "new ") {
				e.start[k] = e.atom("*"+k, i.Val.Type(), true)
			}
			e.cell[k] = i.Addr
			if v := e.eval(i.Val); v != nil {
				e.mem[k] = v
			} else {
				e.mem[k] = e.atom(fmt.Sprintf("stored %s@%d", k, at), i.Val.Type(), false)
			}
		} else if hasLen(i.Val.Type()) {
			k = "len *" + k
			if _, ok := e.start[k]; !ok && e.lost == 0 && !strings.Contains(k, "new ") {
				e.start[k] = e.atom(k, types.Typ[types.Int], true)
			}
			e.mem[k] = e.length(i.Val)
		}
	case *ssa.MapUpdate:
		e.upd = append(e.upd, i)
	case *ssa.Call:
		e.calls = append(e.calls, i)
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				if hasLen(i.Call.Args[0].Type()) {
					e.env[i] = e.length(i.Call.Args[0])
					return
				}
				e.env[i] = e.atom("len "+i.Call.Args[0].Name(), i.Type(), !e.inBody(i.Call.Args[0]) && !updates(e.l, i.Call.Args[0]))
				return
			case "append":
				if hasLen(i.Type()) && len(i.Call.Args) == 2 {
					e.env[i] = e.t.Op("+", ntype{64, true}, e.length(i.Call.Args[0]), e.length(i.Call.Args[1]))
				}
				return
			case "min", "max":
				a, c := e.eval(i.Call.Args[0]), e.eval(i.Call.Args[1])
				if n, ok := ntypeOf(i.Type()); ok && a != nil && c != nil && len(i.Call.Args) == 2 {
					e.env[i] = e.t.mk(b.Name(), n, "", 0, a, c)
					return
				}
			}
		} else {
			e.clobber()
		}
		e.env[i] = e.atom(i.Name(), i.Type(), false)
		if f := i.Call.StaticCallee(); f != nil && (extName(f) == "bytes.Compare" || extName(f) == "strings.Compare" || strings.HasPrefix(extName(f), "cmp.Compare")) {
			for k, r := range map[uint64]int{1: 3, ^uint64(0): 6} {
				if c := e.t.cond(e.env[i], e.t.Num(k, ntype{64, true}), r, true); c != nil {
					e.ncond = append(e.ncond, c)
				}
			}
		}
	case ssa.Value:
		if _, ok := ntypeOf(i.Type()); ok {
			e.env[i] = e.atom(i.Name(), i.Type(), false)
		} else if hasLen(i.Type()) {
			e.env[i] = e.atom("len "+i.Name(), types.Typ[types.Int], false)
		}
	}
}

func (e *loopEval) eval0(v ssa.Value) *Tm {
	if v == nil {
		return nil
	}
	return e.eval(v)
}

// clobber forgets memory that others can change.
func (e *loopEval) clobber() {
	for k := range e.mem {
		if v := e.cell[k]; v != nil {
			if a, ok := v.(*ssa.Alloc); ok && (!escapes(a) || e.inBody(a) && storedOnce(a)) {
				continue
			}
		}
		if v := e.cell[k]; v != nil && e.p.setOnce(v) {
			continue
		}
		delete(e.mem, k)
	}
	e.lost++
}

// escapes reports whether the address of a local variable is used for anything but loads and stores.
func escapes(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if u.Val == a {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// setOnce reports whether an address is that of a field (of a struct of the library) which only the function
// that makes the struct sets.
func (p *Program) setOnce(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	typ := fa.X.Type().Underlying().(*types.Pointer).Elem()
	if n, ok := typ.(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	fresh := func(v ssa.Value) bool {
		_, ok := v.(*ssa.Alloc)
		return ok
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if f, ok := i.Addr.(*ssa.FieldAddr); ok && f.Field == fa.Field && types.Identical(f.X.Type(), fa.X.Type()) && !fresh(f.X) {
						return false
					}
					_, part := i.Addr.(*ssa.FieldAddr) // a struct that is put into another one
					if types.Identical(i.Val.Type(), typ) && !fresh(i.Addr) && !part {
						return false
					}
				case *ssa.FieldAddr:
					if i.Field != fa.Field || !types.Identical(i.X.Type(), fa.X.Type()) {
						continue
					}
					for _, r := range *i.Referrers() { // its address may be used to set it
						switch u := r.(type) {
						case *ssa.Store:
							if u.Val == i {
								return false
							}
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
						default:
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// storedOnce reports whether a variable is set in one place only, and otherwise just read, also by closures.
func storedOnce(a *ssa.Alloc) bool {
	n := 0
	var uses func(refs *[]ssa.Instruction, v ssa.Value) bool
	uses = func(refs *[]ssa.Instruction, v ssa.Value) bool {
		for _, r := range *refs {
			switch u := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if u.Val == v {
					return false
				}
				n++
			case *ssa.MakeClosure:
				for i, b := range u.Bindings {
					if b == v {
						fv := u.Fn.(*ssa.Function).FreeVars[i]
						before := n
						if !uses(fv.Referrers(), fv) || n != before {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return uses(a.Referrers(), a) && n <= 1
}

// updates reports whether a loop changes a map.
func updates(l *espLoop, m ssa.Value) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && (u.Map == m || sameLoad(u.Map, m)) {
				return true
			}
		}
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if x.X == y.X {
		return true
	}
	f, ok := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok && ok2 && f.Field == g.Field && (f.X == g.X || sameLoad(f.X, g.X))
}

// next is what the variables of the loop are at its head the next time.
func (e *loopEval) next() map[string]*Tm {
	out := map[string]*Tm{}
	last := e.path.blocks[len(e.path.blocks)-1]
	for k, p := range e.l.head.Preds {
		if p != last {
			continue
		}
		for _, in := range e.l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if hasLen(ph.Type()) {
				out["len "+ph.Name()] = e.length(ph.Edges[k])
			} else if _, ok := ntypeOf(ph.Type()); ok {
				out[ph.Name()] = e.eval(ph.Edges[k])
			}
		}
	}
	for k, s := range e.start {
		if s == nil {
			continue
		}
		if m, ok := e.mem[k]; ok {
			out[s.name] = m
		} else if e.lost > 0 {
			out[s.name] = nil // unknown
		}
	}
	return out
}

// samples lists values for the atoms that fit the conditions.
func (e *loopEval) samples(rnd *rand.Rand, conds []*tmCond, bounds map[string]*bound) []map[string]uint64 {
	var names []string
	for n := range e.head {
		names = append(names, n)
	}
	for n := range e.body {
		if !e.head[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var out []map[string]uint64
	for try := 0; try < 6000 && len(out) < 400; try++ {
		asg := map[string]uint64{}
		for _, n := range names {
			nt := e.t.tab[n].typ
			var v int64
			switch rnd.Intn(7) {
			case 0, 1, 2:
				v = int64(rnd.Intn(6))
			case 3:
				v = int64(rnd.Intn(70))
			case 4:
				v = rnd.Int63() >> uint(23+rnd.Intn(30))
			case 5:
				v = int64(1)<<uint(rnd.Intn(40)) + int64(rnd.Intn(3)) - 1
			default:
				if nt.bits < 64 {
					v = int64(1)<<uint(nt.bits) - 1 - int64(rnd.Intn(3))
					if nt.signed {
						v >>= 1
					}
				} else {
					v = int64(rnd.Intn(9000))
				}
			}
			if nt.signed && !e.head[n] && rnd.Intn(5) == 0 && !strings.HasPrefix(n, "len ") {
				v = -v
			}
			asg[n] = nt.wrap(uint64(v))
			if b := bounds[n]; b != nil && e.head[n] {
				switch k := rnd.Intn(8); {
				case k == 0 && b.lo != nil:
					asg[n] = nt.wrap(b.lo.Uint64())
					if b.lo.Sign() < 0 {
						asg[n] = nt.wrap(uint64(b.lo.Int64()))
					}
				case k == 1 && b.hi != nil && b.hi.Sign() >= 0:
					asg[n] = nt.wrap(b.hi.Uint64())
				}
			}
		}
		in := true
		for n, b := range bounds {
			if a := e.t.tab[n]; a != nil && e.head[n] && !b.holds(e.t.bigOf(a, asg)) {
				in = false
			}
		}
		if !in {
			continue
		}
		// equalities with constants are hard to hit
		for _, c := range conds {
			if c.op == "==" && c.a.op == "atom" && c.b.op == "const" {
				asg[c.a.name] = c.b.val
			}
			if c.op == "==" && c.b.op == "atom" && c.a.op == "const" {
				asg[c.b.name] = c.a.val
			}
		}
		ok := true
		for _, c := range conds {
			if h, known := c.holds(e.t, asg); known && !h {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, asg)
		}
	}
	return out
}

func (t *Terms) bigOf(e *Tm, asg map[string]uint64) *big.Int {
	v, ok := t.eval(e, asg)
	if !ok {
		return nil
	}
	return t.bigNum(e.typ, v)
}

func (t *Terms) bigNum(typ ntype, v uint64) *big.Int {
	if typ.signed {
		return big.NewInt(int64(v))
	}
	return new(big.Int).SetUint64(v)
}

func (t *Terms) onlyAtoms(e *Tm, set map[string]bool) bool {
	as := map[string]bool{}
	t.atoms(e, as)
	for a := range as {
		if !set[a] {
			return false
		}
	}
	return true
}

// wayInfo is what is known about one way round.
type wayInfo struct {
	e        *loopEval
	asgs     []map[string]uint64
	next     []map[string]uint64 // nil where unknown
	measures map[string][2]*Tm   // bounded below by a branch: what is subtracted from what
	nextTm   map[string]*Tm
	progress string // something finite is consumed
}

// delta compares a measure before and after: -1 always smaller, 0 never larger, 1 unknown or larger.
func (w *wayInfo) delta(m [2]*Tm) int {
	res := -1
	t := w.e.t
	for i, asg := range w.asgs {
		nx := w.next[i]
		for a := range atomsOf(t, m) {
			if _, ok := nx[a]; !ok {
				return 1
			}
		}
		a, b := t.bigOf(m[0], asg), t.bigOf(m[1], asg)
		a2, b2 := t.bigOf(m[0], nx), t.bigOf(m[1], nx)
		if a == nil || b == nil || a2 == nil || b2 == nil {
			return 1
		}
		before, after := new(big.Int).Sub(b, a), new(big.Int).Sub(b2, a2)
		switch after.Cmp(before) {
		case 1:
			return 1
		case 0:
			res = 0
		}
	}
	return res
}

// wraps: a measure gets smaller on this way, but for some numbers larger.
func (w *wayInfo) wraps() bool {
	t := w.e.t
	for _, m := range w.measures {
		less, more := 0, 0
		for i, asg := range w.asgs {
			nx := w.next[i]
			known := true
			for a := range atomsOf(t, m) {
				if _, ok := nx[a]; !ok {
					known = false
				}
			}
			a, b := t.bigOf(m[0], asg), t.bigOf(m[1], asg)
			a2, b2 := t.bigOf(m[0], nx), t.bigOf(m[1], nx)
			if !known || a == nil || b == nil || a2 == nil || b2 == nil {
				continue
			}
			if new(big.Int).Sub(b2, a2).Cmp(new(big.Int).Sub(b, a)) < 0 {
				less++
			} else {
				more++
			}
		}
		if less > 2*more && more > 0 {
			return true
		}
	}
	return false
}

func atomsOf(t *Terms, m [2]*Tm) map[string]bool {
	as := map[string]bool{}
	t.atoms(m[0], as)
	t.atoms(m[1], as)
	return as
}

// bound is what is known about a number at the head of the loop.
type bound struct{ lo, hi *big.Int }

// before bounds what a number is before the loop; that a subtraction does not go below zero is presumed.
func (p *Program) before(v ssa.Value, all bool, seen map[ssa.Value]bool) (lo, hi *big.Int) {
	n, ok := ntypeOf(v.Type())
	if !ok || seen[v] {
		return nil, nil
	}
	lo, hi = big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(n.bits))
	if n.signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	hi.Sub(hi, big.NewInt(1))
	switch a := v.(type) {
	case *ssa.Const:
		if a.Value == nil {
			return nil, nil
		}
		k, ok := new(big.Int).SetString(a.Value.ExactString(), 10)
		if !ok {
			return nil, nil
		}
		return k, k
	case *ssa.Phi:
		seen[v] = true
		defer delete(seen, v)
		var l, h *big.Int
		for _, e := range a.Edges {
			if e == v {
				continue
			}
			l2, h2 := p.before(e, all, seen)
			if l2 == nil {
				return nil, nil
			}
			if l == nil || l2.Cmp(l) < 0 {
				l = l2
			}
			if h == nil || h2.Cmp(h) > 0 {
				h = h2
			}
		}
		if l != nil {
			return l, h
		}
	case *ssa.Convert:
		l, h := p.before(a.X, all, seen)
		if l != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return l, h
		}
	case *ssa.BinOp:
		c := p.constOf(a.Y)
		l, h := p.before(a.X, a.Op == token.QUO, seen)
		if l == nil || c == nil || c.Sign() <= 0 {
			break
		}
		switch a.Op {
		case token.QUO:
			return new(big.Int).Quo(l, c), new(big.Int).Quo(h, c)
		case token.SUB:
			l, h = new(big.Int).Sub(l, c), new(big.Int).Sub(h, c)
			if l.Cmp(lo) < 0 {
				l = lo
			}
			return l, h
		}
	}
	if !all {
		return nil, nil
	}
	return lo, hi
}

// constOf is the value of a constant, or of a variable that is one in effect.
func (p *Program) constOf(v ssa.Value) *big.Int {
	switch a := v.(type) {
	case *ssa.Const:
		if a.Value != nil && a.Value.Kind() == constant.Int {
			c, _ := new(big.Int).SetString(a.Value.ExactString(), 10)
			return c
		}
	case *ssa.Convert:
		return p.constOf(a.X)
	case *ssa.UnOp:
		if g, ok := a.X.(*ssa.Global); ok && a.Op == token.MUL {
			if n, ok := p.globalInt(g.String()); ok {
				return new(big.Int).SetUint64(n)
			}
		}
	}
	return nil
}

// headBounds bounds the numbers at the head of a loop by what they are before it.
func (p *Program) headBounds(l *espLoop) map[string]*bound {
	out := map[string]*bound{}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n, ok := ntypeOf(ph.Type())
		if !ok || n.bits < 8 {
			continue
		}
		b := &bound{}
		bad := false
		for k, pr := range l.head.Preds {
			if l.body[pr] {
				continue
			}
			lo, hi := p.before(ph.Edges[k], false, map[ssa.Value]bool{})
			if lo == nil {
				bad = true
				break
			}
			if b.lo == nil || lo.Cmp(b.lo) < 0 {
				b.lo = lo
			}
			if b.hi == nil || hi.Cmp(b.hi) > 0 {
				b.hi = hi
			}
		}
		if !bad && b.lo != nil {
			out[ph.Name()] = b
		}
	}
	return out
}

func (b *bound) holds(v *big.Int) bool {
	return (b.lo == nil || v.Cmp(b.lo) >= 0) && (b.hi == nil || v.Cmp(b.hi) <= 0)
}

func (p *Program) wayRound(l *espLoop, all []*espLoop, lp *loopPath, bounds map[string]*bound) *wayInfo {
	e := &loopEval{p: p, l: l, inner: map[*ssa.BasicBlock]bool{}, path: lp, t: newTerms(), env: map[ssa.Value]*Tm{}, mem: map[string]*Tm{}, start: map[string]*Tm{}, head: map[string]bool{}, body: map[string]bool{}, cell: map[string]ssa.Value{}}
	for _, o := range all {
		if o.head != l.head && l.body[o.head] {
			e.inner[o.head] = true
		}
	}
	e.run()
	w := &wayInfo{e: e, measures: map[string][2]*Tm{}}
	next := e.next()
	w.nextTm = next
	rnd := rand.New(rand.NewSource(1))
	w.asgs = e.samples(rnd, e.ncond, bounds)
	for _, asg := range w.asgs {
		n := map[string]uint64{}
		for a := range e.head {
			nx, changes := next[a]
			switch {
			case !changes:
				n[a] = asg[a] // defined before the loop
			case nx != nil:
				if v, ok := e.t.eval(nx, asg); ok {
					n[a] = v
				}
			}
		}
		w.next = append(w.next, n)
	}
	for _, c := range e.ncond {
		if !e.t.onlyAtoms(c.a, e.head) || !e.t.onlyAtoms(c.b, e.head) {
			continue
		}
		switch c.op {
		case "<", "<=":
			w.measures[c.a.key+"<"+c.b.key] = [2]*Tm{c.a, c.b}
		case "!=":
			w.measures[c.a.key+"!"+c.b.key] = [2]*Tm{c.a, c.b}
			w.measures[c.b.key+"!"+c.a.key] = [2]*Tm{c.b, c.a}
		}
	}
	w.progress = e.progress(w)
	return w
}

// isNilCheck: the condition says that an error is nil.
func (e *loopEval) noError(call ssa.CallInstruction) bool {
	v := call.Value()
	if v == nil {
		return false
	}
	is := func(x ssa.Value, i int) bool {
		if ex, ok := x.(*ssa.Extract); ok {
			return ex.Tuple == v && (i < 0 || ex.Index == i)
		}
		return x == v
	}
	for _, c := range e.rest {
		if b, ok := c.v.(*ssa.BinOp); ok && (b.Op == token.EQL) == c.want {
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := pr[1].(*ssa.Const); ok && k.Value == nil && is(pr[0], -1) {
					return true
				}
			}
		}
		if is(c.v, -1) && c.want && call.Common().Method == nil { // a bool result, as of Scan
			return true
		}
	}
	return false
}

// consumers are operations that take something from a finite supply when they succeed.
var consumers = map[string]bool{
	"(*archive/tar.Reader).Next": true, "(*bufio.Scanner).Scan": true, "io.ReadFull": true, "encoding/binary.Read": true, "io.ReadAtLeast": true,
	"(*bufio.Reader).ReadByte": true, "(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadBytes": true, "(*bufio.Reader).ReadRune": true, "(*bufio.Reader).Discard": true,
	"io.CopyN": true,
}

// progress looks for something finite that is consumed on the way.
func (e *loopEval) progress(w *wayInfo) string {
	for _, b := range e.path.blocks[:1] {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok && !updates(e.l, rg.X) {
					return "elements of a map or string"
				}
			}
		}
	}
	for _, in := range e.upd {
		u := in.(*ssa.MapUpdate)
		if e.nested(in.Block()) {
			continue
		}
		for _, c := range e.rest { // if seen[k] { leave }; seen[k] = ...
			if v := lookupOf(c.v); v != nil && !c.want && v.Index == u.Key && (v.X == u.Map || sameLoad(v.X, u.Map)) {
				return "a set that grows"
			}
		}
	}
	lasting := func(v ssa.Value) bool {
		src := source(v)
		return !e.inBody(src)
	}
	for _, c := range e.calls {
		name := "?"
		com := c.Common()
		if e.nested(c.Block()) {
			continue
		}
		var offs []ssa.Value
		if fn := com.StaticCallee(); fn != nil {
			name = extName(fn)
			if inModule(fn) {
				if p2consumes(e.p, fn, func(v ssa.Value) bool {
					for i, pa := range fn.Params {
						if pa == v && i < len(com.Args) {
							return lasting(com.Args[i])
						}
					}
					return false
				}, 3) {
					if fn.Signature.Results().Len() > 0 && e.noError(c) {
						return "the input"
					}
					e.maybe = true
				}
				if readsAt(fn, 3) {
					for _, a := range com.Args {
						if isNumber(a.Type()) {
							offs = append(offs, a)
						}
					}
				}
			}
		} else if com.IsInvoke() {
			name = com.Method.Name()
		}
		if consumers[name] && e.noError(c) && len(com.Args) > 0 && lasting(com.Args[readerArg(name)]) {
			return "the input"
		}
		switch {
		case name == "Read" || strings.HasSuffix(name, ").Read") || name == "ReadDir":
			from := com.Value
			if !com.IsInvoke() {
				from = com.Args[0]
			}
			if e.noError(c) && lasting(from) {
				return "the input"
			}
		case name == "ReadAt" || strings.HasSuffix(name, ").ReadAt"):
			offs = append(offs, com.Args[len(com.Args)-1])
		}
		for _, o := range offs {
			off := e.eval(o)
			if off == nil || !e.t.onlyAtoms(off, e.head) {
				continue
			}
			up, known, fixed := len(w.asgs) > 0, true, true
			for a := range atomsOf(e.t, [2]*Tm{off, off}) {
				if nx := w.nextTm[a]; nx != nil && !e.t.onlyAtoms(nx, e.head) {
					fixed = false
				}
			}
			for i, asg := range w.asgs {
				neg := false
				for b := range e.body { // what is not known here is a size, which others keep from being negative
					if nt := e.t.tab[b].typ; nt.signed && int64(asg[b]) < 0 {
						neg = true
					}
				}
				if neg {
					continue
				}
				for a := range atomsOf(e.t, [2]*Tm{off, off}) {
					if _, ok := w.next[i][a]; !ok {
						known = false
					}
				}
				a, b := e.t.bigOf(off, asg), e.t.bigOf(off, w.next[i])
				switch {
				case a == nil || b == nil:
					known = false
				case b.Cmp(a) <= 0 && fixed:
					up = false
				case b.Cmp(a) <= 0:
					known = false // by how much it grows is not known here
				}
			}
			switch {
			case up && !known:
				e.maybe = true
			case up && e.readSomething(c, w):
				return "the input"
			}
		}
	}
	// a path that gets shorter: dir = path.Dir(dir), until it is "." or "/"
	last := e.path.blocks[len(e.path.blocks)-1]
	for k, pr := range e.l.head.Preds {
		if pr != last {
			continue
		}
		for _, in := range e.l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			call, ok := ph.Edges[k].(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) != 1 || call.Call.Args[0] != ph {
				continue
			}
			n := extName(call.Call.StaticCallee())
			if n != "path.Dir" && n != "path/filepath.Dir" {
				continue
			}
			not := map[string]bool{}
			for _, c := range e.rest {
				if b, ok := c.v.(*ssa.BinOp); ok && (b.Op == token.NEQ) == c.want && (b.X == ph || b.X == call) {
					if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						not[constant.StringVal(k.Value)] = true
					}
				}
			}
			if not["."] && not["/"] {
				if n == "path.Dir" || e.p.GOOS != "windows" {
					return "elements of a path"
				}
			}
		}
	}
	return ""
}

// nested: a block lies in an inner loop.
func (e *loopEval) nested(b *ssa.BasicBlock) bool {
	for _, o := range espLoops(e.l.fn) {
		if o.head != e.l.head && e.l.body[o.head] && o.body[b] {
			return true
		}
	}
	return false
}

// lookupOf finds the map lookup that a condition is about.
func lookupOf(v ssa.Value) *ssa.Lookup {
	switch a := v.(type) {
	case *ssa.Lookup:
		return a
	case *ssa.Extract:
		l, _ := a.Tuple.(*ssa.Lookup)
		return l
	}
	return nil
}

// readSomething reports whether a call of ReadAt delivered at least one byte.
func (e *loopEval) readSomething(c ssa.CallInstruction, w *wayInfo) bool {
	if e.noError(c) {
		return true
	}
	for v, x := range e.env {
		if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == c.Value() && ex.Index == 0 && x != nil {
			for _, asg := range w.asgs {
				if n := e.t.bigOf(x, asg); n == nil || n.Sign() == 0 {
					return false
				}
			}
			return len(w.asgs) > 0
		}
	}
	return false
}

// source finds what a reader reads from: the value behind interfaces, fields and wrappers.
func source(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.MakeInterface:
			v = a.X
		case *ssa.ChangeInterface:
			v = a.X
		case *ssa.ChangeType:
			v = a.X
		case *ssa.TypeAssert:
			v = a.X
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.Field:
			v = a.X
		case *ssa.UnOp:
			if a.Op != token.MUL {
				return v
			}
			v = a.X
		case *ssa.Call:
			f := a.Call.StaticCallee()
			if f == nil || len(a.Call.Args) == 0 {
				return v
			}
			switch extName(f) {
			case "io.LimitReader", "io.TeeReader":
				v = a.Call.Args[0]
			default:
				return v
			}
		default:
			return v
		}
	}
}

// p2consumes: does a function of the library take something from an input that stays the same?
func p2consumes(p *Program, fn *ssa.Function, lasting func(v ssa.Value) bool, depth int) bool {
	here := func(v ssa.Value) bool {
		switch a := source(v).(type) {
		case *ssa.Parameter:
			return lasting(a)
		case *ssa.FreeVar, *ssa.Global:
			return true
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			if f := com.StaticCallee(); f != nil {
				if consumers[extName(f)] && len(com.Args) > 0 && here(com.Args[readerArg(extName(f))]) {
					return true
				}
				if depth > 0 && inModule(f) && p2consumes(p, f, func(v ssa.Value) bool {
					for i, pa := range f.Params {
						if pa == v && i < len(com.Args) {
							return here(com.Args[i])
						}
					}
					return false
				}, depth-1) {
					return true
				}
			} else if com.IsInvoke() && com.Method.Name() == "Read" && here(com.Value) {
				return true
			}
		}
	}
	return false
}

// readerArg is the index of the argument that is read from.
func readerArg(name string) int {
	if name == "io.CopyN" {
		return 1
	}
	return 0
}

// readsAt: does a function of the library read at a place that it is given?
func readsAt(fn *ssa.Function, depth int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := c.Common().StaticCallee(); f != nil {
				if strings.HasSuffix(extName(f), ").ReadAt") || extName(f) == "io.NewSectionReader" || depth > 0 && inModule(f) && readsAt(f, depth-1) {
					return true
				}
			} else if c.Common().IsInvoke() && c.Common().Method.Name() == "ReadAt" {
				return true
			}
		}
	}
	return false
}

// opaque: the loop works on something that calls inside the library change.
func (e *loopEval) opaque() bool {
	for _, c := range e.calls {
		com := c.Common()
		if _, ok := com.Value.(*ssa.Builtin); ok {
			continue
		}
		fn := com.StaticCallee()
		if fn == nil && !com.IsInvoke() {
			return true // a function value
		}
		if fn != nil && !inModule(fn) {
			continue
		}
		args := com.Args
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			args = append(append([]ssa.Value(nil), args...), mc.Bindings...)
		}
		for _, a := range args {
			if p, ok := a.Type().Underlying().(*types.Pointer); ok && !e.inBody(a) {
				if al, ok := a.(*ssa.Alloc); ok {
					_ = al
					return true // a local variable of the function
				}
				if _, ok := ntypeOf(p.Elem()); ok {
					return true
				}
			}
		}
	}
	return false
}

// loopEnds decides one loop; why is empty if it ends, unknown if nothing can be said.
func (p *Program) loopEnds(l *espLoop, all []*espLoop) (kind, why string, path []string, unknown bool) {
	ways, ok := waysRound(l, all)
	if !ok {
		return "", "", nil, true
	}
	// what holds before the loop and is kept by every way round
	bounds := p.headBounds(l)
	var infos []*wayInfo
	for {
		infos = infos[:0]
		kept := true
		for _, lp := range ways {
			w := p.wayRound(l, all, lp, bounds)
			infos = append(infos, w)
			for n, b := range bounds {
				for i := range w.asgs {
					nx, ok := w.next[i][n]
					if !ok {
						if w.e.head[n] {
							b.lo, b.hi, kept = nil, nil, false
							delete(bounds, n)
						}
						break
					}
					v := w.e.t.bigNum(w.e.t.tab[n].typ, nx)
					if b.lo != nil && v.Cmp(b.lo) < 0 {
						b.lo, kept = nil, false
					}
					if b.hi != nil && v.Cmp(b.hi) > 0 {
						b.hi, kept = nil, false
					}
				}
			}
		}
		if kept {
			break
		}
	}
	var open []*wayInfo
	kinds := map[string]bool{}
	opq := false
	for _, w := range infos {
		if len(w.asgs) == 0 {
			continue // no input takes it
		}
		if w.progress != "" {
			kinds[w.progress] = true
			continue
		}
		opq = opq || w.e.maybe || w.e.opaque()
		open = append(open, w)
	}
	// lexicographic: a measure that never gets larger takes away the ways on which it gets smaller
	for len(open) > 0 {
		cands := map[string]bool{}
		for _, w := range open {
			for k := range w.measures {
				cands[k] = true
			}
		}
		done := false
		for _, k := range keysOf(cands) {
			less := map[*wayInfo]bool{}
			fine := true
			for _, w := range open {
				m, ok := w.measures[k]
				d := 1
				if ok {
					d = w.delta(m)
				} else {
					for _, o := range open { // not bounded here, but it may still not grow
						if m, ok := o.measures[k]; ok {
							if d = w.delta(m); d < 0 {
								d = 0
							}
							break
						}
					}
				}
				if d > 0 {
					fine = false
					break
				}
				if d < 0 {
					less[w] = true
				}
			}
			if !fine || len(less) == 0 {
				continue
			}
			var rest []*wayInfo
			for _, w := range open {
				if !less[w] {
					rest = append(rest, w)
				}
			}
			open, done = rest, true
			kinds["a measure"] = true
			break
		}
		if !done {
			break
		}
	}
	if len(open) == 0 {
		return strings.Join(keysOf(kinds), ", "), "", nil, false
	}
	if opq && !open[0].wraps() {
		if espDebug == "R02" {
			fmt.Println("not recognised:", l.fn, p.at(loopPos(l)), len(open), open[0].e.maybe, open[0].e.opaque())
			for k, m := range open[0].measures {
				fmt.Println("  measure", k, open[0].delta(m))
			}
			for a, n := range open[0].nextTm {
				if n != nil {
					fmt.Println("  next", a, n.key)
				} else {
					fmt.Println("  next", a, "?")
				}
			}
			for a, b := range bounds {
				fmt.Println("  bound", a, b.lo, b.hi)
			}
			for _, c := range open[0].e.ncond {
				fmt.Println("  cond", c.a.key, c.op, c.b.key)
			}
			if len(open[0].asgs) > 0 {
				fmt.Println("  sample", open[0].asgs[0], open[0].next[0])
			}
		}
		return "", "", nil, true
	}
	w := open[0]
	for _, c := range w.e.path.conds {
		if c.v.Pos().IsValid() {
			path = append(path, fmt.Sprintf("condition at %s is %v", p.at(c.v.Pos()), c.want))
		}
	}
	return "", "nothing on this way round the loop makes sure that it ends: no number gets closer to a limit that the way tests, and nothing finite is consumed", path, false
}
