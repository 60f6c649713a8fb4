package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Observer receives the events of an abstract execution.
type Observer interface {
	Assume(x *Exec, st *State, t *Term, val bool)
	Instr(x *Exec, fr *Frame, st *State, in ssa.Instruction)
	PreCall(x *Exec, fr *Frame, st *State, ev *CallEv)
	PostCall(x *Exec, fr *Frame, st *State, ev *CallEv, res *Term)
	Store(x *Exec, fr *Frame, st *State, addr, val *Term, in ssa.Instruction)
	Return(x *Exec, fr *Frame, st *State, res *Term, in ssa.Instruction)
	Back(x *Exec, fr *Frame, st *State, header *ssa.BasicBlock)
	Alarm(x *Exec, fr *Frame, st *State, kind, msg string, in ssa.Instruction)
}

// Base is an Observer that ignores everything.
type Base struct{}

func (Base) Assume(*Exec, *State, *Term, bool)                            {}
func (Base) Instr(*Exec, *Frame, *State, ssa.Instruction)                 {}
func (Base) PreCall(*Exec, *Frame, *State, *CallEv)                       {}
func (Base) PostCall(*Exec, *Frame, *State, *CallEv, *Term)               {}
func (Base) Store(*Exec, *Frame, *State, *Term, *Term, ssa.Instruction)   {}
func (Base) Return(*Exec, *Frame, *State, *Term, ssa.Instruction)         {}
func (Base) Back(*Exec, *Frame, *State, *ssa.BasicBlock)                  {}
func (Base) Alarm(*Exec, *Frame, *State, string, string, ssa.Instruction) {}

// CallEv describes a call.
type CallEv struct {
	Instr ssa.Instruction
	Ctx   *Ctx
	Name  string // full name of the callee
	Fn    *ssa.Function
	Sig   *types.Signature
	Args  []*Term // receiver first
	Inl   bool    // the callee is analysed in line
	Rec   bool    // cut recursion
}

func (ev *CallEv) Pos() token.Pos {
	if ev.Instr == nil {
		return token.NoPos
	}
	return ev.Instr.Pos()
}

// Frame is an activation.
type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	env    map[ssa.Value]*Term
	defers []deferred
	unroll map[*ssa.BasicBlock]int
	parent *Frame
}

type deferred struct {
	in   *ssa.Defer
	fnv  *Term
	args []*Term
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = cloneMap(fr.env)
	n.defers = append([]deferred{}, fr.defers...)
	if fr.unroll != nil {
		n.unroll = cloneMap(fr.unroll)
	}
	return &n
}

// Outcome is one way a call can end.
type Outcome struct {
	st  *State
	res *Term
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

// Exec interprets SSA abstractly.
type Exec struct {
	p         *Program
	u         *Universe
	obs       Observer
	isTypes   map[*Term]types.Type
	pairs     *[]joinPair // values joined so far by the running joinStates
	strong    int         // inside a function that runs once: stores are definite
	isTypeOf  map[*Term][]*Term
	info      map[*ssa.Function]*fnInfo
	stack     []*ssa.Function
	base      *State
	steps     int
	limit     int
	maxDepth  int
	recLimit  int
	funcs     map[*ssa.Function]bool // functions analysed
	calls     map[ssa.Instruction]bool
	over      bool
	noMerge   bool
	models    map[string]model
	mutGlobal map[*ssa.Global]bool
	debug     bool
	quiet     bool
}

func newExec(p *Program, obs Observer) *Exec {
	x := &Exec{p: p, u: newUniverse(), obs: obs, isTypes: map[*Term]types.Type{}, isTypeOf: map[*Term][]*Term{}, info: map[*ssa.Function]*fnInfo{},
		limit: 6_000_000, maxDepth: 24, recLimit: 1, funcs: map[*ssa.Function]bool{}, calls: map[ssa.Instruction]bool{}, mutGlobal: map[*ssa.Global]bool{}}
	x.u.renamed = func(old, nw *Term) {
		if t, ok := x.isTypes[old]; ok {
			if _, done := x.isTypes[nw]; !done {
				x.isTypes[nw] = t
				x.isTypeOf[nw.args[0]] = append(x.isTypeOf[nw.args[0]], nw)
			}
		}
	}
	x.debug = os.Getenv("SADEBUG") != ""
	x.models = modelTable()
	x.findMutableGlobals()
	x.initGlobals()
	x.funcs = map[*ssa.Function]bool{}
	x.calls = map[ssa.Instruction]bool{}
	x.steps = 0
	return x
}

func (x *Exec) findMutableGlobals() {
	for _, f := range x.p.Funcs {
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.UnOp); ok && l.Op == token.MUL {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if fa, ok := in.(*ssa.FieldAddr); ok && onlyLoaded(fa) {
							continue
						}
						if fa, ok := in.(*ssa.IndexAddr); ok && onlyLoaded(fa) {
							continue
						}
						x.mutGlobal[g] = true
					}
				}
			}
		}
	}
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if !onlyLoaded(r) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyLoaded(r) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (x *Exec) initGlobals() {
	obs := x.obs
	x.obs = Base{}
	x.base = newState()
	var paths []string
	for p := range x.p.SPkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		f := x.p.SPkgs[p].Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		st := x.base.clone()
		for _, m := range x.p.SPkgs[p].Members {
			if g, ok := m.(*ssa.Global); ok {
				t := x.globalAddr(g)
				x.store(st, t, x.u.Zero(g.Type().(*types.Pointer).Elem()), nil, nil)
			}
		}
		ctx := x.u.Ctx(nil, nil, f)
		outs := x.inline(nil, st, f, nil, nil, ctx)
		if len(outs) == 1 {
			x.base = outs[0].st
		}
	}
	for k := range x.base.mem {
		if r := rootOfCell(k); r.op == OGlobal && x.mutGlobal[r.glob] {
			delete(x.base.mem, k)
		}
	}
	x.base.trace = nil
	x.obs = obs
}

func (x *Exec) globalAddr(g *ssa.Global) *Term {
	return x.u.mk(Term{op: OGlobal, typ: g.Type(), glob: g})
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := x.p.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if p := in.Pos(); p.IsValid() {
		return p
	}
	// fall back to a neighbour
	if b := in.Block(); b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return o.Pos()
			}
		}
		if f := in.Parent(); f != nil {
			return f.Pos()
		}
	}
	return token.NoPos
}

func (x *Exec) fnInfo(f *ssa.Function) *fnInfo {
	if i, ok := x.info[f]; ok {
		return i
	}
	i := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(f.Blocks[0])
	for n, b := range order {
		i.rpo[b] = len(order) - n
	}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.loops[s]
				if l == nil {
					l = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = l
				}
				var up func(c *ssa.BasicBlock)
				up = func(c *ssa.BasicBlock) {
					if l[c] {
						return
					}
					l[c] = true
					for _, p := range c.Preds {
						up(p)
					}
				}
				up(b)
			} else if i.rpo[s] <= i.rpo[b] { // irreducible
				l := map[*ssa.BasicBlock]bool{}
				for _, c := range order {
					l[c] = true
				}
				i.loops[s] = l
			}
		}
	}
	// Blocks of a loop with small RPO numbers first: number loop bodies before loop exits.
	x.info[f] = i
	i.live = liveness(f)
	i.order()
	return i
}

// order renumbers the blocks so that a loop's blocks come before the blocks after it.
func (i *fnInfo) order() {
	type bb struct {
		b *ssa.BasicBlock
		n int
	}
	depth := map[*ssa.BasicBlock]int{}
	for _, l := range i.loops {
		for b := range l {
			depth[b]++
		}
	}
	var l []bb
	for b, n := range i.rpo {
		l = append(l, bb{b, n})
	}
	sort.Slice(l, func(a, b int) bool { return l[a].n < l[b].n })
	// stable insertion: a block outside a loop that RPO put between blocks of the loop moves after it
	var out []*ssa.BasicBlock
	placed := map[*ssa.BasicBlock]bool{}
	var place func(b *ssa.BasicBlock, within map[*ssa.BasicBlock]bool)
	place = func(b *ssa.BasicBlock, within map[*ssa.BasicBlock]bool) {
		if placed[b] {
			return
		}
		placed[b] = true
		out = append(out, b)
		if lp, ok := i.loops[b]; ok {
			for _, c := range l {
				if lp[c.b] {
					place(c.b, lp)
				}
			}
		}
	}
	for _, c := range l {
		place(c.b, nil)
	}
	for n, b := range out {
		i.rpo[b] = n + 1
	}
}

// liveness computes the values live at the entry of every block (phis excluded).
func liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for n := len(f.Blocks) - 1; n >= 0; n-- {
			b := f.Blocks[n]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					cur[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, ins := range s.Instrs {
					if phi, ok := ins.(*ssa.Phi); ok {
						delete(cur, phi)
						for k, p := range s.Preds {
							if p == b && track(phi.Edges[k]) {
								cur[phi.Edges[k]] = true
							}
						}
					}
				}
				_ = pi
			}
			// phis of successors that are live-in there through other uses
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && track(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	return in
}

// ---- values -----------------------------------------------------------------

func (x *Exec) val(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.u.Zero(v.Type())
		}
		if isInt(v.Type()) {
			return x.u.Big(v.Type(), bigOf(v.Value))
		}
		return x.u.Const(v.Type(), v.Value)
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Function:
		return x.u.mk(Term{op: OFunc, typ: v.Type(), fn: v})
	case *ssa.Builtin:
		return x.u.mk(Term{op: OPure, typ: v.Type(), aux: "builtin:" + v.Name()})
	}
	t, ok := fr.env[v]
	if !ok {
		return x.u.Sym(v.Type(), "undef", fr.ctx, nil, v.Name(), 0)
	}
	return t
}

// ---- memory -----------------------------------------------------------------

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Byte]
}

// peek loads without changing the state.
func (x *Exec) peek(st *State, addr *Term) *Term {
	if addr.typ == nil {
		return nil
	}
	if addr.op == OPure { // container cell
		return st.mem[addr]
	}
	typ := derefType(addr.typ)
	return x.load(st.shallow(), addr, typ)
}

func (st *State) shallow() *State { return st.clone() }

func (x *Exec) load(st *State, addr *Term, typ types.Type) *Term {
	u := x.u
	if s, ok := typ.Underlying().(*types.Struct); ok {
		if v, ok := st.mem[addr]; ok {
			return v
		}
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = x.load(st, u.FieldAddr(addr, i), s.Field(i).Type())
		}
		return u.Struct(typ, args)
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	// a field of a struct stored whole
	if addr.op == OFieldAddr {
		if v, ok := st.mem[addr.args[0]]; ok && structOf(v.typ) != nil {
			if _, isS := v.typ.Underlying().(*types.Struct); isS {
				return u.Field(v, addr.idx)
			}
		}
	}
	if addr.op == OIndexAddr && len(addr.args) == 2 {
		if v := x.loadElem(st, addr, typ); v != nil {
			return v
		}
	}
	root := addr.root()
	switch {
	case root.op == OAlloc && !root.sym.old && root.sym.kind == "alloc":
		if !x.tainted(st, root) {
			return u.Zero(typ)
		}
	}
	// OInit: unknown contents, with what is known of the class of the object
	v := u.mk(Term{op: OInit, typ: typ, args: []*Term{addr}})
	x.initAlts(st, addr, v, typ)
	if root.op != OGlobal {
		st.mem[addr] = v
	}
	return v
}

// zeroFields gives the fields of a fresh struct their zero values.
func (x *Exec) zeroFields(st *State, addr *Term, typ types.Type, d int) {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok || d > 3 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		a := x.u.FieldAddr(addr, i)
		switch t.Underlying().(type) {
		case *types.Struct:
			x.zeroFields(st, a, t, d+1)
		case *types.Array:
		default:
			st.mem[a] = x.u.Zero(t)
		}
	}
}

// tainted: the object was handed to code that may have written to it.
func (x *Exec) tainted(st *State, root *Term) bool {
	_, ok := st.mem[x.u.Pure(types.Typ[types.Bool], "tainted", root)]
	return ok
}

func (x *Exec) initAlts(st *State, addr, v *Term, typ types.Type) {
	if _, done := st.alts[v]; done {
		return
	}
	if _, done := st.abs[v]; done {
		return
	}
	// the base symbol of the address, if it stands for known objects
	var alts []*Term
	switch addr.op {
	case OFieldAddr:
		for _, b := range x.pointees(st, addr.args[0]) {
			alts = addAlt(alts, x.load(st, x.u.FieldAddr(b, addr.idx), typ))
		}
	case OIndexAddr:
		for _, b := range x.sliceAlts(st, addr.args[0]) {
			es, ok := x.elems(st, b)
			if !ok {
				return
			}
			for _, e := range es {
				alts = addAlt(alts, e)
			}
		}
	case OSym, OInit:
		for _, b := range x.pointees(st, addr) {
			alts = addAlt(alts, x.load(st, b, typ))
		}
	}
	if len(alts) == 0 {
		return
	}
	var a Abs
	for i, al := range alts {
		b := x.absOf(st, al)
		if i == 0 {
			a = b
		} else {
			a = joinAbs(a, b)
		}
	}
	if !a.top() {
		st.abs[v] = a
	}
	if len(alts) <= maxAlts && !isInt(typ) {
		st.alts[v] = alts
	}
}

// pointees lists the objects a pointer symbol may point to (nil entries dropped).
func (x *Exec) pointees(st *State, p *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term, d int) bool
	rec = func(t *Term, d int) bool {
		if seen[t] || d > 6 {
			return true
		}
		seen[t] = true
		if t.isNil() {
			return true
		}
		al, ok := st.alts[t]
		if t.op == OAssert {
			al, ok = st.alts[t.args[0]]
			if ok {
				var n []*Term
				for _, a := range al {
					if a.op == OIface && types.Identical(a.args[0].typ, t.typ) {
						n = append(n, a.args[0])
					}
				}
				al = n
			}
		}
		if ok {
			for _, a := range al {
				rec(a, d+1)
			}
			return true
		}
		if t != p && !isIface(t.typ) {
			out = append(out, t)
		}
		return true
	}
	rec(p, 0)
	return out
}

func (x *Exec) sliceAlts(st *State, s *Term) []*Term {
	if al, ok := st.alts[s]; ok {
		var out []*Term
		for _, a := range al {
			if a.isNil() {
				continue
			}
			if _, sub := st.alts[a]; sub && a != s {
				out = append(out, x.sliceAlts(st, a)...)
			} else {
				out = append(out, a)
			}
		}
		return out
	}
	return nil
}

func isContent(t *Term) bool { return t != nil && t.op == OSym && t.sym.kind == "content" }

func (x *Exec) star(base *Term, elem types.Type) *Term { return x.u.IndexAddr(base, nil, elem) }

func (x *Exec) loadElem(st *State, addr *Term, typ types.Type) *Term {
	base, idx := addr.args[0], addr.args[1]
	star := x.star(base, typ)
	sv, hasStar := st.mem[star]
	if isContent(sv) {
		return x.byteAt(sv, x.u.Conv(types.Typ[types.Int], idx))
	}
	if base.op == OConv && isByteSlice(base.typ) && isString(base.args[0].typ) {
		return x.u.Pure(typ, "strat", base.args[0], idx)
	}
	_, isConst := idx.isIntConst()
	if isConst {
		if hasStar {
			return sv
		}
		return nil
	}
	if base.op != OAlloc {
		if hasStar {
			return x.element(st, addr, typ, []*Term{sv})
		}
		return nil
	}
	// unknown index into a known object: any of its elements
	var al []*Term
	if hasStar {
		al = addAlt(al, sv)
	}
	for _, k := range sortedTerms(st.mem) {
		if k.op == OIndexAddr && len(k.args) == 2 && k.args[0] == base {
			al = addAlt(al, st.mem[k])
		}
	}
	if len(al) == 0 {
		return nil
	}
	return x.element(st, addr, typ, al)
}

// element makes a value for an element of unknown identity.
func (x *Exec) element(st *State, addr *Term, typ types.Type, al []*Term) *Term {
	if _, ok := typ.Underlying().(*types.Struct); ok {
		if len(al) == 1 {
			return al[0]
		}
	}
	v := x.u.mk(Term{op: OInit, typ: typ, args: []*Term{addr}})
	if len(al) <= maxAlts {
		st.alts[v] = al
	}
	var a Abs
	for i, t := range al {
		b := x.absOf(st, t)
		if i == 0 {
			a = b
		} else {
			a = joinAbs(a, b)
		}
	}
	if !a.top() {
		st.abs[v] = meetAbs(a, Abs{})
	}
	st.mem[addr] = v
	return v
}

// elems lists the possible elements of a slice value.
func (x *Exec) elems(st *State, s *Term) ([]*Term, bool) {
	if s.isNil() {
		return nil, true
	}
	if alts := x.sliceAlts(st, s); len(alts) > 0 {
		var out []*Term
		for _, a := range alts {
			es, ok := x.elems(st, a)
			if !ok {
				return nil, false
			}
			for _, e := range es {
				out = addAlt(out, e)
			}
		}
		return out, true
	}
	if al, ok := st.alts[s]; ok && len(al) > 0 { // only nil
		return nil, true
	}
	base := s
	if s.op == OSlice {
		base = s.args[0]
	}
	elem := elemType(s.typ)
	if base.op != OAlloc {
		if sv, ok := st.mem[x.star(base, elem)]; ok {
			return []*Term{sv}, true
		}
		return nil, false
	}
	var out []*Term
	n := 0
	if sv, ok := st.mem[x.star(base, elem)]; ok {
		out = addAlt(out, sv)
	}
	for _, k := range sortedTerms(st.mem) {
		if k.op == OIndexAddr && len(k.args) == 2 && k.args[0] == base {
			out = addAlt(out, st.mem[k])
			n++
		} else if k.op == OFieldAddr && k.args[0].op == OIndexAddr && len(k.args[0].args) == 2 && k.args[0].args[0] == base {
			// element built in place
			out = addAlt(out, x.load(st, k.args[0], elem))
		}
	}
	if c, ok := s.lenConst(); ok && s.op == OSlice && n < c && base.sym.kind == "alloc" && !base.sym.old {
		if _, hs := st.mem[x.star(base, elem)]; !hs && len(out) < c && len(out) == 0 && c > 0 {
			out = addAlt(out, x.u.Zero(elem))
		}
	}
	return out, true
}

func (s *Term) lenConst() (int, bool) {
	if s.op == OSlice {
		if c, ok := s.args[2].isIntConst(); ok && c.IsInt64() {
			return int(c.Int64()), true
		}
	}
	if s.isNil() {
		return 0, true
	}
	return 0, false
}

// exactElems lists the elements of a slice of known length, in order.
func (x *Exec) exactElems(st *State, s *Term) ([]*Term, bool) {
	n, ok := s.lenConst()
	if !ok || n > 64 {
		return nil, false
	}
	if n == 0 {
		return nil, true
	}
	if s.args[0].op != OAlloc {
		return nil, false
	}
	off, ok := s.args[1].isIntConst()
	if !ok {
		return nil, false
	}
	elem := elemType(s.typ)
	var out []*Term
	for i := 0; i < n; i++ {
		a := x.u.IndexAddr(s.args[0], x.u.Int(types.Typ[types.Int], off.Int64()+int64(i)), elem)
		if _, has := st.mem[x.star(s.args[0], elem)]; has {
			if _, own := st.mem[a]; !own {
				return nil, false
			}
		}
		out = append(out, x.load(st, a, elem))
	}
	return out, true
}

func (x *Exec) store(st *State, addr, v *Term, ctx *Ctx, at ssa.Instruction) {
	u := x.u
	if v == nil {
		return
	}
	if s, ok := v.typ.Underlying().(*types.Struct); ok && v.typ != nil && addr.typ != nil {
		delete(st.mem, addr)
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, u.FieldAddr(addr, i), u.Field(v, i), ctx, at)
		}
		return
	}
	root := addr.root()
	weak := root.op == OAlloc && root.sym.old && x.strong == 0
	if addr.op == OIndexAddr && len(addr.args) == 1 {
		weak = true
	}
	// other names of the cell
	if root.op != OGlobal && !(root.op == OAlloc && !root.sym.old && false) {
		x.aliasStore(st, addr, v, ctx, at)
	}
	if addr.op == OIndexAddr && len(addr.args) == 2 {
		x.storeElem(st, addr, v, weak, ctx, at)
		return
	}
	if weak {
		if o, ok := st.mem[addr]; ok {
			st.mem[addr] = x.joinTerm(st, st, st, o, v, ctx, at, "weak", addr, 1)
		} else {
			st.mem[addr] = v
		}
		return
	}
	st.mem[addr] = v
}

func (x *Exec) storeElem(st *State, addr, v *Term, weak bool, ctx *Ctx, at ssa.Instruction) {
	base, idx := addr.args[0], addr.args[1]
	elem := derefType(addr.typ)
	star := x.star(base, elem)
	if sv := st.mem[star]; isContent(sv) {
		// a buffer with library-provided contents is being modified: contents become unknown
		st.mem[star] = x.u.Sym(elem, "mod", ctx, at, "", 0)
	}
	_, isConst := idx.isIntConst()
	if weak {
		if o, ok := st.mem[star]; ok {
			st.mem[star] = x.joinTerm(st, st, st, o, v, ctx, at, "weak", star, 1)
		} else {
			st.mem[star] = v
		}
		return
	}
	if !isConst {
		for _, k := range sortedTerms(st.mem) {
			if k.op == OIndexAddr && len(k.args) == 2 && k.args[0] == base && k != addr {
				if _, c := k.args[1].isIntConst(); c {
					st.mem[k] = x.joinTerm(st, st, st, st.mem[k], v, ctx, at, "weak", k, 1)
				} else {
					delete(st.mem, k)
				}
			}
		}
		if o, ok := st.mem[star]; ok {
			st.mem[star] = x.joinTerm(st, st, st, o, v, ctx, at, "weak", star, 1)
		} else {
			st.mem[star] = v
		}
	} else {
		for _, k := range sortedTerms(st.mem) {
			if k.op == OIndexAddr && len(k.args) == 2 && k.args[0] == base && k != addr {
				if _, c := k.args[1].isIntConst(); !c {
					delete(st.mem, k)
				}
			}
		}
	}
	st.mem[addr] = v
}

// aliasStore updates cells that may be the same location under another name.
func (x *Exec) aliasStore(st *State, addr, v *Term, ctx *Ctx, at ssa.Instruction) {
	if addr.op != OFieldAddr && addr.op != OSym && addr.op != OInit {
		return
	}
	upd := func(k *Term) {
		o, ok := st.mem[k]
		if !ok {
			if k.root().op == OAlloc && !k.root().sym.old && k.typ != nil {
				o = x.load(st, k, derefType(k.typ))
			} else if k.root().op == OAlloc {
				st.mem[k] = v
				return
			} else {
				return
			}
		}
		if o != v {
			st.mem[k] = x.joinTerm(st, st, st, o, v, ctx, at, "alias", k, 1)
		}
	}
	if addr.op == OSym || addr.op == OInit {
		for _, p := range x.pointees(st, addr) {
			upd(p)
		}
		return
	}
	b := addr.args[0]
	for _, p := range x.pointees(st, b) {
		upd(x.u.FieldAddr(p, addr.idx))
	}
	bs := structOf(b.typ)
	if b.op == OAlloc && !b.sym.old {
		// names of this object: symbols that may stand for it
		for _, k := range sortedTerms(st.mem) {
			if k.op != OFieldAddr || k.idx != addr.idx || k.args[0] == b || k.args[0].op == OAlloc {
				continue
			}
			for _, p := range x.pointees(st, k.args[0]) {
				if p == b {
					upd(k)
				}
			}
		}
		return
	}
	for _, k := range sortedTerms(st.mem) {
		if k.op != OFieldAddr || k.idx != addr.idx || k == addr || k.args[0].op == OAlloc {
			continue
		}
		if ks := structOf(k.args[0].typ); ks == nil || bs == nil || !types.Identical(ks, bs) {
			continue
		}
		upd(k)
	}
}

// havoc forgets the contents of the objects reachable from a pointer handed to library code.
func (x *Exec) havoc(st *State, p *Term, fr *Frame, in ssa.Instruction, seen map[*Term]bool) {
	if p == nil || seen[p] || p.typ == nil {
		return
	}
	seen[p] = true
	switch p.op {
	case OIface, OConv:
		x.havoc(st, p.args[0], fr, in, seen)
		return
	case OObj, OTuple:
		for _, a := range p.args {
			x.havoc(st, a, fr, in, seen)
		}
		return
	case OStruct:
		for _, a := range p.args {
			x.havoc(st, a, fr, in, seen)
		}
		return
	}
	root := p.root()
	if p.op == OSlice {
		root = p.args[0].root()
	}
	if root.op != OAlloc && root.op != OSym && root.op != OInit {
		return
	}
	if _, isPtr := p.typ.Underlying().(*types.Pointer); !isPtr && p.op != OSlice {
		return
	}
	// only module-visible mutable state matters
	n := 0
	for _, k := range sortedTerms(st.mem) {
		if k.op == OPure {
			continue
		}
		if k.root() == root && (p.op == OSlice || inside(k, p)) {
			o := st.mem[k]
			if o == nil || o.typ == nil {
				continue
			}
			if !isBasicLike(o.typ) {
				x.havoc(st, o, fr, in, seen)
				continue
			}
			n++
			st.mem[k] = x.u.Sym(o.typ, "havoc", fr.ctx, in, fmt.Sprint(k.id), 0)
		}
	}
	if root.op == OAlloc && !root.sym.old {
		// cells that were never written hold anything now: basic typed fields only
		x.havocZero(st, p, fr, in)
	}
}

func isBasicLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Array:
		return true
	}
	return false
}

func inside(k, p *Term) bool {
	for {
		if k == p {
			return true
		}
		if k.op == OFieldAddr || k.op == OIndexAddr {
			k = k.args[0]
			continue
		}
		return false
	}
}

func (x *Exec) havocZero(st *State, p *Term, fr *Frame, in ssa.Instruction) {
	t := derefType(p.typ)
	if t == nil {
		return
	}
	x.forLeaves(p, t, func(a *Term, lt types.Type) {
		if _, ok := st.mem[a]; !ok && isBasicLike(lt) {
			st.mem[a] = x.u.Sym(lt, "havoc", fr.ctx, in, fmt.Sprint(a.id), 0)
		}
	})
}

func (x *Exec) forLeaves(a *Term, t types.Type, f func(*Term, types.Type)) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			x.forLeaves(x.u.FieldAddr(a, i), s.Field(i).Type(), f)
		}
		return
	}
	f(a, t)
}

// ---- execution --------------------------------------------------------------

type work struct {
	b, pred *ssa.BasicBlock
	fr      *Frame
	st      *State
}

type headState struct {
	env   map[ssa.Value]*Term
	st    *State
	round int
}

// activation explores one function body.
type activation struct {
	x     *Exec
	info  *fnInfo
	list  []*work
	heads map[string]*headState
	outs  []Outcome
}

func (x *Exec) inline(parent *Frame, st *State, fn *ssa.Function, args, binds []*Term, ctx *Ctx) []Outcome {
	fr := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, parent: parent}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = x.u.Sym(p.Type(), "param", ctx, nil, p.Name(), 0)
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}
	x.funcs[fn] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	a := &activation{x: x, info: x.fnInfo(fn), heads: map[string]*headState{}}
	a.push(&work{b: fn.Blocks[0], fr: fr, st: st})
	for len(a.list) > 0 && !x.over {
		// lowest block first
		bi := 0
		for i, w := range a.list {
			if a.info.rpo[w.b] < a.info.rpo[a.list[bi].b] {
				bi = i
			}
		}
		b := a.list[bi].b
		var batch []*work
		var rest []*work
		for _, w := range a.list {
			if w.b == b {
				batch = append(batch, w)
			} else {
				rest = append(rest, w)
			}
		}
		a.list = rest
		a.runBatch(b, batch)
	}
	for _, o := range a.outs {
		below := func(s *Sym) bool { return s.under(ctx, nil) }
		x.collect(o.st, below, x.liveRoots(parent, o.res, args, binds))
	}
	return x.mergeOutcomes(a.outs, ctx, fn)
}

// liveRoots: callee objects can only be live through results, arguments and memory.
func (x *Exec) liveRoots(parent *Frame, res *Term, args, binds []*Term) []*Term {
	r := append([]*Term{}, args...)
	r = append(r, binds...)
	if res != nil {
		r = append(r, res)
	}
	return r
}

func (a *activation) push(w *work) { a.list = append(a.list, w) }

// phiEnv evaluates the phis of b for a transition from pred.
func (a *activation) enter(w *work) {
	if w.pred == nil {
		return
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range w.b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range w.b.Preds {
			if p == w.pred {
				vals = append(vals, a.x.val(w.fr, phi.Edges[i]))
				phis = append(phis, phi)
				break
			}
		}
	}
	for i, phi := range phis {
		w.fr.env[phi] = vals[i]
	}
}

const mergeThreshold = 12

func (a *activation) runBatch(b *ssa.BasicBlock, batch []*work) {
	x := a.x
	loop := a.info.loops[b]
	for _, w := range batch {
		a.enter(w)
	}
	if loop == nil {
		if len(batch) > mergeThreshold && !x.noMerge {
			batch = a.mergeBatch(b, batch)
		}
		for _, w := range batch {
			a.runFrom(w.fr, w.st, b, 0)
		}
		return
	}
	var keep []ssa.Value
	for v := range a.info.live[b] {
		keep = append(keep, v)
	}
	for _, in := range b.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			keep = append(keep, phi)
		} else {
			break
		}
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].Name() < keep[j].Name() })
	for _, w := range batch {
		x.tick()
		back := w.pred != nil && loop[w.pred]
		if back {
			x.obs.Back(x, w.fr, w.st, b)
			if a.unrollable(b, w) {
				// decided by constants: continue without joining
				if w.fr.unroll == nil {
					w.fr.unroll = map[*ssa.BasicBlock]int{}
				}
				w.fr.unroll[b]++
				w = a.retire(w, loop, keep)
				a.runFrom(w.fr, w.st, b, 0)
				continue
			}
			w = a.retire(w, loop, keep)
			// inner loops start afresh
			for k, h := range a.heads {
				_ = h
				for hb := range loop {
					if hb != b && strings.HasPrefix(k, fmt.Sprintf("%d|", hb.Index)) {
						delete(a.heads, k)
					}
				}
			}
		} else if w.fr.unroll != nil {
			delete(w.fr.unroll, b)
		}
		key := fmt.Sprintf("%d|%s|%d", b.Index, w.st.propKey(), len(w.fr.defers))
		h, ok := a.heads[key]
		if !ok {
			a.heads[key] = &headState{env: cloneMap(w.fr.env), st: w.st.clone(), round: 1}
			a.runFrom(w.fr, w.st, b, 0)
			continue
		}
		// Recursive data structures: fold the joined values of the previous round.
		h.round++
		js, je, _ := x.joinStates(h.st, w.st, h.env, w.fr.env, keep, w.fr.ctx, b.Instrs[0], "loop", h.round, nil, nil)
		var roots []*Term
		for _, v := range keep {
			roots = append(roots, je[v])
		}
		for _, d := range w.fr.defers {
			roots = append(append(roots, d.fnv), d.args...)
		}
		x.collect(js, func(s *Sym) bool { return s.under(w.fr.ctx, loop) }, roots)
		if x.sameState(h.st, js, h.env, je, keep) {
			continue
		}
		if h.round > 60 {
			x.over = true
			x.obs.Alarm(x, w.fr, w.st, "limit", "loop analysis does not converge", b.Instrs[0])
			return
		}
		if x.debug && h.round > 40 {
			x.dumpDiff(h.st, js, h.env, je, keep, w.fr.fn, b)
		}
		// env values outside keep that are still defined identically are dropped
		h.st, h.env = js.clone(), cloneMap(je)
		nf := w.fr.clone()
		nf.env = je
		a.runFrom(nf, js, b, 0)
	}
}

func (x *Exec) dumpDiff(a, b *State, ea, eb map[ssa.Value]*Term, keep []ssa.Value, fn *ssa.Function, blk *ssa.BasicBlock) {
	fmt.Fprintf(os.Stderr, "no fixpoint yet in %s block %d\n", fn, blk.Index)
	for _, v := range keep {
		if ea[v] != eb[v] {
			fmt.Fprintf(os.Stderr, "  env %s: %v -> %v\n", v.Name(), ea[v], eb[v])
		}
	}
	for k, v := range b.mem {
		if a.mem[k] != v {
			fmt.Fprintf(os.Stderr, "  mem %v: %v -> %v\n", k, a.mem[k], v)
		}
	}
	for k, v := range a.mem {
		if _, ok := b.mem[k]; !ok {
			fmt.Fprintf(os.Stderr, "  mem gone %v: %v\n", k, v)
		}
	}
	for k, f := range b.abs {
		if g, ok := a.abs[k]; !ok || !sameAbs(f, g) {
			fmt.Fprintf(os.Stderr, "  abs %v: %v -> %v\n", k, a.abs[k], f)
		}
	}
	for k, f := range a.abs {
		if _, ok := b.abs[k]; !ok {
			fmt.Fprintf(os.Stderr, "  abs gone %v: %v\n", k, f)
		}
	}
	for k, f := range b.alts {
		if len(a.alts[k]) != len(f) {
			fmt.Fprintf(os.Stderr, "  alts %v: %v -> %v\n", k, a.alts[k], f)
		}
	}
	for k := range a.alts {
		if _, ok := b.alts[k]; !ok {
			fmt.Fprintf(os.Stderr, "  alts gone %v\n", k)
		}
	}
	for k, c := range a.rel {
		if d, ok := b.rel[k]; !ok || c != d {
			fmt.Fprintf(os.Stderr, "  rel %v - %v <= %d -> %d %v\n", k.a, k.b, c, d, ok)
		}
	}
}

// retire renames the symbols made by the finished iteration.
func (a *activation) retire(w *work, loop map[*ssa.BasicBlock]bool, keep []ssa.Value) *work {
	x := a.x
	ctx := w.fr.ctx
	f := func(s *Sym) *Sym {
		if !s.old && s.under(ctx, loop) && s.kind != "join" {
			return x.u.symbol(s.kind, s.ctx, s.instr, s.name, s.idx, true)
		}
		return s
	}
	st, sub := x.rename(w.st, f, ctx, w.b.Instrs[0])
	fr := w.fr.clone()
	env := map[ssa.Value]*Term{}
	for _, v := range keep {
		if t, ok := fr.env[v]; ok {
			env[v] = sub(t)
		}
	}
	fr.env = env
	for i := range fr.defers {
		d := &fr.defers[i]
		d.fnv = sub(d.fnv)
		na := make([]*Term, len(d.args))
		for j := range d.args {
			na[j] = sub(d.args[j])
		}
		d.args = na
	}
	// forget facts about values nothing refers to
	var roots []*Term
	for _, v := range keep {
		roots = append(roots, env[v])
	}
	for _, d := range fr.defers {
		roots = append(append(roots, d.fnv), d.args...)
	}
	x.collect(st, func(s *Sym) bool { return s.under(ctx, loop) }, roots)
	return &work{b: w.b, pred: w.pred, fr: fr, st: st}
}

func (a *activation) unrollable(b *ssa.BasicBlock, w *work) bool {
	x := a.x
	if w.fr.unroll[b] >= 40 {
		return false
	}
	// a map/string iterator with known position
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			it := x.val(w.fr, n.Iter)
			if _, ok := w.st.mem[x.u.Pure(types.Typ[types.Int], "rangepos", it)]; ok {
				return true
			}
		}
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	hasInd := false
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t := w.fr.env[phi]; t != nil && t.op == OConst && t.val != nil && t.val.Kind() == constant.Int {
			hasInd = true
		}
	}
	if !hasInd {
		return false
	}
	// evaluate the pure header
	fr := w.fr.clone()
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.BinOp:
			fr.env[in] = x.u.Bin(in.Op, in.Type(), x.val(fr, in.X), x.val(fr, in.Y))
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				fr.env[in] = x.u.Len(x.val(fr, in.Call.Args[0]))
			} else {
				return false
			}
		default:
			return false
		}
	}
	c := x.val(fr, iff.Cond)
	_, isC := c.boolConst()
	return isC
}

// mergeBatch joins states with equal keys at an ordinary join point.
func (a *activation) mergeBatch(b *ssa.BasicBlock, batch []*work) []*work {
	x := a.x
	var keep []ssa.Value
	for v := range a.info.live[b] {
		keep = append(keep, v)
	}
	for _, in := range b.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			keep = append(keep, phi)
		} else {
			break
		}
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].Name() < keep[j].Name() })
	groups := map[string]*work{}
	var order []string
	for _, w := range batch {
		key := w.st.propKey() + fmt.Sprint(len(w.fr.defers))
		for _, v := range keep { // keep error/nil correlations apart
			if t := w.fr.env[v]; t != nil {
				key += "|" + x.classOf(w.st, t)
			}
		}
		g, ok := groups[key]
		if !ok {
			groups[key] = w
			order = append(order, key)
			continue
		}
		js, je, _ := x.joinStates(g.st, w.st, g.fr.env, w.fr.env, keep, w.fr.ctx, b.Instrs[0], "jn", 1, nil, nil)
		nf := w.fr.clone()
		nf.env = je
		groups[key] = &work{b: b, pred: w.pred, fr: nf, st: js}
	}
	var out []*work
	for _, k := range order {
		out = append(out, groups[k])
	}
	return out
}

// classOf abstracts a value for the purpose of keeping outcomes apart.
func (x *Exec) classOf(st *State, t *Term) string {
	if t == nil {
		return "-"
	}
	if t.op == OTuple {
		s := ""
		for _, a := range t.args {
			s += x.classOf(st, a) + ","
		}
		return s
	}
	if t.typ == nil {
		return "-"
	}
	if isBool(t.typ) {
		return fmt.Sprint("b", x.absOf(st, t).truth)
	}
	if isNilable(t.typ) {
		a := x.absOf(st, t)
		if isError(t.typ) && a.nilness == 2 {
			// keep sentinels apart
			return "e:" + strings.Join(x.sentinels(st, t), "+")
		}
		if t.op == OIface {
			return "n2:" + x.u.tkey(t.args[0].typ)
		}
		return fmt.Sprint("n", a.nilness)
	}
	return "."
}

func (x *Exec) mergeOutcomes(outs []Outcome, ctx *Ctx, fn *ssa.Function) []Outcome {
	if len(outs) <= 1 || x.noMerge {
		return outs
	}
	groups := map[string]*Outcome{}
	var order []string
	for i := range outs {
		o := outs[i]
		key := o.st.propKey() + "|" + x.classOf(o.st, o.res)
		g, ok := groups[key]
		if !ok {
			groups[key] = &o
			order = append(order, key)
			continue
		}
		var ea, eb []*Term
		if g.res != nil {
			ea, eb = []*Term{g.res}, []*Term{o.res}
		}
		at := fn.Blocks[0].Instrs[0]
		js, _, ex := x.joinStates(g.st, o.st, nil, nil, nil, ctx, at, "out"+key, 1, ea, eb)
		n := &Outcome{st: js}
		if len(ex) > 0 {
			n.res = ex[0]
		}
		groups[key] = n
	}
	var r []Outcome
	for _, k := range order {
		r = append(r, *groups[k])
	}
	return r
}

func (x *Exec) tick() {
	x.steps++
	if x.steps > x.limit && !x.over {
		x.over = true
		x.obs.Alarm(x, nil, nil, "limit", "analysis budget exceeded", nil)
	}
}

// runFrom interprets block b from instruction i.
func (a *activation) runFrom(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	x := a.x
	u := x.u
	for ; i < len(b.Instrs); i++ {
		if x.over {
			return
		}
		x.tick()
		in := b.Instrs[i]
		x.obs.Instr(x, fr, st, in)
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			t := u.mk(Term{op: OAlloc, typ: in.Type(), sym: u.symbol("alloc", fr.ctx, in, in.Comment, 0, false)})
			for k := range st.mem {
				if rootOfCell(k) == t {
					delete(st.mem, k)
				}
			}
			x.zeroFields(st, t, in.Type().Underlying().(*types.Pointer).Elem(), 0)
			fr.env[in] = t
		case *ssa.BinOp:
			l, r := x.val(fr, in.X), x.val(fr, in.Y)
			fr.env[in] = x.binop(st, in.Op, in.Type(), l, r)
		case *ssa.UnOp:
			v := x.val(fr, in.X)
			switch in.Op {
			case token.MUL:
				fr.env[in] = x.load(st, v, in.Type())
			case token.NOT:
				fr.env[in] = u.Not(v)
			case token.SUB:
				if c, ok := v.isIntConst(); ok {
					fr.env[in] = u.Bin(token.SUB, in.Type(), u.Int(in.Type(), 0), u.Big(in.Type(), c))
				} else {
					fr.env[in] = u.mk(Term{op: OUn, typ: in.Type(), aux: "-", args: []*Term{v}})
				}
			case token.XOR:
				if c, ok := v.isIntConst(); ok {
					m := typeMask(in.Type())
					_ = m
					all := u.Big(in.Type(), wrapInt(bigMinus1, in.Type()))
					fr.env[in] = u.Bin(token.XOR, in.Type(), u.Big(in.Type(), c), all)
				} else {
					fr.env[in] = u.mk(Term{op: OUn, typ: in.Type(), aux: "^", args: []*Term{v}})
				}
			default:
				fr.env[in] = u.Sym(in.Type(), "recv", fr.ctx, in, "", 0)
			}
		case *ssa.Convert:
			fr.env[in] = x.convert(st, in.Type(), x.val(fr, in.X))
		case *ssa.ChangeType:
			v := x.val(fr, in.X)
			if v.op == OConst && v.val == nil {
				v = u.Nil(in.Type())
			} else if isInt(in.Type()) && isInt(v.typ) || isString(in.Type()) {
				v = u.Conv(in.Type(), v)
			}
			fr.env[in] = v
		case *ssa.ChangeInterface:
			v := x.val(fr, in.X)
			fr.env[in] = v
		case *ssa.MultiConvert:
			fr.env[in] = x.convert(st, in.Type(), x.val(fr, in.X))
		case *ssa.SliceToArrayPointer:
			fr.env[in] = u.Pure(in.Type(), "toarray", x.val(fr, in.X))
		case *ssa.MakeInterface:
			fr.env[in] = u.mk(Term{op: OIface, typ: in.Type(), args: []*Term{x.val(fr, in.X)}})
		case *ssa.MakeClosure:
			var bs []*Term
			for _, v := range in.Bindings {
				bs = append(bs, x.val(fr, v))
			}
			fr.env[in] = u.mk(Term{op: OClosure, typ: in.Type(), fn: in.Fn.(*ssa.Function), args: bs})
		case *ssa.MakeMap:
			t := u.mk(Term{op: OAlloc, typ: in.Type(), sym: u.symbol("map", fr.ctx, in, "map", 0, false)})
			for k := range st.mem {
				if rootOfCell(k) == t {
					delete(st.mem, k)
				}
			}
			st.mem[x.mapn(t)] = u.Int(types.Typ[types.Int], 0)
			fr.env[in] = t
		case *ssa.MakeSlice:
			fr.env[in] = x.makeSlice(st, fr, in, in.Type(), x.val(fr, in.Len), x.val(fr, in.Cap))
		case *ssa.MakeChan:
			fr.env[in] = u.mk(Term{op: OAlloc, typ: in.Type(), sym: u.symbol("chan", fr.ctx, in, "chan", 0, false)})
		case *ssa.FieldAddr:
			fr.env[in] = x.fieldAddr(st, x.val(fr, in.X), in.Field)
		case *ssa.Field:
			fr.env[in] = u.Field(x.val(fr, in.X), in.Field)
		case *ssa.IndexAddr:
			fr.env[in] = x.indexAddr(x.val(fr, in.X), x.val(fr, in.Index), derefType(in.Type()))
		case *ssa.Index:
			fr.env[in] = x.index(st, x.val(fr, in.X), x.val(fr, in.Index), in.Type())
		case *ssa.Slice:
			fr.env[in] = x.slice(st, fr, in)
		case *ssa.Extract:
			t := x.val(fr, in.Tuple)
			if t.op == OTuple && in.Index < len(t.args) {
				fr.env[in] = t.args[in.Index]
			} else {
				fr.env[in] = u.Sym(in.Type(), "extract", fr.ctx, in, "", in.Index)
			}
		case *ssa.Store:
			addr, v := x.val(fr, in.Addr), x.val(fr, in.Val)
			x.obs.Store(x, fr, st, addr, v, in)
			x.store(st, addr, v, fr.ctx, in)
		case *ssa.MapUpdate:
			m := x.val(fr, in.Map)
			k, v := x.val(fr, in.Key), x.val(fr, in.Value)
			x.obs.Store(x, fr, st, u.Pure(types.NewPointer(v.typOr(in.Value.Type())), "mapat", m, k), v, in)
			x.mapUpdate(st, fr, in, m, k, v)
		case *ssa.Lookup:
			a.fork(fr, st, b, i, in, x.lookup(st, fr, in))
			return
		case *ssa.Range:
			m := x.val(fr, in.X)
			it := u.mk(Term{op: OObj, typ: types.Typ[types.Int], aux: "range", sym: u.symbol("range", fr.ctx, in, "", 0, false), args: []*Term{m}})
			if _, ok := x.mapExact(st, m); ok {
				st.mem[u.Pure(types.Typ[types.Int], "rangepos", it)] = u.Int(types.Typ[types.Int], 0)
			}
			fr.env[in] = it
		case *ssa.Next:
			a.fork(fr, st, b, i, in, x.next(st, fr, in))
			return
		case *ssa.TypeAssert:
			a.fork(fr, st, b, i, in, x.typeAssert(st, fr, in))
			return
		case *ssa.Call:
			outs := x.call(fr, st, in, &in.Call)
			a.fork(fr, st, b, i, in, outs)
			return
		case *ssa.Go:
			outs := x.call(fr, st, in, &in.Call)
			a.fork(fr, st, b, i, nil, outs)
			return
		case *ssa.Defer:
			d := deferred{in: in}
			if in.Call.IsInvoke() {
				d.args = append(d.args, x.val(fr, in.Call.Value))
			} else {
				d.fnv = x.val(fr, in.Call.Value)
			}
			for _, v := range in.Call.Args {
				d.args = append(d.args, x.val(fr, v))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				for _, o := range x.runDefers(fr, st) {
					nf := fr.clone()
					nf.defers = nil
					a.runFrom(nf, o.st, b, i+1)
				}
				return
			}
		case *ssa.Panic:
			x.obs.Alarm(x, fr, st, "panic", "explicit panic", in)
			return
		case *ssa.Return:
			var res *Term
			switch len(in.Results) {
			case 0:
			case 1:
				res = x.val(fr, in.Results[0])
			default:
				var rs []*Term
				for _, r := range in.Results {
					rs = append(rs, x.val(fr, r))
				}
				res = u.Tuple(rs...)
			}
			x.obs.Return(x, fr, st, res, in)
			a.outs = append(a.outs, Outcome{st, res})
			if len(a.outs) > 64 && !x.noMerge {
				a.outs = x.mergeOutcomes(a.outs, fr.ctx, fr.fn)
			}
			return
		case *ssa.Jump:
			a.push(&work{b: b.Succs[0], pred: b, fr: fr, st: st})
			return
		case *ssa.If:
			c := x.val(fr, in.Cond)
			tr := x.absOf(st, c).truth
			for k, s := range b.Succs {
				val := k == 0
				if tr == 1 && !val || tr == 2 && val {
					continue
				}
				nst, nfr := st, fr
				if tr == 0 {
					nst, nfr = st.clone(), fr.clone()
					if !x.assume(nst, c, val) {
						continue
					}
				}
				if in.Cond.Pos().IsValid() || true {
					nst.note(instrPos(in), fmt.Sprintf("%v is %v", c, val))
				}
				a.push(&work{b: s, pred: b, fr: nfr, st: nst})
			}
			return
		case *ssa.Send:
		case *ssa.Select:
			fr.env[in] = u.Sym(in.Type(), "select", fr.ctx, in, "", 0)
		default:
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = u.Sym(v.Type(), "unsupported", fr.ctx, in, "", 0)
			}
		}
	}
}

var bigMinus1 = bigOf(constant.MakeInt64(-1))

func (t *Term) typOr(d types.Type) types.Type {
	if t.typ != nil {
		return t.typ
	}
	return d
}

// fork continues with every outcome of an instruction.
func (a *activation) fork(fr *Frame, st *State, b *ssa.BasicBlock, i int, v ssa.Value, outs []Outcome) {
	for k, o := range outs {
		nf := fr
		if k < len(outs)-1 {
			nf = fr.clone()
		}
		if v != nil && o.res != nil {
			nf.env[v] = o.res
		}
		a.runFrom(nf, o.st, b, i+1)
	}
}

func (x *Exec) binop(st *State, op token.Token, typ types.Type, l, r *Term) *Term {
	// comparisons against nil of interface values etc. are handled by evaluation
	if (op == token.EQL || op == token.NEQ) && l.typ != nil && r.typ != nil {
		// string(b) == "const" on known contents
		if _, ok := l.typ.Underlying().(*types.Struct); ok {
			t := x.u.Pure(typ, "structeq", l, r)
			if l == r {
				t = x.u.Bool(true)
			}
			if op == token.NEQ {
				return x.u.Not(t)
			}
			return t
		}
	}
	if l.typ != nil && r.typ != nil && isInt(l.typ) && isInt(r.typ) && isInt(typ) {
		// value known by the facts of the path
		if v, ok := x.singleton(st, l); ok {
			l = v
		}
		if v, ok := x.singleton(st, r); ok {
			r = v
		}
	}
	return x.u.Bin(op, typ, l, r)
}

func (x *Exec) singleton(st *State, t *Term) (*Term, bool) {
	if t.op == OConst {
		return t, true
	}
	a := x.absOf(st, t)
	if a.lo != nil && a.hi != nil && a.lo.Cmp(a.hi) == 0 {
		return x.u.Big(t.typ, a.lo), true
	}
	return nil, false
}

func (x *Exec) convert(st *State, typ types.Type, v *Term) *Term {
	if isString(typ) && isByteSlice(v.typ) {
		// snapshot of known contents
		if v.op == OSlice {
			base := v.args[0]
			if c := st.mem[x.star(base, elemType(v.typ))]; isContent(c) {
				lo := x.u.Conv(types.Typ[types.Int], v.args[1])
				n := x.u.Conv(types.Typ[types.Int], v.args[2])
				return x.u.Pure(typ, "bytes", c, lo, x.u.Bin(token.ADD, types.Typ[types.Int], lo, n))
			}
		}
		if v.op == OConv && isString(v.args[0].typ) {
			return v.args[0]
		}
	}
	return x.u.Conv(typ, v)
}

func (x *Exec) fieldAddr(st *State, base *Term, f int) *Term {
	return x.u.FieldAddr(base, f)
}

func (x *Exec) makeSlice(st *State, fr *Frame, in ssa.Instruction, typ types.Type, n, c *Term) *Term {
	elem := elemType(typ)
	p := x.u.mk(Term{op: OAlloc, typ: types.NewPointer(types.NewArray(elem, -1)), sym: x.u.symbol("alloc", fr.ctx, in, "makeslice", 0, false)})
	for k := range st.mem {
		if rootOfCell(k) == p {
			delete(st.mem, k)
		}
	}
	it := types.Typ[types.Int]
	n = x.u.Conv(it, n)
	if cn, ok := n.isIntConst(); !ok || cn.Sign() != 0 {
		st.mem[x.star(p, elem)] = x.u.Zero(elem)
	}
	return x.u.mk(Term{op: OSlice, typ: typ, args: []*Term{p, x.u.Int(it, 0), n, x.u.Conv(it, c)}})
}

func (x *Exec) indexAddr(base, idx *Term, elem types.Type) *Term {
	it := types.Typ[types.Int]
	if base.op == OSlice {
		return x.u.IndexAddr(base.args[0], x.u.Bin(token.ADD, it, base.args[1], x.u.Conv(it, idx)), elem)
	}
	return x.u.IndexAddr(base, x.u.Conv(it, idx), elem)
}

func (x *Exec) index(st *State, v, idx *Term, typ types.Type) *Term {
	it := types.Typ[types.Int]
	if s, ok := v.strConst(); ok {
		if c, ok := idx.isIntConst(); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() < int64(len(s)) {
			return x.u.Int(typ, int64(s[c.Int64()]))
		}
	}
	if v.op == OPure && v.aux == "bytes" {
		return x.byteAt(v.args[0], x.u.Bin(token.ADD, it, v.args[1], x.u.Conv(it, idx)))
	}
	return x.u.Pure(typ, "strat", v, x.u.Conv(it, idx))
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) *Term {
	u := x.u
	it := types.Typ[types.Int]
	v := x.val(fr, in.X)
	lo := u.Int(it, 0)
	if in.Low != nil {
		lo = u.Conv(it, x.val(fr, in.Low))
	}
	if isString(in.Type()) {
		hi := u.Len(v)
		if in.High != nil {
			hi = u.Conv(it, x.val(fr, in.High))
		}
		if s, ok := v.strConst(); ok {
			if a, ok := lo.isIntConst(); ok {
				if b, ok := hi.isIntConst(); ok && a.Sign() >= 0 && a.Cmp(b) <= 0 && b.Int64() <= int64(len(s)) {
					return u.Const(in.Type(), constant.MakeString(s[a.Int64():b.Int64()]))
				}
			}
		}
		if c, ok := lo.isIntConst(); ok && c.Sign() == 0 && in.High == nil {
			return v
		}
		if v.op == OPure && v.aux == "bytes" {
			return u.Pure(in.Type(), "bytes", v.args[0], u.Bin(token.ADD, it, v.args[1], lo), u.Bin(token.ADD, it, v.args[1], hi))
		}
		return u.Pure(in.Type(), "substr", v, lo, hi)
	}
	ptr, off, n, c := v, u.Int(it, 0), u.Len(v), u.mk(Term{op: OCap, typ: it, args: []*Term{v}})
	if v.op == OSlice {
		ptr, off, n, c = v.args[0], v.args[1], v.args[2], v.args[3]
	} else if _, ok := v.typ.Underlying().(*types.Pointer); ok {
		c = n
	}
	hi := n
	if in.High != nil {
		hi = u.Conv(it, x.val(fr, in.High))
	}
	mx := c
	if in.Max != nil {
		mx = u.Conv(it, x.val(fr, in.Max))
	}
	if v.isNil() {
		return v
	}
	if lc, ok := lo.isIntConst(); ok && lc.Sign() == 0 && in.High == nil && in.Max == nil && v.op != OAlloc {
		if _, isS := v.typ.Underlying().(*types.Slice); isS {
			return v
		}
	}
	return u.mk(Term{op: OSlice, typ: in.Type(), args: []*Term{ptr, u.Bin(token.ADD, it, off, lo), u.Bin(token.SUB, it, hi, lo), u.Bin(token.SUB, it, mx, lo)}})
}

// ---- maps -------------------------------------------------------------------

func (x *Exec) mapn(m *Term) *Term { return x.u.Pure(types.Typ[types.Int], "mapn", m) }
func (x *Exec) mapkey(m *Term) *Term {
	return x.u.Pure(m.typ.Underlying().(*types.Map).Key(), "mapkey", m)
}
func (x *Exec) mapval(m *Term) *Term {
	return x.u.Pure(m.typ.Underlying().(*types.Map).Elem(), "mapval", m)
}
func (x *Exec) mapat(m, k *Term) *Term {
	return x.u.Pure(m.typ.Underlying().(*types.Map).Elem(), "mapat", m, k)
}
func (x *Exec) mapabsent(m, k *Term) *Term {
	return x.u.Pure(types.Typ[types.Bool], "mapabsent", m, k)
}
func (x *Exec) mapent(m *Term, i int, what string) *Term {
	mt := m.typ.Underlying().(*types.Map)
	t := mt.Elem()
	if what == "entk" {
		t = mt.Key()
	}
	return x.u.PureI(t, what, i, m)
}

// mapExact returns the number of entries of a map whose contents are known exactly.
func (x *Exec) mapExact(st *State, m *Term) (int, bool) {
	if m.isNil() {
		return 0, true
	}
	if n, ok := st.mem[x.mapn(m)]; ok && n != nil {
		if c, ok := n.isIntConst(); ok {
			return int(c.Int64()), true
		}
	}
	return 0, false
}

func distinctKey(k *Term) bool {
	return k.op == OConst || k.op == OAlloc || k.op == OFieldAddr || k.op == OGlobal
}

func (x *Exec) mapUpdate(st *State, fr *Frame, in ssa.Instruction, m, k, v *Term) {
	it := types.Typ[types.Int]
	var targets []*Term
	if m.op == OAlloc {
		targets = []*Term{m}
	} else {
		targets = append(targets, m)
		targets = append(targets, x.pointees(st, m)...)
	}
	for _, t := range targets {
		if _, ok := t.typ.Underlying().(*types.Map); !ok {
			continue
		}
		if n, ok := x.mapExact(st, t); ok && t.op == OAlloc && !t.sym.old && distinctKey(k) && n < 32 && t == m {
			done := false
			for i := 0; i < n; i++ {
				if st.mem[x.mapent(t, i, "entk")] == k {
					st.mem[x.mapent(t, i, "entv")] = v
					done = true
				}
			}
			if !done {
				st.mem[x.mapent(t, n, "entk")] = k
				st.mem[x.mapent(t, n, "entv")] = v
				st.mem[x.mapn(t)] = x.u.Int(it, int64(n+1))
			}
			continue
		}
		x.weakenMap(st, fr, in, t)
		for _, c := range []struct{ cell, v *Term }{{x.mapkey(t), k}, {x.mapval(t), v}} {
			if o, ok := st.mem[c.cell]; ok && o != nil {
				st.mem[c.cell] = x.joinTerm(st, st, st, o, c.v, fr.ctx, in, "map", c.cell, 1)
			} else if t.op == OAlloc {
				st.mem[c.cell] = c.v
			}
		}
		// bindings of other keys that may be equal
		for _, o := range sortedTerms(st.mem) {
			if o.op == OPure && (o.aux == "mapat" || o.aux == "mapabsent") && o.args[0] == t && o.args[1] != k {
				if o.args[1].op == OConst && k.op == OConst {
					continue
				}
				if x.absOf(st, x.u.Bin(token.EQL, types.Typ[types.Bool], o.args[1], k)).truth == 2 {
					continue
				}
				delete(st.mem, o)
			}
		}
		delete(st.mem, x.mapabsent(t, k))
		if t == m {
			st.mem[x.mapat(t, k)] = v
		}
	}
}

// weakenMap turns an exactly known map into a summarised one.
func (x *Exec) weakenMap(st *State, fr *Frame, in ssa.Instruction, m *Term) {
	n, ok := x.mapExact(st, m)
	if !ok || m.isNil() {
		delete(st.mem, x.mapn(m))
		return
	}
	var ks, vs []*Term
	for i := 0; i < n; i++ {
		k, v := st.mem[x.mapent(m, i, "entk")], st.mem[x.mapent(m, i, "entv")]
		ks, vs = append(ks, k), append(vs, v)
		delete(st.mem, x.mapent(m, i, "entk"))
		delete(st.mem, x.mapent(m, i, "entv"))
		st.mem[x.mapat(m, k)] = v
	}
	delete(st.mem, x.mapn(m))
	for i := range ks {
		for _, c := range []struct{ cell, v *Term }{{x.mapkey(m), ks[i]}, {x.mapval(m), vs[i]}} {
			if o, ok := st.mem[c.cell]; ok {
				st.mem[c.cell] = x.joinTerm(st, st, st, o, c.v, fr.ctx, in, "map", c.cell, 1)
			} else {
				st.mem[c.cell] = c.v
			}
		}
	}
}

// mapVals lists what a map may contain; ok is false if that is not known.
func (x *Exec) mapVals(st *State, m *Term, what string) ([]*Term, bool) {
	if m.isNil() {
		return nil, true
	}
	var al []*Term
	if ts := x.pointees(st, m); len(ts) > 0 {
		for _, t := range ts {
			if _, isM := t.typ.Underlying().(*types.Map); !isM {
				return nil, false
			}
			vs, ok := x.mapVals(st, t, what)
			if !ok {
				return nil, false
			}
			for _, v := range vs {
				al = addAlt(al, v)
			}
		}
		if v, ok := st.mem[x.u.Pure(nil, "none")]; ok {
			_ = v
		}
		return al, true
	}
	if n, ok := x.mapExact(st, m); ok {
		e := "entv"
		if what == "mapkey" {
			e = "entk"
		}
		for i := 0; i < n; i++ {
			al = addAlt(al, st.mem[x.mapent(m, i, e)])
		}
		return al, true
	}
	c := x.mapval(m)
	if what == "mapkey" {
		c = x.mapkey(m)
	}
	if v, ok := st.mem[c]; ok && v != nil {
		return []*Term{v}, true
	}
	if m.op == OAlloc {
		return nil, true
	}
	return nil, false
}

func (x *Exec) elemOf(st *State, fr *Frame, in ssa.Instruction, typ types.Type, kind, name string, vals []*Term, known bool) *Term {
	if isStruct(typ) && known && len(vals) == 1 {
		return vals[0]
	}
	v := x.u.Sym(typ, kind, fr.ctx, in, name, 0)
	// facts of an earlier use of the symbol are void
	delete(st.abs, v)
	delete(st.alts, v)
	if known {
		var a Abs
		var al []*Term
		for i, t := range vals {
			b := x.absOf(st, t)
			if i == 0 {
				a = b
			} else {
				a = joinAbs(a, b)
			}
			al = addAlt(al, t)
		}
		if len(vals) > 0 && !a.top() {
			st.abs[v] = a
		}
		if len(al) > 0 && len(al) <= maxAlts && !isInt(typ) {
			st.alts[v] = al
		}
	}
	return v
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (x *Exec) isRangeKeyOf(st *State, k, m *Term) bool {
	if k.op == OSym && k.sym.kind == "rangekey" && (k.sym.name == fmt.Sprint(m.id)) {
		return true
	}
	if al, ok := st.alts[k]; ok && len(al) > 0 {
		for _, a := range al {
			if a == k || !x.isRangeKeyOf(st, a, m) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) []Outcome {
	u := x.u
	m, k := x.val(fr, in.X), x.val(fr, in.Index)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		return []Outcome{{st, x.index(st, m, k, in.Type())}}
	}
	elem := mt.Elem()
	mk := func(s *State, v *Term, found bool) Outcome {
		if in.CommaOk {
			return Outcome{s, u.Tuple(v, u.Bool(found))}
		}
		return Outcome{s, v}
	}
	if m.isNil() {
		return []Outcome{mk(st, u.Zero(elem), false)}
	}
	if n, ok := x.mapExact(st, m); ok {
		all := true
		for i := 0; i < n; i++ {
			e := st.mem[x.mapent(m, i, "entk")]
			if e == k {
				return []Outcome{mk(st, st.mem[x.mapent(m, i, "entv")], true)}
			}
			if !(distinctKey(e) && distinctKey(k)) {
				all = false
			}
		}
		if all {
			return []Outcome{mk(st, u.Zero(elem), false)}
		}
		// fork over the entries
		if n <= 16 {
			var outs []Outcome
			none := st.clone()
			feas := true
			for i := 0; i < n; i++ {
				e := st.mem[x.mapent(m, i, "entk")]
				c := u.Bin(token.EQL, types.Typ[types.Bool], k, e)
				s := st.clone()
				if x.assume(s, c, true) {
					outs = append(outs, mk(s, st.mem[x.mapent(m, i, "entv")], true))
				}
				feas = feas && x.assume(none, c, false)
			}
			if feas {
				outs = append(outs, mk(none, u.Zero(elem), false))
			}
			return outs
		}
	}
	if v, ok := st.mem[x.mapat(m, k)]; ok && v != nil {
		return []Outcome{mk(st, v, true)}
	}
	if _, ok := st.mem[x.mapabsent(m, k)]; ok {
		return []Outcome{mk(st, u.Zero(elem), false)}
	}
	vals, known := x.mapVals(st, m, "mapval")
	var outs []Outcome
	if !known || len(vals) > 0 {
		s := st.clone()
		v := x.elemOf(s, fr, in, elem, "lookup", "", vals, known)
		if !known && isNilable(elem) {
			// contents of a map nothing is known about are taken to be non-nil
			s.setNil(v, false)
		}
		s.mem[x.mapat(m, k)] = v
		outs = append(outs, mk(s, v, true))
	}
	if !x.isRangeKeyOf(st, k, m) {
		s := st.clone()
		s.mem[x.mapabsent(m, k)] = u.Bool(true)
		outs = append(outs, mk(s, u.Zero(elem), false))
	}
	return outs
}

func (x *Exec) next(st *State, fr *Frame, in *ssa.Next) []Outcome {
	u := x.u
	it := x.val(fr, in.Iter)
	tt := in.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if it.op != OObj {
		return []Outcome{{st, u.Tuple(u.Sym(types.Typ[types.Bool], "next", fr.ctx, in, "ok", 0), u.Sym(kt, "next", fr.ctx, in, "k", 0), u.Sym(vt, "next", fr.ctx, in, "v", 0))}}
	}
	m := it.args[0]
	zero := func(t types.Type) *Term {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return u.Nil(types.Typ[types.UntypedNil])
		}
		return u.Zero(t)
	}
	if in.IsString {
		s1, s2 := st.clone(), st
		outs := []Outcome{{s1, u.Tuple(u.Bool(true), u.Sym(types.Typ[types.Int], "next", fr.ctx, in, "k", 0), u.Sym(types.Typ[types.Int32], "next", fr.ctx, in, "v", 0))}}
		kk := outs[0].res.args[1]
		s1.meet(kk, Abs{lo: bigZero})
		x.relate(s1, kk, u.Len(m), -1)
		return append(outs, Outcome{s2, u.Tuple(u.Bool(false), zero(kt), zero(vt))})
	}
	mt := m.typ.Underlying().(*types.Map)
	pos := u.Pure(types.Typ[types.Int], "rangepos", it)
	if p, ok := st.mem[pos]; ok {
		n, ex := x.mapExact(st, m)
		c, _ := p.isIntConst()
		if ex && c != nil {
			i := int(c.Int64())
			if i < n {
				st.mem[pos] = u.Int(types.Typ[types.Int], int64(i+1))
				return []Outcome{{st, u.Tuple(u.Bool(true), st.mem[x.mapent(m, i, "entk")], st.mem[x.mapent(m, i, "entv")])}}
			}
			return []Outcome{{st, u.Tuple(u.Bool(false), u.Zero(mt.Key()), u.Zero(mt.Elem()))}}
		}
		delete(st.mem, pos)
	}
	var outs []Outcome
	ks, kk := x.mapVals(st, m, "mapkey")
	vs, kv := x.mapVals(st, m, "mapval")
	if !kv || len(vs) > 0 {
		s := st.clone()
		id := m
		if ps := x.pointees(st, m); len(ps) == 1 {
			id = ps[0]
		}
		k := x.elemOf(s, fr, in, mt.Key(), "rangekey", fmt.Sprint(id.id), nil, false)
		_ = ks
		_ = kk
		var kab Abs
		for i, t := range ks {
			if i == 0 {
				kab = x.absOf(st, t)
			} else {
				kab = joinAbs(kab, x.absOf(st, t))
			}
		}
		if !kab.top() {
			s.abs[k] = kab
		}
		v := x.elemOf(s, fr, in, mt.Elem(), "rangeval", "", vs, kv)
		if !kv && isNilable(mt.Elem()) {
			s.setNil(v, false)
		}
		s.mem[x.mapat(m, k)] = v
		outs = append(outs, Outcome{s, u.Tuple(u.Bool(true), k, v)})
	}
	outs = append(outs, Outcome{st, u.Tuple(u.Bool(false), u.Zero(mt.Key()), u.Zero(mt.Elem()))})
	return outs
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) []Outcome {
	u := x.u
	v := x.val(fr, in.X)
	T := in.AssertedType
	okres := func(s *State) *Term {
		if isIface(T) {
			return v
		}
		if v.op == OIface {
			return v.args[0]
		}
		r := u.mk(Term{op: OAssert, typ: T, args: []*Term{v}})
		if isNilable(T) {
			// an interface that holds a pointer is taken to hold a non-nil one
			var hasAlt bool
			for _, p := range x.pointees(s, r) {
				_ = p
				hasAlt = true
			}
			_ = hasAlt
			if s.abs[r].nilness == 0 {
				s.setNil(r, false)
			}
		}
		return r
	}
	var outs []Outcome
	c := x.isType(v, T)
	if v.op == OConst && v.val == nil {
		if in.CommaOk {
			return []Outcome{{st, u.Tuple(u.Zero(T), u.Bool(false))}}
		}
		x.obs.Alarm(x, fr, st, "assert", "type assertion on a nil interface", in)
		return nil
	}
	s1 := st.clone()
	if x.assume(s1, c, true) {
		if x.absOf(s1, v).nilness == 0 {
			s1.setNil(v, false)
		}
		if x.absOf(s1, v).nilness != 1 {
			r := okres(s1)
			if in.CommaOk {
				r = u.Tuple(r, u.Bool(true))
			}
			outs = append(outs, Outcome{s1, r})
		}
	}
	s2 := st.clone()
	if x.assume(s2, c, false) {
		if in.CommaOk {
			outs = append(outs, Outcome{s2, u.Tuple(u.Zero(T), u.Bool(false))})
		} else {
			x.obs.Alarm(x, fr, s2, "assert", fmt.Sprintf("type assertion to %s may fail", types.TypeString(T, shortQual)), in)
		}
	}
	return outs
}
