package main

// Inclusion-based, field-sensitive, context-sensitive (k call sites plus the entry point) points-to
// and value-token analysis over the SSA form. Nothing is executed: constraints are collected from
// the instructions and closed under inclusion.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is an abstract memory object or an abstract value token.
type Obj struct {
	id    int
	kind  string // alloc, global, func, closure, box, user, ext, token
	typ   types.Type
	site  ssa.Instruction
	ctx   *PCtx
	fn    *ssa.Function // func, closure
	label string
	base  *PBase
}

func (o *Obj) String() string { return o.label }

// Loc is a location inside an object.
type Loc struct {
	o *Obj
	p string
}

// PCtx is an analysis context: the entry point and the last call sites.
type PCtx struct {
	entry string
	sites []ssa.Instruction
	key   string
}

// PBase owns a tree of nodes: an SSA value in a context, or an object.
type PBase struct {
	name  string
	nodes map[string]map[Loc]struct{}
	edges []treeEdge
	subs  []func(path string, l Loc) // complex constraints
}

type treeEdge struct {
	from   string
	dst    *PBase
	to     string
	filter func(Loc) bool
}

type ptWork struct {
	b *PBase
	p string
	l Loc
}

// PInst is an analysed instance of a function.
type PInst struct {
	fn  *ssa.Function
	ctx *PCtx
	ret *PBase // result tuple: "#i"
}

type valKey struct {
	c *PCtx
	v ssa.Value
}

// PT is one points-to problem.
type PT struct {
	p       *Program
	k       int
	vals    map[valKey]*PBase
	insts   map[string]*PInst
	order   []*PInst
	objs    []*Obj
	objKey  map[string]*Obj
	ctxs    map[string]*PCtx
	queue   []ptWork
	pool    *PBase // values handed to the user
	globals map[*ssa.Global]*Obj
	calls   map[*PInst]map[ssa.Instruction][]*PInst
	extcall []ExtCall
	extSeen map[string]bool
	callees map[string]bool
	// source gives the token of an external call, "" for none
}

// ExtCall is a call of a function outside the library (or of a method of a value from outside it).
type ExtCall struct {
	inst *PInst
	in   ssa.CallInstruction
	name string // package.func, package.Type.method, or interface method
	recv Loc    // receiver object, if any
}

func newPT(p *Program, k int) *PT {
	pt := &PT{p: p, k: k, vals: map[valKey]*PBase{}, insts: map[string]*PInst{}, objKey: map[string]*Obj{}, ctxs: map[string]*PCtx{},
		globals: map[*ssa.Global]*Obj{}, calls: map[*PInst]map[ssa.Instruction][]*PInst{}, extSeen: map[string]bool{}, callees: map[string]bool{}}
	pt.pool = pt.newBase("user")
	return pt
}

func (pt *PT) newBase(name string) *PBase {
	return &PBase{name: name, nodes: map[string]map[Loc]struct{}{}}
}

func (pt *PT) ctx(entry string, sites []ssa.Instruction) *PCtx {
	if len(sites) > pt.k {
		sites = sites[len(sites)-pt.k:]
	}
	key := entry
	for _, s := range sites {
		key += fmt.Sprintf("|%p", s)
	}
	if c := pt.ctxs[key]; c != nil {
		return c
	}
	c := &PCtx{entry: entry, sites: append([]ssa.Instruction(nil), sites...), key: key}
	pt.ctxs[key] = c
	return c
}

func (pt *PT) obj(kind, key string, typ types.Type, label string) (*Obj, bool) {
	if o := pt.objKey[kind+key]; o != nil {
		return o, false
	}
	o := &Obj{id: len(pt.objs), kind: kind, typ: typ, label: label}
	o.base = pt.newBase(label)
	pt.objs = append(pt.objs, o)
	pt.objKey[kind+key] = o
	return o, true
}

func (pt *PT) siteObj(kind string, in ssa.Instruction, c *PCtx, typ types.Type, extra string) *Obj {
	o, fresh := pt.obj(kind, fmt.Sprintf("%p|%s|%s", in, c.key, extra), typ, fmt.Sprintf("%s %s at %s (%s)", kind, types.TypeString(typ, relName), pt.p.at(instrPos(in)), c.entry))
	if fresh {
		o.site, o.ctx = in, c
	}
	return o
}

func (pt *PT) tok(name string) Loc {
	o, _ := pt.obj("token", name, nil, name)
	return Loc{o, ""}
}

func relName(p *types.Package) string { return p.Name() }

func isTok(l Loc) bool { return l.o.kind == "token" }

func (pt *PT) add(b *PBase, path string, l Loc) {
	m := b.nodes[path]
	if m == nil {
		m = map[Loc]struct{}{}
		b.nodes[path] = m
	}
	if _, ok := m[l]; ok {
		return
	}
	m[l] = struct{}{}
	pt.queue = append(pt.queue, ptWork{b, path, l})
}

func (pt *PT) solve() {
	for len(pt.queue) > 0 {
		w := pt.queue[len(pt.queue)-1]
		pt.queue = pt.queue[:len(pt.queue)-1]
		for _, e := range w.b.edges {
			pt.flow(e, w.p, w.l)
		}
		for i := 0; i < len(w.b.subs); i++ {
			w.b.subs[i](w.p, w.l)
		}
	}
}

func (pt *PT) flow(e treeEdge, p string, l Loc) {
	if !strings.HasPrefix(p, e.from) {
		return
	}
	rest := p[len(e.from):]
	if rest != "" && !strings.ContainsRune(".[{#<b", rune(rest[0])) {
		return
	}
	if len(e.to)+len(rest) > 120 {
		return
	}
	if e.filter != nil && !e.filter(l) {
		return
	}
	pt.add(e.dst, e.to+rest, l)
}

// copy adds the inclusion src.from* ⊆ dst.to*.
func (pt *PT) copy(src *PBase, from string, dst *PBase, to string, filter func(Loc) bool) {
	if src == dst && from == to {
		return
	}
	for _, e := range src.edges {
		if e.dst == dst && e.from == from && e.to == to && (e.filter == nil) == (filter == nil) {
			return
		}
	}
	e := treeEdge{from, dst, to, filter}
	src.edges = append(src.edges, e)
	for p, m := range src.nodes {
		for l := range m {
			pt.flow(e, p, l)
		}
	}
}

// each calls f for every present and future element of node path of b.
func (pt *PT) each(b *PBase, path string, f func(Loc)) {
	sub := func(p string, l Loc) {
		if p == path {
			f(l)
		}
	}
	b.subs = append(b.subs, sub)
	var have []Loc
	for l := range b.nodes[path] {
		have = append(have, l)
	}
	for _, l := range have {
		f(l)
	}
}

// eachAll calls f for every element of every node of b.
func (pt *PT) eachAll(b *PBase, f func(path string, l Loc)) {
	b.subs = append(b.subs, f)
	type pl struct {
		p string
		l Loc
	}
	var have []pl
	for p, m := range b.nodes {
		for l := range m {
			have = append(have, pl{p, l})
		}
	}
	for _, x := range have {
		f(x.p, x.l)
	}
}

func (pt *PT) val(c *PCtx, v ssa.Value) *PBase {
	switch v := v.(type) {
	case *ssa.Global:
		k := valKey{nil, v}
		if b := pt.vals[k]; b != nil {
			return b
		}
		b := pt.newBase(v.Name())
		pt.vals[k] = b
		pt.add(b, "", Loc{pt.global(v), ""})
		return b
	case *ssa.Function:
		k := valKey{nil, v}
		if b := pt.vals[k]; b != nil {
			return b
		}
		b := pt.newBase(v.Name())
		pt.vals[k] = b
		o, _ := pt.obj("func", v.String(), v.Signature, v.String())
		o.fn = v
		pt.add(b, "", Loc{o, ""})
		return b
	case *ssa.Const:
		k := valKey{nil, v}
		if b := pt.vals[k]; b != nil {
			return b
		}
		b := pt.newBase("const")
		pt.vals[k] = b
		if v.Value != nil {
			pt.add(b, "", pt.tok("const "+v.Value.ExactString()))
		}
		return b
	}
	k := valKey{c, v}
	if b := pt.vals[k]; b != nil {
		return b
	}
	b := pt.newBase(v.Name())
	pt.vals[k] = b
	return b
}

func (pt *PT) global(g *ssa.Global) *Obj {
	if o := pt.globals[g]; o != nil {
		return o
	}
	elem := g.Type().(*types.Pointer).Elem()
	o, _ := pt.obj("global", g.String(), elem, g.String())
	pt.globals[g] = o
	if !inModulePath(g.Pkg.Pkg.Path()) {
		pt.add(o.base, "", pt.tok("global "+g.String()))
		u, _ := pt.obj("user", "global "+g.String(), elem, g.String())
		pt.add(o.base, "", Loc{u, ""})
	}
	return o
}

// typeAt is the type of the location p of an object.
func typeAt(o *Obj, p string) types.Type {
	t := o.typ
	for p != "" && t != nil {
		switch p[0] {
		case '.':
			n := 1
			for n < len(p) && !strings.ContainsRune(".[{#<", rune(p[n])) {
				n++
			}
			name := p[1:n]
			p = p[n:]
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			t = nil
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					t = st.Field(i).Type()
				}
			}
		case '[':
			p = p[2:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					t = a.Elem()
				} else {
					return nil
				}
			default:
				return nil
			}
		case '{':
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			if strings.HasPrefix(p, "{v}") {
				t = m.Elem()
			} else {
				t = m.Key()
			}
			p = p[3:]
		default:
			return nil
		}
	}
	return t
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

// instance analyses fn in a context, once.
func (pt *PT) instance(fn *ssa.Function, c *PCtx) *PInst {
	key := fmt.Sprintf("%p|%s", fn, c.key)
	if in := pt.insts[key]; in != nil {
		return in
	}
	in := &PInst{fn: fn, ctx: c, ret: pt.newBase("ret " + fn.Name())}
	pt.insts[key] = in
	pt.order = append(pt.order, in)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			pt.instr(in, i)
		}
	}
	return in
}

func (pt *PT) tokens(src *PBase, dst *PBase, to string) {
	pt.copy(src, "", dst, to, isTok)
}

func (pt *PT) instr(pi *PInst, in ssa.Instruction) {
	c := pi.ctx
	val := func(v ssa.Value) *PBase { return pt.val(c, v) }
	switch i := in.(type) {
	case *ssa.Alloc:
		o := pt.siteObj("alloc", i, c, i.Type().(*types.Pointer).Elem(), "")
		pt.add(val(i), "", Loc{o, ""})
	case *ssa.FieldAddr:
		f := fieldName(i.X.Type(), i.Field)
		dst := val(i)
		pt.each(val(i.X), "", func(l Loc) {
			if !isTok(l) {
				pt.add(dst, "", Loc{l.o, l.p + "." + f})
			}
		})
	case *ssa.Field:
		pt.copy(val(i.X), "."+fieldName(i.X.Type(), i.Field), val(i), "", nil)
	case *ssa.IndexAddr:
		dst := val(i)
		pt.each(val(i.X), "", func(l Loc) {
			if !isTok(l) {
				pt.add(dst, "", Loc{l.o, l.p + "[]"})
			}
		})
	case *ssa.Index:
		pt.copy(val(i.X), "[]", val(i), "", nil)
		pt.tokens(val(i.X), val(i), "")
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			dst := val(i)
			pt.each(val(i.X), "", func(l Loc) { pt.load(l, dst, "") })
		default:
			pt.tokens(val(i.X), val(i), "")
		}
	case *ssa.Store:
		src := val(i.Val)
		pt.each(val(i.Addr), "", func(l Loc) {
			if !isTok(l) {
				pt.copy(src, "", l.o.base, l.p, nil)
			}
		})
	case *ssa.MakeSlice:
		o := pt.siteObj("alloc", i, c, i.Type(), "")
		pt.add(val(i), "", Loc{o, ""})
	case *ssa.MakeMap:
		o := pt.siteObj("alloc", i, c, i.Type(), "")
		pt.add(val(i), "", Loc{o, ""})
	case *ssa.MakeChan:
		o := pt.siteObj("alloc", i, c, i.Type(), "")
		pt.add(val(i), "", Loc{o, ""})
	case *ssa.Slice:
		pt.copy(val(i.X), "", val(i), "", nil)
	case *ssa.Lookup:
		dst := val(i)
		to := ""
		if i.CommaOk {
			to = "#0"
		}
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			pt.tokens(val(i.X), dst, to)
			return
		}
		pt.each(val(i.X), "", func(l Loc) {
			if !isTok(l) {
				pt.copy(l.o.base, l.p+"{v}", dst, to, nil)
			}
		})
	case *ssa.MapUpdate:
		k, v := val(i.Key), val(i.Value)
		pt.each(val(i.Map), "", func(l Loc) {
			if !isTok(l) {
				pt.copy(k, "", l.o.base, l.p+"{k}", nil)
				pt.copy(v, "", l.o.base, l.p+"{v}", nil)
			}
		})
	case *ssa.Range:
		pt.copy(val(i.X), "", val(i), "", nil)
	case *ssa.Next:
		dst := val(i)
		if i.IsString {
			pt.tokens(val(i.Iter), dst, "#2")
			return
		}
		pt.each(val(i.Iter), "", func(l Loc) {
			if !isTok(l) {
				pt.copy(l.o.base, l.p+"{k}", dst, "#1", nil)
				pt.copy(l.o.base, l.p+"{v}", dst, "#2", nil)
			}
		})
	case *ssa.Extract:
		pt.copy(val(i.Tuple), fmt.Sprintf("#%d", i.Index), val(i), "", nil)
	case *ssa.Phi:
		for _, e := range i.Edges {
			pt.copy(val(e), "", val(i), "", nil)
		}
	case *ssa.ChangeType:
		pt.copy(val(i.X), "", val(i), "", nil)
	case *ssa.ChangeInterface:
		pt.copy(val(i.X), "", val(i), "", nil)
	case *ssa.MakeInterface:
		if pointerLike(i.X.Type()) {
			pt.copy(val(i.X), "", val(i), "", nil)
		} else {
			o := pt.siteObj("box", i, c, i.X.Type(), "")
			pt.copy(val(i.X), "", o.base, "", nil)
			pt.add(val(i), "", Loc{o, ""})
		}
	case *ssa.TypeAssert:
		to := ""
		if i.CommaOk {
			to = "#0"
		}
		dst := val(i)
		if types.IsInterface(i.AssertedType) {
			pt.copy(val(i.X), "", dst, to, nil)
			return
		}
		if pt2, ok := i.AssertedType.Underlying().(*types.Pointer); ok {
			pt.copy(val(i.X), "", dst, to, func(l Loc) bool {
				if isTok(l) {
					return true
				}
				if l.o.kind == "box" {
					return false
				}
				if l.o.kind == "user" && !inModuleType(pt2.Elem()) {
					return true
				}
				t := typeAt(l.o, l.p)
				return t != nil && types.Identical(t, pt2.Elem())
			})
			return
		}
		pt.each(val(i.X), "", func(l Loc) {
			switch {
			case isTok(l):
				pt.add(dst, to, l)
			case l.o.kind == "box":
				if t := typeAt(l.o, l.p); t != nil && types.Identical(t, i.AssertedType) {
					pt.copy(l.o.base, l.p, dst, to, nil)
				}
			case pointerLike(i.AssertedType):
				if t := typeAt(l.o, l.p); t == nil || types.Identical(t, i.AssertedType) {
					pt.add(dst, to, l)
				}
			}
		})
	case *ssa.BinOp:
		pt.tokens(val(i.X), val(i), "")
		pt.tokens(val(i.Y), val(i), "")
	case *ssa.Convert:
		pt.convert(c, i, i.X)
	case *ssa.MultiConvert:
		pt.convert(c, i, i.X)
	case *ssa.SliceToArrayPointer:
		pt.copy(val(i.X), "", val(i), "", nil)
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		o := pt.siteObj("closure", i, c, fn.Signature, "")
		o.fn = fn
		for j, b := range i.Bindings {
			pt.copy(val(b), "", o.base, fmt.Sprintf("b%d", j), nil)
		}
		pt.add(val(i), "", Loc{o, ""})
	case *ssa.Return:
		for j, v := range i.Results {
			pt.copy(val(v), "", pi.ret, fmt.Sprintf("#%d", j), nil)
		}
	case ssa.CallInstruction:
		pt.call(pi, i)
	case *ssa.Select, *ssa.Send:
		// the library has no channels; reported by R08 if it ever does
	}
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func inModuleType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && inModulePath(n.Obj().Pkg().Path())
}

func (pt *PT) convert(c *PCtx, v ssa.Value, x ssa.Value) {
	dst, src := pt.val(c, v), pt.val(c, x)
	_, toSlice := v.Type().Underlying().(*types.Slice)
	_, fromSlice := x.Type().Underlying().(*types.Slice)
	switch {
	case toSlice && !fromSlice:
		o := pt.siteObj("alloc", v.(ssa.Instruction), c, v.Type(), "")
		pt.copy(src, "", o.base, "[]", isTok)
		pt.add(dst, "", Loc{o, ""})
	case fromSlice && !toSlice:
		pt.each(src, "", func(l Loc) {
			if isTok(l) {
				pt.add(dst, "", l)
			} else {
				pt.copy(l.o.base, l.p+"[]", dst, "", isTok)
			}
		})
	default:
		pt.copy(src, "", dst, "", nil)
	}
}

// load copies the content of a location.
func (pt *PT) load(l Loc, dst *PBase, to string) {
	if isTok(l) {
		return
	}
	if l.o.kind == "user" || l.o.kind == "ext" && !strings.Contains(l.p, "<") {
		pt.userContent(l)
	}
	pt.copy(l.o.base, l.p, dst, to, nil)
}

// userContent materialises what is stored in memory that belongs to the caller.
func (pt *PT) userContent(l Loc) {
	t := typeAt(l.o, l.p)
	if t == nil {
		return
	}
	pt.userValue(l.o.base, l.p, t, l.o.label+l.p, 0)
}

// userValue fills dst with whatever a caller could supply for a value of type t.
func (pt *PT) userValue(dst *PBase, to string, t types.Type, label string, depth int) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		pt.add(dst, to, pt.tok(label))
	case *types.Struct:
		if depth > 3 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			pt.userValue(dst, to+"."+u.Field(i).Name(), u.Field(i).Type(), label+"."+u.Field(i).Name(), depth+1)
		}
	case *types.Array:
		pt.userValue(dst, to+"[]", u.Elem(), label, depth+1)
	case *types.Pointer:
		if inModuleType(u.Elem()) {
			pt.copy(pt.pool, "", dst, to, pt.pointsTo(u.Elem()))
			return
		}
		o, _ := pt.obj("user", label, u.Elem(), label)
		pt.add(dst, to, Loc{o, ""})
	case *types.Interface:
		o, _ := pt.obj("user", label, t, label)
		pt.add(dst, to, Loc{o, ""})
	default:
		o, _ := pt.obj("user", label, t, label)
		pt.add(dst, to, Loc{o, ""})
		if s, ok := u.(*types.Slice); ok {
			if depth <= 3 {
				pt.userValue(o.base, "[]", s.Elem(), label+"[]", depth+1)
			}
		}
	}
}

func (pt *PT) pointsTo(elem types.Type) func(Loc) bool {
	return func(l Loc) bool {
		if isTok(l) || l.o.kind == "box" {
			return false
		}
		t := typeAt(l.o, l.p)
		return t != nil && types.Identical(t, elem)
	}
}

// escape hands a value to the user.
func (pt *PT) escape(src *PBase, from string) {
	pt.each(src, from, func(l Loc) { pt.escapeLoc(l) })
}

func (pt *PT) escapeLoc(l Loc) {
	if isTok(l) {
		return
	}
	if _, ok := pt.pool.nodes[""][l]; ok {
		return
	}
	pt.add(pt.pool, "", l)
	switch t := typeAt(l.o, l.p); {
	case t == nil:
	default:
		switch u := t.Underlying().(type) {
		case *types.Slice:
			pt.escape(l.o.base, l.p+"[]")
		case *types.Pointer, *types.Interface, *types.Signature:
			pt.escape(l.o.base, l.p)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Exported() {
					pt.escape(l.o.base, l.p+"."+u.Field(i).Name())
				}
			}
		case *types.Map:
			pt.escape(l.o.base, l.p+"{v}")
			pt.escape(l.o.base, l.p+"{k}")
		}
	}
}

// entry analyses an exported function or method as called by a user.
func (pt *PT) entry(fn *ssa.Function) *PInst {
	c := pt.ctx(shortFn(fn), nil)
	pi := pt.instance(fn, c)
	for j, prm := range fn.Params {
		b := pt.val(c, prm)
		if j == 0 && fn.Signature.Recv() != nil {
			if ptr, ok := prm.Type().Underlying().(*types.Pointer); ok {
				pt.copy(pt.pool, "", b, "", pt.pointsTo(ptr.Elem()))
				continue
			}
			typ := prm.Type()
			pt.each(pt.pool, "", func(l Loc) {
				if t := typeAt(l.o, l.p); !isTok(l) && t != nil && types.Identical(t, typ) {
					pt.copy(l.o.base, l.p, b, "", nil)
				}
			})
			continue
		}
		pt.userValue(b, "", prm.Type(), "param "+c.entry+":"+prm.Name(), 0)
	}
	for j := 0; j < fn.Signature.Results().Len(); j++ {
		pt.escape(pi.ret, fmt.Sprintf("#%d", j))
	}
	return pi
}

// entries analyses every exported function and every method a user can call of the given packages.
func (pt *PT) entries(pkgs ...string) []*PInst {
	var out []*PInst
	for _, name := range pkgs {
		sp := pt.p.SPkgs[modPath+"/"+name]
		if sp == nil {
			panic("package " + name + " is gone")
		}
		if in := sp.Func("init"); in != nil {
			pt.instance(in, pt.ctx("init", nil))
		}
		for _, fn := range pt.p.userFuncs(name) {
			out = append(out, pt.entry(fn))
		}
	}
	pt.solve()
	return out
}

// userFuncs lists the functions and methods of a package that code outside it can call.
func (p *Program) userFuncs(pkg string) []*ssa.Function {
	sp := p.SPkgs[modPath+"/"+pkg]
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && fn.Blocks != nil && !seen[fn] {
			seen[fn] = true
			out = append(out, fn)
		}
	}
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() {
				add(m)
			}
		case *ssa.Type:
			t := m.Type()
			if types.IsInterface(t) {
				continue
			}
			if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				ms := p.Prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Exported() {
						add(p.Prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	return out
}

func (pt *PT) call(pi *PInst, in ssa.CallInstruction) {
	c := pi.ctx
	com := in.Common()
	var dst *PBase
	if v := in.Value(); v != nil {
		dst = pt.val(c, v)
	} else {
		dst = pt.newBase("drop")
	}
	args := make([]*PBase, len(com.Args))
	for j, a := range com.Args {
		args[j] = pt.val(c, a)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		pt.builtin(pi, in, b.Name(), args, dst)
		return
	}
	if com.IsInvoke() {
		m := com.Method
		pt.each(pt.val(c, com.Value), "", func(l Loc) { pt.invoke(pi, in, l, m, args, dst) })
		return
	}
	if fn := com.StaticCallee(); fn != nil {
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			pt.each(pt.val(c, mc), "", func(l Loc) { pt.callLoc(pi, in, l, args, dst) })
			return
		}
		pt.callFn(pi, in, fn, nil, args, dst)
		return
	}
	pt.each(pt.val(c, com.Value), "", func(l Loc) { pt.callLoc(pi, in, l, args, dst) })
}

// callLoc calls a function value.
func (pt *PT) callLoc(pi *PInst, in ssa.CallInstruction, l Loc, args []*PBase, dst *PBase) {
	switch l.o.kind {
	case "func":
		pt.callFn(pi, in, l.o.fn, nil, args, dst)
	case "closure":
		pt.callFn(pi, in, l.o.fn, l.o, args, dst)
	case "user", "ext":
		pt.userCall(pi, in, l, "call", in.Common().Signature(), args, dst)
	}
}

func (pt *PT) callFn(pi *PInst, in ssa.CallInstruction, fn *ssa.Function, clo *Obj, args []*PBase, dst *PBase) {
	if fn.Blocks == nil || !(inModule(fn) || fn.Synthetic != "" && fn.Pkg == nil && pt.p.wrapsModule(fn)) {
		pt.external(pi, in, fn, args, dst)
		return
	}
	key := fmt.Sprintf("%p|%s|%p|%p|%p", in, pi.ctx.key, fn, clo, dst)
	if pt.callees[key] {
		return
	}
	pt.callees[key] = true
	nc := pt.ctx(pi.ctx.entry, append(append([]ssa.Instruction(nil), pi.ctx.sites...), in))
	ci := pt.instance(fn, nc)
	if pt.calls[pi] == nil {
		pt.calls[pi] = map[ssa.Instruction][]*PInst{}
	}
	pt.calls[pi][in] = append(pt.calls[pi][in], ci)
	for j, prm := range fn.Params {
		if j < len(args) {
			pt.copy(args[j], "", pt.val(nc, prm), "", nil)
		}
	}
	if clo != nil {
		for j, fv := range fn.FreeVars {
			pt.copy(clo.base, fmt.Sprintf("b%d", j), pt.val(nc, fv), "", nil)
		}
	}
	if n := fn.Signature.Results().Len(); n == 1 {
		pt.copy(ci.ret, "#0", dst, "", nil)
	} else if n > 1 {
		pt.copy(ci.ret, "", dst, "", nil)
	}
}

// wrapsModule reports whether a synthetic function (a wrapper for a promoted method, a bound method)
// stands for a method of the library or of a type of the library.
func (p *Program) wrapsModule(fn *ssa.Function) bool {
	if fn.Signature.Recv() != nil && inModuleType(fn.Signature.Recv().Type()) {
		return true
	}
	if len(fn.FreeVars) == 1 && inModuleType(fn.FreeVars[0].Type()) {
		return true
	}
	if len(fn.Params) > 0 && inModuleType(fn.Params[0].Type()) {
		return true
	}
	return false
}

// invoke dispatches an interface method call on one receiver.
func (pt *PT) invoke(pi *PInst, in ssa.CallInstruction, l Loc, m *types.Func, args []*PBase, dst *PBase) {
	if isTok(l) {
		return
	}
	switch l.o.kind {
	case "user", "ext":
		pt.userCall(pi, in, l, m.Name(), m.Type().(*types.Signature), args, dst)
		return
	}
	t := typeAt(l.o, l.p)
	if t == nil {
		return
	}
	recv := pt.newBase("recv")
	var rt types.Type
	if l.o.kind == "box" || isRefType(t) {
		rt = t
		if l.o.kind == "box" {
			pt.copy(l.o.base, l.p, recv, "", nil)
		} else {
			pt.add(recv, "", l)
		}
	} else {
		rt = types.NewPointer(t)
		pt.add(recv, "", l)
	}
	sel := pt.p.Prog.MethodSets.MethodSet(rt).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return
	}
	fn := pt.p.Prog.MethodValue(sel)
	if fn == nil {
		return
	}
	pt.callFn(pi, in, fn, nil, append([]*PBase{recv}, args...), dst)
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (pt *PT) noteExt(pi *PInst, in ssa.CallInstruction, name string, recv Loc) {
	k := fmt.Sprintf("%p|%s|%s|%p|%s", in, pi.ctx.key, name, recv.o, recv.p)
	if pt.extSeen[k] {
		return
	}
	pt.extSeen[k] = true
	pt.extcall = append(pt.extcall, ExtCall{pi, in, name, recv})
}

// userCall is a call of a method of an object whose code is not part of the library.
func (pt *PT) userCall(pi *PInst, in ssa.CallInstruction, l Loc, name string, sig *types.Signature, args []*PBase, dst *PBase) {
	pt.noteExt(pi, in, name, l)
	// what the object wraps may be called, too
	if l.o.kind == "ext" {
		pt.pokeWrapped(pi, in, l.o)
	}
	what := l.o.label + "." + name + "()"
	if n := strings.Count(what, "."); n > 8 {
		what = "…" + name + "()"
	}
	pt.extResults(pi, in, l, what, name, sig, args, dst)
}

func (pt *PT) extResults(pi *PInst, in ssa.CallInstruction, l Loc, what, name string, sig *types.Signature, args []*PBase, dst *PBase) {
	n := sig.Results().Len()
	for j := 0; j < n; j++ {
		to := ""
		if n > 1 {
			to = fmt.Sprintf("#%d", j)
		}
		t := sig.Results().At(j).Type()
		if isErrorType(t) {
			u, _ := pt.obj("user", "error", t, "error")
			pt.add(dst, to, Loc{u, ""})
			continue
		}
		lab := what
		if j > 0 {
			lab = fmt.Sprintf("%s#%d", what, j)
		}
		pt.userValue(dst, to, t, lab, 0)
		pt.add(dst, to, pt.tok("call "+name))
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

var wrappedMethods = []string{"Read", "Write", "ReadAt", "WriteAt", "Seek", "Close", "ReadFrom", "WriteTo", "ReadByte", "WriteByte", "WriteString", "Len", "Less", "Swap", "Push", "Pop"}

// pokeWrapped calls the stream methods of the library objects an external object was built from.
func (pt *PT) pokeWrapped(pi *PInst, in ssa.CallInstruction, o *Obj) {
	key := fmt.Sprintf("poke%p|%s|%p", in, pi.ctx.key, o)
	if pt.callees[key] {
		return
	}
	pt.callees[key] = true
	pt.each(o.base, "<in>", func(l Loc) { pt.poke(pi, in, l) })
}

func (pt *PT) poke(pi *PInst, in ssa.CallInstruction, l Loc) {
	if isTok(l) || l.o.kind == "user" {
		return
	}
	if l.o.kind == "ext" {
		pt.noteExt(pi, in, "poked", l)
		pt.pokeWrapped(pi, in, l.o)
		return
	}
	if l.o.kind == "closure" || l.o.kind == "func" {
		return
	}
	t := typeAt(l.o, l.p)
	if t == nil || isRefType(t) {
		return
	}
	var rt types.Type = types.NewPointer(t)
	if l.o.kind == "box" {
		rt = t
	}
	for _, name := range wrappedMethods {
		sel := pt.p.Prog.MethodSets.MethodSet(rt).Lookup(nil, name)
		if sel == nil {
			continue
		}
		fn := pt.p.Prog.MethodValue(sel)
		if fn == nil || !(inModule(fn) || pt.p.wrapsModule(fn)) {
			continue
		}
		recv := pt.newBase("recv")
		if l.o.kind == "box" {
			pt.copy(l.o.base, l.p, recv, "", nil)
		} else {
			pt.add(recv, "", l)
		}
		args := []*PBase{recv}
		for j := 1; j < len(fn.Params); j++ {
			b := pt.newBase("arg")
			pt.userValue(b, "", fn.Params[j].Type(), "param of "+name, 0)
			args = append(args, b)
		}
		pt.callFn(pi, in, fn, nil, args, pt.newBase("drop"))
	}
}

func (pt *PT) builtin(pi *PInst, in ssa.CallInstruction, name string, args []*PBase, dst *PBase) {
	c := pi.ctx
	switch name {
	case "append":
		v := in.Value()
		o := pt.siteObj("alloc", in.(ssa.Instruction), c, v.Type(), "")
		pt.add(dst, "", Loc{o, ""})
		if room, _ := appendRoom(in.Common().Args[0]); room {
			pt.copy(args[0], "", dst, "", nil)
		}
		pt.each(args[0], "", func(l Loc) {
			if !isTok(l) {
				pt.copy(l.o.base, l.p+"[]", o.base, "[]", nil)
			}
		})
		if len(args) > 1 {
			pt.each(args[1], "", func(l Loc) {
				pt.each(dst, "", func(d Loc) {
					if isTok(d) {
						return
					}
					if isTok(l) {
						pt.add(d.o.base, d.p+"[]", l)
					} else {
						pt.copy(l.o.base, l.p+"[]", d.o.base, d.p+"[]", nil)
					}
				})
			})
		}
	case "copy":
		pt.each(args[1], "", func(l Loc) {
			pt.each(args[0], "", func(d Loc) {
				if isTok(d) {
					return
				}
				if isTok(l) {
					pt.add(d.o.base, d.p+"[]", l)
				} else {
					pt.copy(l.o.base, l.p+"[]", d.o.base, d.p+"[]", nil)
				}
			})
		})
	case "len", "cap":
		pt.add(dst, "", pt.tok("len"))
	case "min", "max":
		for _, a := range args {
			pt.tokens(a, dst, "")
		}
	}
}

// appendRoom says whether the array behind v can be what append returns
// (it has a capacity above zero), and whether append can write into it
// (the capacity can be above the length).
func appendRoom(v ssa.Value) (keeps, writes bool) {
	return appendRoomIn(v, map[ssa.Value]bool{})
}

func appendRoomIn(v ssa.Value, seen map[ssa.Value]bool) (keeps, writes bool) {
	if seen[v] {
		return false, false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return false, false
	case *ssa.ChangeType:
		return appendRoomIn(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			k, w := appendRoomIn(e, seen)
			keeps, writes = keeps || k, writes || w
		}
		return keeps, writes
	case *ssa.Slice:
		if v.Max != nil {
			m, isM := intConst(v.Max)
			if isM && m == 0 {
				return false, false
			}
			if v.High == v.Max {
				return true, false
			}
			if h, isH := intConst(v.High); isM && isH && h == m {
				return true, false
			}
			return true, true
		}
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				if a.Len() == 0 {
					return false, false
				}
				if v.High == nil {
					return true, false
				}
				if h, ok := intConst(v.High); ok && h == a.Len() {
					return true, false
				}
			}
		}
	}
	return true, true
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}
