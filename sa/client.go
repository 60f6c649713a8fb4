package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Client is the most general user of a package: it calls the exported functions and every method of the
// values it gets back, in any order, any number of times.
type Client struct {
	x       *Exec
	root    *Ctx
	fr      *Frame
	pkg     string
	openers []string
	skip    func(name string) bool
	slots   map[string]*slot
	order   []string
	Calls   map[string]bool // entry points exercised
	rounds  int
	head    *State
}

type slot struct {
	typ  types.Type // type of the value kept
	cell *Term      // cell holding it
}

func newClient(x *Exec, pkg string, openers ...string) *Client {
	return &Client{x: x, root: x.u.Ctx(nil, nil, nil), pkg: pkg, openers: openers, slots: map[string]*slot{}, Calls: map[string]bool{}}
}

// slotFor keeps values of a type for later use.
func (c *Client) slotFor(t types.Type) *slot {
	k := c.x.u.tkey(t)
	if s, ok := c.slots[k]; ok {
		return s
	}
	s := &slot{typ: t, cell: c.x.u.mk(Term{op: OAlloc, typ: types.NewPointer(t), sym: c.x.u.symbol("slot", nil, nil, k, 0, false)})}
	c.slots[k] = s
	c.order = append(c.order, k)
	return s
}

var keepIfaces = map[string]bool{"io/fs.File": true, "io/fs.DirEntry": true, "io/fs.FileInfo": true, "io/fs.FS": true, "io/fs.ReadDirFile": true}

// keep stores a result of a call for later use.
func (c *Client) keep(st *State, v *Term) {
	if v == nil {
		return
	}
	if v.op == OTuple {
		for _, a := range v.args {
			c.keep(st, a)
		}
		return
	}
	if v.typ == nil || v.isNil() {
		return
	}
	x := c.x
	t := v.typ
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if !c.interesting(sl.Elem()) {
			return
		}
		es, ok := x.elems(st, v)
		if !ok {
			return
		}
		for _, e := range es {
			c.keep(st, e)
		}
		return
	}
	if !c.interesting(t) {
		return
	}
	if x.absOf(st, v).nilness == 1 {
		return
	}
	s := c.slotFor(t)
	if structOf(t) != nil && isStruct(t) {
		if _, ok := st.mem[x.u.FieldAddr(s.cell, 0)]; !ok {
			x.store(st, s.cell, v, c.root, nil)
			return
		}
		st2 := t.Underlying().(*types.Struct)
		for i := 0; i < st2.NumFields(); i++ {
			a := x.u.FieldAddr(s.cell, i)
			x.store(st, a, x.joinTerm(st, st, st, x.load(st, a, st2.Field(i).Type()), x.u.Field(v, i), c.root, nil, "slot", a, 1), c.root, nil)
		}
		return
	}
	if o, ok := st.mem[s.cell]; ok {
		if o != v {
			st.mem[s.cell] = x.joinTerm(st, st, st, o, v, c.root, nil, "slot", s.cell, 1)
		}
		return
	}
	st.mem[s.cell] = v
}

func (c *Client) interesting(t types.Type) bool {
	if keepIfaces[c.x.u.tkey(t)] {
		return true
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !inModulePath(n.Obj().Pkg().Path()) {
		return false
	}
	return !isIface(t)
}

func (c *Client) param(st *State, ctx *Ctx, p *types.Var, i int) *Term {
	x := c.x
	v := x.u.Sym(p.Type(), "param", ctx, nil, p.Name(), i)
	delete(st.abs, v)
	delete(st.alts, v)
	switch p.Type().Underlying().(type) {
	case *types.Interface, *types.Signature, *types.Pointer, *types.Map:
		st.setNil(v, false)
	}
	if structOf(p.Type()) != nil {
		// a value the client got earlier
		if s, ok := c.slots[x.u.tkey(p.Type())]; ok {
			if o, ok := st.mem[s.cell]; ok {
				return o
			}
		}
	}
	return v
}

func (c *Client) callOn(st *State, fn *ssa.Function, recv *Term, m *types.Func, sig *types.Signature) []Outcome {
	outs := c.callOn1(st, fn, recv, m, sig)
	if os.Getenv("SACLIENT") != "" {
		for _, o := range outs {
			fmt.Fprintln(os.Stderr, "outcome of", fn, m, recv, ":", o.res)
			if os.Getenv("SACLIENT") == "2" {
				for k, v := range o.st.mem {
					fmt.Fprintln(os.Stderr, "    ", k, "=", v)
				}
			}
		}
		if len(outs) == 0 {
			fmt.Fprintln(os.Stderr, "no outcome of", fn, m, recv)
		}
	}
	return outs
}

func (c *Client) callOn1(st *State, fn *ssa.Function, recv *Term, m *types.Func, sig *types.Signature) []Outcome {
	x := c.x
	name := ""
	if fn != nil {
		name = fn.String()
	} else {
		name = m.FullName()
	}
	ctx := x.u.Ctx(c.root, nil, fn)
	_ = ctx
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, c.param(st, x.u.Ctx(c.root, nil, fn), sig.Params().At(i), i))
	}
	c.Calls[name] = true
	st.note(0, "client calls "+name)
	if fn != nil {
		if recv != nil {
			args = append([]*Term{recv}, args...)
		}
		return x.callFn(c.fr, st, nil, fn, args, nil)
	}
	return x.invoke(c.fr, st, nil, recv, m, args)
}

// step runs one call of the client in every way; the resulting states go to sink.
func (c *Client) step(st *State, first bool, sink func(*State)) {
	x := c.x
	if first {
		for _, o := range c.openers {
			fn := x.p.SPkgs[c.pkg].Func(o)
			if fn == nil {
				panic(fmt.Sprintf("entry point %s.%s is gone", c.pkg, o))
			}
			for _, out := range c.callOn(st.clone(), fn, nil, nil, fn.Signature) {
				c.keep(out.st, out.res)
				sink(out.st)
			}
		}
		return
	}
	keys := append([]string{}, c.order...)
	if os.Getenv("SACLIENT") != "" {
		fmt.Fprintln(os.Stderr, "round", c.rounds, keys, x.over)
	}
	for _, k := range keys {
		s := c.slots[k]
		var v *Term
		if isStruct(s.typ) {
			if _, ok := st.mem[x.u.FieldAddr(s.cell, 0)]; !ok {
				continue
			}
			v = s.cell
		} else {
			o, ok := st.mem[s.cell]
			if !ok {
				continue
			}
			v = o
		}
		if isIface(s.typ) {
			// the methods of the dynamic types
			cs, ok := x.concrete(st, v)
			if v.op == OIface {
				cs, ok = []*Term{v.args[0]}, true
			}
			if !ok {
				continue
			}
			for _, ct := range cs {
				base := st.clone()
				if v.op != OIface && !x.assume(base, x.isType(v, ct.typ), true) {
					continue
				}
				c.methods(base, ct, ct.typ, sink)
			}
			continue
		}
		c.methods(st, v, v.typ, sink)
	}
}

func (c *Client) methods(st *State, recv *Term, t types.Type, sink func(*State)) {
	x := c.x
	ms := x.p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if !sel.Obj().Exported() {
			continue
		}
		fn := x.p.Prog.MethodValue(sel)
		if fn == nil || c.skip != nil && c.skip(fn.String()) {
			continue
		}
		// methods promoted from library types are the library's business
		if f := sel.Obj().(*types.Func); f.Pkg() == nil || !inModulePath(f.Pkg().Path()) && !isIface(f.Type().(*types.Signature).Recv().Type()) {
			continue
		}
		for _, out := range c.callOn(st.clone(), fn, recv, nil, sel.Type().(*types.Signature)) {
			c.keep(out.st, out.res)
			sink(out.st)
		}
	}
}

// Run explores the client to a fixpoint.
func (c *Client) Run(st *State) {
	x := c.x
	c.fr = &Frame{ctx: c.root, env: map[ssa.Value]*Term{}}
	var at ssa.Instruction
	if fn := x.p.SPkgs[c.pkg].Func(c.openers[0]); fn != nil {
		at = fn.Blocks[0].Instrs[0]
	}
	changed := false
	sink := func(s *State) {
		if x.over {
			return
		}
		f := func(sy *Sym) *Sym {
			if !sy.old && sy.under(c.root, nil) && sy.kind != "join" && sy.kind != "slot" {
				return x.u.symbol(sy.kind, sy.ctx, sy.instr, sy.name, sy.idx, true)
			}
			return sy
		}
		ns, _ := x.rename(s, f, c.root, at)
		ns.trace = nil
		x.collect(ns, func(sy *Sym) bool { return sy.under(c.root, nil) }, nil)
		if c.head == nil {
			c.head = ns
			changed = true
			return
		}
		js, _, _ := x.joinStates(c.head, ns, nil, nil, nil, c.root, at, "client", c.rounds, nil, nil)
		x.collect(js, func(sy *Sym) bool { return sy.under(c.root, nil) }, nil)
		if !x.sameState(c.head, js, nil, nil, nil) {
			if os.Getenv("SACLIENT") != "" && c.rounds > 6 {
				x.dumpDiff(c.head, js, nil, nil, nil, at.Parent(), at.Block())
			}
			changed = true
			c.head = js
		}
	}
	c.rounds = 1
	c.step(st, true, sink)
	for changed && !x.over {
		changed = false
		c.rounds++
		if c.rounds > 30 {
			x.over = true
			x.obs.Alarm(x, nil, nil, "limit", "client exploration does not converge", nil)
			return
		}
		s := c.head.clone()
		c.step(s, false, sink)
	}
}

func (c *Client) calls() []string {
	var l []string
	for k := range c.Calls {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}
