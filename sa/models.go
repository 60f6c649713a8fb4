package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome

// ---- calls ------------------------------------------------------------------

func (x *Exec) call(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) []Outcome {
	var args []*Term
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		return x.invoke(fr, st, in, recv, c.Method, args)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, in, b.Name(), c, args)
	}
	return x.callValue(fr, st, in, x.val(fr, c.Value), args, c.Signature())
}

func (x *Exec) runDefers(fr *Frame, st *State) []Outcome {
	outs := []Outcome{{st: st}}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var next []Outcome
		for _, o := range outs {
			var rs []Outcome
			c := &d.in.Call
			switch {
			case c.IsInvoke():
				rs = x.invoke(fr, o.st, d.in, d.args[0], c.Method, d.args[1:])
			default:
				if b, ok := c.Value.(*ssa.Builtin); ok {
					rs = x.builtin(fr, o.st, d.in, b.Name(), c, d.args)
				} else {
					rs = x.callValue(fr, o.st, d.in, d.fnv, d.args, c.Signature())
				}
			}
			next = append(next, rs...)
		}
		outs = next
	}
	for i := range outs {
		outs[i].res = nil
	}
	return outs
}

// invoke calls an interface method.
func (x *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, recv *Term, m *types.Func, args []*Term) []Outcome {
	ab := x.absOf(st, recv)
	if ab.nilness == 1 || ab.nilness == 0 && ab.maybe {
		s := st.clone()
		x.setNilTerm(s, recv, true)
		x.obs.Alarm(x, fr, s, "nil", fmt.Sprintf("method %s called on a nil interface", m.Name()), in)
		if ab.nilness == 1 {
			return nil
		}
	}
	if ab.nilness != 2 && recv.op != OConst {
		x.setNilTerm(st, recv, false)
	}
	if recv.op == OIface {
		return x.callMethod(fr, st, in, recv.args[0], m, args)
	}
	if cts, ok := x.concrete(st, recv); ok {
		var outs []Outcome
		for i, c := range cts {
			s := st
			if i < len(cts)-1 {
				s = st.clone()
			}
			if !x.assume(s, x.isType(recv, c.typ), true) {
				continue
			}
			outs = append(outs, x.callMethod(fr, s, in, c, m, args)...)
		}
		return outs
	}
	// a type the path has established
	for _, o := range x.isTypeOf[recv] {
		if f, ok := st.abs[o]; ok && f.truth == 1 {
			if T := x.isTypes[o]; !isIface(T) {
				r := x.u.mk(Term{op: OAssert, typ: T, args: []*Term{recv}})
				return x.callMethod(fr, st, in, r, m, args)
			}
		}
	}
	ev := &CallEv{Instr: in, Ctx: fr.ctx, Name: m.FullName(), Sig: m.Type().(*types.Signature), Args: append([]*Term{recv}, args...)}
	return x.external(fr, st, ev)
}

// concrete lists the concrete values an interface value may hold, if they are all known.
func (x *Exec) concrete(st *State, v *Term) ([]*Term, bool) {
	var out []*Term
	seen := map[*Term]bool{}
	okAll := true
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if seen[t] || d > 6 {
			return
		}
		seen[t] = true
		if t.isNil() {
			return
		}
		if t.op == OIface {
			out = append(out, t.args[0])
			return
		}
		if al, ok := st.alts[t]; ok && len(al) > 0 {
			for _, a := range al {
				rec(a, d+1)
			}
			return
		}
		okAll = false
	}
	rec(v, 0)
	// one representative per type; several values of one type become an assertion on v
	byType := map[string][]*Term{}
	var order []string
	for _, t := range out {
		k := x.u.tkey(t.typ)
		if byType[k] == nil {
			order = append(order, k)
		}
		byType[k] = append(byType[k], t)
	}
	var res []*Term
	for _, k := range order {
		if l := byType[k]; len(l) == 1 {
			res = append(res, l[0])
		} else {
			r := x.u.mk(Term{op: OAssert, typ: l[0].typ, args: []*Term{v}})
			if _, done := st.alts[r]; !done && len(l) <= maxAlts {
				st.alts[r] = l
			}
			res = append(res, r)
		}
	}
	return res, okAll && len(res) > 0
}

func (x *Exec) callMethod(fr *Frame, st *State, in ssa.Instruction, recv *Term, m *types.Func, args []*Term) []Outcome {
	ms := x.p.Prog.MethodSets.MethodSet(recv.typ)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		ev := &CallEv{Instr: in, Ctx: fr.ctx, Name: m.FullName(), Sig: m.Type().(*types.Signature), Args: append([]*Term{recv}, args...)}
		return x.external(fr, st, ev)
	}
	fn := x.p.Prog.MethodValue(sel)
	if fn == nil {
		ev := &CallEv{Instr: in, Ctx: fr.ctx, Name: m.FullName(), Sig: m.Type().(*types.Signature), Args: append([]*Term{recv}, args...)}
		return x.external(fr, st, ev)
	}
	return x.callFn(fr, st, in, fn, append([]*Term{recv}, args...), nil)
}

// callValue calls a function value.
func (x *Exec) callValue(fr *Frame, st *State, in ssa.Instruction, fv *Term, args []*Term, sig *types.Signature) []Outcome {
	switch fv.op {
	case OFunc:
		return x.callFn(fr, st, in, fv.fn, args, nil)
	case OClosure:
		return x.callFn(fr, st, in, fv.fn, args, fv.args)
	}
	ab := x.absOf(st, fv)
	if ab.nilness == 1 || ab.nilness == 0 && ab.maybe {
		s := st.clone()
		x.setNilTerm(s, fv, true)
		x.obs.Alarm(x, fr, s, "nil", "call of a nil function", in)
		if ab.nilness == 1 {
			return nil
		}
	}
	var cands []*Term
	all := false
	if al := x.flatAlts(st, fv); len(al) > 0 {
		all = true
		for _, a := range al {
			switch {
			case a.op == OFunc || a.op == OClosure:
				cands = append(cands, a)
			case a.isNil():
			default:
				all = false
			}
		}
	}
	if all && len(cands) > 0 {
		var outs []Outcome
		for i, c := range cands {
			s := st
			if i < len(cands)-1 {
				s = st.clone()
			}
			outs = append(outs, x.callValue(fr, s, in, c, args, sig)...)
		}
		return outs
	}
	ev := &CallEv{Instr: in, Ctx: fr.ctx, Name: "func value", Sig: sig, Args: args}
	return x.external(fr, st, ev)
}

func (x *Exec) flatAlts(st *State, t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term, d int)
	rec = func(v *Term, d int) {
		if seen[v] || d > 6 {
			return
		}
		seen[v] = true
		if al, ok := st.alts[v]; ok && len(al) > 0 {
			for _, a := range al {
				rec(a, d+1)
			}
			return
		}
		if v != t {
			out = append(out, v)
		}
	}
	rec(t, 0)
	return out
}

// fnName is the full name of a function ("(*archive/tar.Reader).Next"); instances of generics are named by their origin.
func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic == "" {
		return o.FullName()
	}
	return fn.String()
}

func (x *Exec) callFn(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args, binds []*Term) []Outcome {
	name := fnName(fn)
	ev := &CallEv{Instr: in, Ctx: fr.ctx, Name: name, Fn: fn, Sig: fn.Signature, Args: args}
	if fn.Blocks == nil || !inModule(fn) && fn.Synthetic == "" {
		return x.external(fr, st, ev)
	}
	if !inModule(fn) && x.models[name] != nil {
		return x.external(fr, st, ev)
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	depth := 0
	if fr != nil {
		depth = fr.ctx.depth
	}
	x.calls[in] = true
	if n > x.recLimit || depth > x.maxDepth {
		ev.Rec = true
		x.obs.PreCall(x, fr, st, ev)
		return x.post(fr, ev, x.summary(fr, st, ev, "rec"))
	}
	ev.Inl = true
	x.obs.PreCall(x, fr, st, ev)
	ctx := x.u.Ctx(fr.ctx, in, fn)
	if fn.Synthetic == "" || true {
		st.note(instrPos(in), "call "+fn.String())
	}
	outs := x.inline(fr, st, fn, args, binds, ctx)
	return x.post(fr, ev, outs)
}

func (x *Exec) post(fr *Frame, ev *CallEv, outs []Outcome) []Outcome {
	for i := range outs {
		x.obs.PostCall(x, fr, outs[i].st, ev, outs[i].res)
	}
	return outs
}

func (x *Exec) external(fr *Frame, st *State, ev *CallEv) []Outcome {
	x.calls[ev.Instr] = true
	x.obs.PreCall(x, fr, st, ev)
	if m := x.models[ev.Name]; m != nil {
		return x.post(fr, ev, m(x, fr, st, ev))
	}
	if pureCall(ev.Name) {
		return x.post(fr, ev, x.pureModel(fr, st, ev))
	}
	return x.post(fr, ev, x.extern(fr, st, ev))
}

func hasErr(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isError(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// fresh makes the symbol of a call result.
func (x *Exec) fresh(fr *Frame, st *State, ev *CallEv, typ types.Type, kind string, idx int) *Term {
	t := x.u.Sym(typ, kind, fr.ctx, ev.Instr, ev.Name, idx)
	delete(st.abs, t)
	delete(st.alts, t)
	for k := range st.mem {
		if rootOfCell(k) == t {
			delete(st.mem, k)
		}
	}
	for k := range st.rel {
		if k.a == t || k.b == t {
			delete(st.rel, k)
		}
	}
	return t
}

func pack(x *Exec, ts []*Term) *Term {
	switch len(ts) {
	case 0:
		return nil
	case 1:
		return ts[0]
	}
	return x.u.Tuple(ts...)
}

// results builds the results of a library call; ok tells which variant of the error result.
func (x *Exec) results(fr *Frame, st *State, ev *CallEv, kind string, ok bool) []*Term {
	var rs []*Term
	e := hasErr(ev.Sig)
	for i := 0; i < ev.Sig.Results().Len(); i++ {
		t := ev.Sig.Results().At(i).Type()
		if i == e {
			if ok {
				rs = append(rs, x.u.Nil(t))
			} else {
				v := x.fresh(fr, st, ev, t, kind+"err", i)
				st.setNil(v, false)
				rs = append(rs, v)
			}
			continue
		}
		v := x.fresh(fr, st, ev, t, kind, i)
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
			if ok || e < 0 {
				if !(e < 0 && isError(t)) {
					st.setNil(v, false)
				}
			} else {
				st.meet(v, Abs{maybe: true})
			}
		}
		rs = append(rs, v)
	}
	return rs
}

// summary is the outcome of a call whose body is not looked at.
func (x *Exec) summary(fr *Frame, st *State, ev *CallEv, kind string) []Outcome {
	for _, a := range ev.Args {
		x.havocArg(st, a, fr, ev.Instr)
	}
	if hasErr(ev.Sig) < 0 {
		return []Outcome{{st, pack(x, x.results(fr, st, ev, kind, true))}}
	}
	s2 := st.clone()
	o1 := Outcome{st, pack(x, x.results(fr, st, ev, kind, true))}
	o2 := Outcome{s2, pack(x, x.results(fr, s2, ev, kind, false))}
	return []Outcome{o1, o2}
}

func (x *Exec) havocArg(st *State, a *Term, fr *Frame, in ssa.Instruction) {
	x.havoc(st, a, fr, in, map[*Term]bool{})
}

// extern is the default for library calls.
func (x *Exec) extern(fr *Frame, st *State, ev *CallEv) []Outcome {
	// callbacks may run any number of times
	for _, a := range ev.Args {
		if a != nil && (a.op == OClosure || a.op == OFunc && a.fn.Blocks != nil && inModule(a.fn)) {
			sig := a.fn.Signature
			outs := x.callbackLoop(fr, st, ev, a, func(s *State, ctx *Ctx, first bool) []*Term {
				var as []*Term
				for i := 0; i < sig.Params().Len(); i++ {
					v := x.u.Sym(sig.Params().At(i).Type(), "cbarg", ctx, ev.Instr, "", i)
					delete(s.abs, v)
					delete(s.alts, v)
					if isNilable(v.typ) && !isError(v.typ) {
						s.setNil(v, false)
					}
					as = append(as, v)
				}
				return as
			}, nil)
			var all []Outcome
			for _, o := range outs {
				all = append(all, x.summary(fr, o.st, ev, "ext")...)
			}
			return all
		}
	}
	return x.summary(fr, st, ev, "ext")
}

// callbackLoop runs fn 0..n times. stop decides from a callback result whether the loop ends
// (returning the result of the outer call) or goes on (nil, true).
func (x *Exec) callbackLoop(fr *Frame, st *State, ev *CallEv, fn *Term, mkArgs func(s *State, ctx *Ctx, first bool) []*Term, stop func(s *State, res *Term) []cbEnd) []Outcome {
	var done []Outcome
	type head struct {
		st    *State
		round int
	}
	heads := map[string]*head{}
	cctx := x.u.Ctx(fr.ctx, ev.Instr, fn.fn)
	work := []*State{st}
	first := true
	for len(work) > 0 && !x.over {
		s := work[0]
		work = work[1:]
		if !first || stop == nil {
			done = append(done, Outcome{st: s.clone()})
		}
		args := mkArgs(s, cctx, first)
		outs := x.callValue(fr, s, ev.Instr, fn, args, fn.fn.Signature)
		first = false
		for _, o := range outs {
			ends := []cbEnd{{o.st, nil, true}}
			if stop != nil {
				ends = stop(o.st, o.res)
			}
			for _, e := range ends {
				if !e.more {
					done = append(done, Outcome{e.st, e.res})
					continue
				}
				f := func(sy *Sym) *Sym {
					if !sy.old && sy.underCall(fr.ctx, ev.Instr) && sy.kind != "join" {
						return x.u.symbol(sy.kind, sy.ctx, sy.instr, sy.name, sy.idx, true)
					}
					return sy
				}
				ns, _ := x.rename(e.st, f, fr.ctx, ev.Instr)
				key := ns.propKey()
				h := heads[key]
				if h == nil {
					heads[key] = &head{ns.clone(), 1}
					work = append(work, ns)
					continue
				}
				h.round++
				js, _, _ := x.joinStates(h.st, ns, nil, nil, nil, fr.ctx, ev.Instr, "cb", h.round, nil, nil)
				if x.sameState(h.st, js, nil, nil, nil) {
					continue
				}
				if h.round > 60 {
					x.over = true
					x.obs.Alarm(x, fr, ns, "limit", "callback loop analysis does not converge", ev.Instr)
					return nil
				}
				h.st = js.clone()
				work = append(work, js)
			}
		}
	}
	return done
}

type cbEnd struct {
	st   *State
	res  *Term
	more bool
}

// ---- builtins ---------------------------------------------------------------

func (x *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term) []Outcome {
	u := x.u
	it := types.Typ[types.Int]
	one := func(t *Term) []Outcome { return []Outcome{{st, t}} }
	var typ types.Type
	if v, ok := in.(ssa.Value); ok {
		typ = v.Type()
	}
	ev := &CallEv{Instr: in, Ctx: fr.ctx, Name: "builtin " + name, Args: args}
	x.obs.PreCall(x, fr, st, ev)
	switch name {
	case "len":
		if _, ok := args[0].typ.Underlying().(*types.Map); ok {
			if n, ok := x.mapExact(st, args[0]); ok {
				return one(u.Int(it, int64(n)))
			}
		}
		return one(u.Len(args[0]))
	case "cap":
		if args[0].op == OSlice {
			return one(args[0].args[3])
		}
		if args[0].isNil() {
			return one(u.Int(it, 0))
		}
		return one(u.mk(Term{op: OCap, typ: it, args: args}))
	case "append":
		return one(x.appendModel(fr, st, in, typ, args))
	case "copy":
		n := u.Sym(it, "copy", fr.ctx, in, "", 0)
		delete(st.abs, n)
		st.meet(n, Abs{lo: bigZero})
		x.relate(st, n, u.Len(args[0]), 0)
		x.relate(st, n, u.Len(args[1]), 0)
		x.blur(st, fr, in, args[0])
		return one(n)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = u.Pure(typ, name, r, a)
		}
		return one(r)
	case "delete":
		m, k := args[0], args[1]
		ts := append([]*Term{m}, x.pointees(st, m)...)
		for _, t := range ts {
			if _, ok := t.typ.Underlying().(*types.Map); !ok {
				continue
			}
			x.weakenMap(st, fr, in, t)
			for _, o := range sortedTerms(st.mem) {
				if o.op == OPure && o.aux == "mapat" && o.args[0] == t {
					delete(st.mem, o)
				}
			}
			if t == m {
				st.mem[x.mapabsent(t, k)] = u.Bool(true)
			}
		}
		return one(nil)
	case "recover":
		return one(u.Nil(typ))
	}
	if typ != nil {
		if tt, ok := typ.(*types.Tuple); ok && tt.Len() == 0 {
			return one(nil)
		}
		return one(x.fresh(fr, st, ev, typ, "builtin", 0))
	}
	return one(nil)
}

// blur forgets the order (and, for bytes, the contents) of a slice.
func (x *Exec) blur(st *State, fr *Frame, in ssa.Instruction, s *Term) {
	elem := elemType(s.typ)
	ts := append([]*Term{s}, x.flatAlts(st, s)...)
	for _, t := range ts {
		base := t
		if t.op == OSlice {
			base = t.args[0]
		}
		star := x.star(base, elem)
		if !isNilable(elem) && !isStruct(elem) {
			for _, k := range sortedTerms(st.mem) {
				if k.op == OIndexAddr && len(k.args) == 2 && k.args[0] == base {
					delete(st.mem, k)
				}
			}
			st.mem[star] = x.u.Sym(elem, "blur", fr.ctx, in, "", 0)
			continue
		}
		x.collapse(st, fr, in, base, elem)
	}
}

// collapse summarises the elements of an array into one cell.
func (x *Exec) collapse(st *State, fr *Frame, in ssa.Instruction, base *Term, elem types.Type) {
	star := x.star(base, elem)
	var vals []*Term
	for _, k := range sortedTerms(st.mem) {
		if k.op == OIndexAddr && len(k.args) == 2 && k.args[0] == base {
			vals = append(vals, st.mem[k])
			delete(st.mem, k)
		} else if k.op == OFieldAddr && k.args[0].op == OIndexAddr && len(k.args[0].args) == 2 && k.args[0].args[0] == base {
			vals = append(vals, x.load(st, k.args[0], elem))
		}
	}
	for _, k := range sortedTerms(st.mem) {
		if k.op == OFieldAddr && k.args[0].op == OIndexAddr && len(k.args[0].args) == 2 && k.args[0].args[0] == base {
			delete(st.mem, k)
		}
	}
	for _, v := range vals {
		x.joinInto(st, fr, in, star, v)
	}
}

func (x *Exec) joinInto(st *State, fr *Frame, in ssa.Instruction, cell, v *Term) {
	if o, ok := st.mem[cell]; ok && o != nil {
		if o != v {
			st.mem[cell] = x.joinTerm(st, st, st, o, v, fr.ctx, in, "elem", cell, 1)
		}
		return
	}
	st.mem[cell] = v
}

func (x *Exec) appendModel(fr *Frame, st *State, in ssa.Instruction, typ types.Type, args []*Term) *Term {
	u := x.u
	it := types.Typ[types.Int]
	elem := elemType(typ)
	s := args[0]
	var more *Term
	if len(args) > 1 {
		more = args[1]
	}
	if more == nil || more.isNil() {
		return s
	}
	ps := u.mk(Term{op: OAlloc, typ: types.NewPointer(types.NewArray(elem, -1)), sym: u.symbol("alloc", fr.ctx, in, "append", 0, false)})
	e1, ok1 := x.exactElems(st, s)
	var e2 []*Term
	ok2 := false
	if _, isStr := more.typ.Underlying().(*types.Slice); isStr {
		e2, ok2 = x.exactElems(st, more)
	}
	n := u.Bin(addTok, it, u.Len(s), u.Len(more))
	cp := u.Sym(it, "appcap", fr.ctx, in, "", 0)
	var vals []*Term
	known := true
	if ok1 && ok2 && len(e1)+len(e2) <= 16 {
		for k := range st.mem {
			if rootOfCell(k) == ps {
				delete(st.mem, k)
			}
		}
		for i, v := range append(append([]*Term{}, e1...), e2...) {
			st.mem[u.IndexAddr(ps, u.Int(it, int64(i)), elem)] = v
		}
		return u.mk(Term{op: OSlice, typ: typ, args: []*Term{ps, u.Int(it, 0), n, cp}})
	}
	for _, a := range []*Term{s, more} {
		if isString(a.typ) {
			known = false
			continue
		}
		es, ok := x.elems(st, a)
		if !ok {
			known = false
		}
		vals = append(vals, es...)
	}
	for k := range st.mem {
		if rootOfCell(k) == ps {
			delete(st.mem, k)
		}
	}
	star := x.star(ps, elem)
	if !known {
		st.mem[star] = u.Sym(elem, "appelem", fr.ctx, in, "", 0)
	} else {
		for _, v := range vals {
			x.joinInto(st, fr, in, star, v)
		}
		if len(vals) == 0 {
			st.mem[star] = u.Zero(elem)
		}
	}
	r := u.mk(Term{op: OSlice, typ: typ, args: []*Term{ps, u.Int(it, 0), n, cp}})
	return r
}

// ---- pure functions ---------------------------------------------------------

// pureCall: the result depends on the arguments only (strings, numbers, library values).
func pureCall(name string) bool {
	for _, p := range []string{"strings.", "path.", "path/filepath.", "strconv.", "unicode", "math.", "math/bits.", "io/fs.ValidPath",
		"errors.Is", "(io/fs.FileMode).", "(io/fs.FileInfo).", "(io/fs.DirEntry).", "(time.Time).", "time.Unix", "(*archive/tar.Header).FileInfo", "bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "cmp."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *Exec) pureModel(fr *Frame, st *State, ev *CallEv) []Outcome {
	sig := ev.Sig
	n := sig.Results().Len()
	e := hasErr(sig)
	args := ev.Args
	mk := func(i int) *Term { return x.u.PureI(sig.Results().At(i).Type(), ev.Name, i, args...) }
	if e < 0 {
		var rs []*Term
		for i := 0; i < n; i++ {
			v := mk(i)
			if _, ok := v.typ.Underlying().(*types.Pointer); ok || isIface(v.typ) {
				if x.absOf(st, v).nilness == 0 {
					st.setNil(v, false)
				}
			}
			rs = append(rs, v)
		}
		return []Outcome{{st, pack(x, rs)}}
	}
	s2 := st.clone()
	var r1, r2 []*Term
	for i := 0; i < n; i++ {
		if i == e {
			r1 = append(r1, x.u.Nil(sig.Results().At(i).Type()))
			v := mk(i)
			s2.setNil(v, false)
			r2 = append(r2, v)
			continue
		}
		v := mk(i)
		r1 = append(r1, v)
		if isNilable(v.typ) {
			st.setNil(v, false)
		}
		v2 := x.fresh(fr, s2, ev, sig.Results().At(i).Type(), "ext", i)
		if isNilable(v2.typ) {
			s2.meet(v2, Abs{maybe: true})
		}
		r2 = append(r2, v2)
	}
	return []Outcome{{st, pack(x, r1)}, {s2, pack(x, r2)}}
}

// absPure derives facts of the result of a pure function.
func (x *Exec) absPure(st *State, t *Term, d int, a *Abs) {
	arg := func(i int) Abs { return x.absD(st, t.args[i], d+1) }
	switch t.aux {
	case "min":
		if isInt(t.typ) {
			p, q := arg(0), arg(1)
			if p.lo != nil && q.lo != nil {
				a.lo, a.hi = minBig(p.lo, q.lo), minBig(p.hi, q.hi)
			}
		}
	case "max":
		if isInt(t.typ) {
			p, q := arg(0), arg(1)
			if p.lo != nil && q.lo != nil {
				a.lo, a.hi = maxBig(p.lo, q.lo), maxBig(p.hi, q.hi)
			}
		}
	case "bytes.Compare", "strings.Compare", "cmp.Compare":
		a.lo, a.hi = big.NewInt(-1), bigOne
	case "byteat", "strat":
		if t.aux == "strat" {
			if s, ok := t.args[0].strConst(); ok {
				if c, ok := t.args[1].isIntConst(); ok && c.IsInt64() && c.Sign() >= 0 && c.Int64() < int64(len(s)) {
					v := big.NewInt(int64(s[c.Int64()]))
					a.lo, a.hi = v, v
				}
			}
		}
	case "errors.New", "fmt.Errorf":
		a.nilness = 2
	case "errors.Is":
		e := arg(0)
		if e.nilness == 1 {
			if arg(1).nilness == 2 {
				a.truth = 2
			}
			return
		}
		want, ok := sentinelName(t.args[1])
		if !ok {
			return
		}
		ss := x.sentinels(st, t.args[0])
		has, unknown := 0, false
		for _, s := range ss {
			if s == want {
				has++
			}
			if s == "?" {
				unknown = true
			}
		}
		if len(ss) > 0 && has == len(ss) && e.nilness == 2 {
			a.truth = 1
		}
		if !unknown && has == 0 {
			a.truth = 2
		}
	case "strconv.ParseUint", "strconv.ParseInt":
		if t.idx == 0 && len(t.args) == 3 {
			if b, ok := t.args[2].isIntConst(); ok && b.Sign() > 0 && b.Int64() < 64 {
				n := int(b.Int64())
				if t.aux == "strconv.ParseUint" {
					a.lo, a.hi = bigZero, new(big.Int).Sub(pow2(n), bigOne)
				} else {
					a.lo, a.hi = new(big.Int).Neg(pow2(n-1)), new(big.Int).Sub(pow2(n-1), bigOne)
				}
			}
		}
	case "strings.HasPrefix":
		if p, ok := t.args[1].strConst(); ok {
			if s, ok := t.args[0].strConst(); ok {
				a.truth = 2
				if strings.HasPrefix(s, p) {
					a.truth = 1
				}
			}
		}
	case "(time.Time).Nanosecond":
		a.lo, a.hi = bigZero, big.NewInt(999999999)
	case "strings.Count", "unicode/utf8.RuneCountInString":
		a.lo = bigZero
	case "structeq":
		if t.args[0] == t.args[1] {
			a.truth = 1
		}
	}
}

func (x *Exec) assumePure(st *State, t *Term, val bool) bool {
	switch t.aux {
	case "bytes.Equal":
		if val {
			for i, b := range t.args {
				o := t.args[1-i]
				if o.op == OConv {
					if s, ok := o.args[0].strConst(); ok {
						x.sliceEq(st, b, s)
					}
				}
			}
		}
	case "strings.HasPrefix":
		if val {
			if p, ok := t.args[1].strConst(); ok {
				ln := x.u.Len(t.args[0])
				st.meet(ln, Abs{lo: big.NewInt(int64(len(p)))})
			}
		}
	}
	return true
}

// sliceEq records that the bytes of b are those of s.
func (x *Exec) sliceEq(st *State, b *Term, s string) {
	x.stringEq(st, x.convert(st, types.Typ[types.String], b), s)
}

func sentinelName(t *Term) (string, bool) {
	if t.op == OInit && t.args[0].op == OGlobal && isError(t.typ) {
		g := t.args[0].glob
		if n, ok := sentinelAlias[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
			return n, true
		}
		return g.Pkg.Pkg.Path() + "." + g.Name(), true
	}
	return "", false
}

var sentinelAlias = map[string]string{
	"os.ErrNotExist": "io/fs.ErrNotExist", "os.ErrInvalid": "io/fs.ErrInvalid", "os.ErrExist": "io/fs.ErrExist", "os.ErrClosed": "io/fs.ErrClosed", "os.ErrPermission": "io/fs.ErrPermission",
}

// sentinels lists the sentinel errors an error value is or wraps: "?" if unknown, "new" for an error of its own.
// A value with several alternatives lists those of each.
func (x *Exec) sentinels(st *State, t *Term) []string {
	set := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if seen[t] || d > 8 {
			return
		}
		seen[t] = true
		if t.isNil() {
			return
		}
		if n, ok := sentinelName(t); ok {
			set[n] = true
			return
		}
		if t.op == OPure && t.aux == "errors.New" {
			set["new"] = true
			return
		}
		if t.op == OPure && t.aux == "fmt.Errorf" {
			n := 0
			for _, a := range t.args {
				rec(a, d+1)
				n++
			}
			if n == 0 {
				set["new"] = true
			}
			return
		}
		if t.op == OIface && structOf(t.args[0].typ) != nil {
			// a struct that wraps an error (fs.PathError)
			s := structOf(t.args[0].typ)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Err" && isError(s.Field(i).Type()) {
					var v *Term
					if _, ptr := t.args[0].typ.Underlying().(*types.Pointer); ptr {
						v = x.peek(st, x.u.FieldAddr(t.args[0], i))
					} else {
						v = x.u.Field(t.args[0], i)
					}
					if v != nil {
						rec(v, d+1)
						return
					}
				}
			}
		}
		if al, ok := st.alts[t]; ok && len(al) > 0 {
			for _, a := range al {
				rec(a, d+1)
			}
			return
		}
		set["?"] = true
	}
	rec(t, 0)
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- table ------------------------------------------------------------------

func modelTable() map[string]model {
	m := map[string]model{}
	noop := func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome { return []Outcome{{st, nil}} }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Lock", "(sync.Locker).Unlock"} {
		m[n] = noop
	}
	m["(*sync.Once).Do"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		// The function is analysed as if it ran at every call: what it stores is what any
		// earlier run stored, and is read only after such a call.
		x.strong++
		defer func() { x.strong-- }()
		outs := x.callValue(fr, st, ev.Instr, ev.Args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false))
		for i := range outs {
			outs[i].res = nil
		}
		return outs
	}
	m["errors.New"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		return []Outcome{{st, x.u.PureI(ev.Sig.Results().At(0).Type(), "errors.New", x.u.iid(ev.Instr))}}
	}
	m["fmt.Errorf"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		var wrapped []*Term
		f, known := ev.Args[0].strConst()
		if !known || strings.Contains(f, "%w") {
			es, ok := x.elems(st, ev.Args[1])
			if ok {
				for _, e := range es {
					if e.typ != nil && (isError(e.typ) || e.op == OIface && implementsErr(e.args[0].typ)) {
						wrapped = append(wrapped, e)
					}
				}
			}
			if len(wrapped) == 0 {
				s := x.u.Sym(ev.Sig.Results().At(0).Type(), "wrapped", fr.ctx, ev.Instr, "", 0)
				wrapped = append(wrapped, s)
			}
		}
		return []Outcome{{st, x.u.PureI(ev.Sig.Results().At(0).Type(), "fmt.Errorf", x.u.iid(ev.Instr), wrapped...)}}
	}
	m["fmt.Sprintf"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		as := []*Term{ev.Args[0]}
		if es, ok := x.exactElems(st, ev.Args[1]); ok {
			as = append(as, es...)
		} else {
			as = append(as, ev.Args[1])
		}
		return []Outcome{{st, x.u.Pure(ev.Sig.Results().At(0).Type(), "fmt.Sprintf", as...)}}
	}
	m["(io.ReaderAt).ReadAt"] = modelReadAt
	m["(*os.File).ReadAt"] = modelReadAt
	m["(*bytes.Reader).ReadAt"] = modelReadAt
	m["(*io.SectionReader).ReadAt"] = modelReadAt
	readN := func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		// io.Reader: 0 <= n <= len(p)
		x.havocArg(st, ev.Args[0], fr, ev.Instr)
		x.blur(st, fr, ev.Instr, ev.Args[1])
		n := x.fresh(fr, st, ev, types.Typ[types.Int], "n", 0)
		st.meet(n, Abs{lo: bigZero})
		x.relate(st, n, x.u.Len(ev.Args[1]), 0)
		s2 := st.clone()
		e := x.fresh(fr, s2, ev, errorType, "exterr", 1)
		s2.setNil(e, false)
		return []Outcome{{st, x.u.Tuple(n, x.u.Nil(errorType))}, {s2, x.u.Tuple(n, e)}}
	}
	for _, n := range []string{"(io.Reader).Read", "(*archive/tar.Reader).Read", "(*bytes.Buffer).Read", "(*bytes.Reader).Read", "(*strings.Reader).Read", "(*io.SectionReader).Read"} {
		m[n] = readN
	}
	m["io.ReadFull"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		x.havocArg(st, ev.Args[0], fr, ev.Instr)
		ln := x.u.Len(ev.Args[1])
		s2 := st.clone()
		x.setContent(st, fr, ev, ev.Args[1])
		x.blur(s2, fr, ev.Instr, ev.Args[1])
		n := x.fresh(fr, s2, ev, types.Typ[types.Int], "n", 0)
		s2.meet(n, Abs{lo: bigZero})
		x.relate(s2, n, ln, -1)
		e := x.fresh(fr, s2, ev, errorType, "exterr", 1)
		s2.setNil(e, false)
		return []Outcome{{st, x.u.Tuple(ln, x.u.Nil(errorType))}, {s2, x.u.Tuple(n, e)}}
	}
	m["encoding/binary.Read"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		s2 := st.clone()
		x.readInto(st, fr, ev, ev.Args[2])
		e := x.fresh(fr, s2, ev, errorType, "exterr", 0)
		s2.setNil(e, false)
		x.readInto(s2, fr, ev, ev.Args[2])
		return []Outcome{{st, x.u.Nil(errorType)}, {s2, e}}
	}
	m["encoding/binary.Size"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		v := ev.Args[0]
		if v.op == OIface {
			t := v.args[0].typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if n := binSize(t); n >= 0 {
				return []Outcome{{st, x.u.Int(types.Typ[types.Int], n)}}
			}
		}
		// alternatives
		if cs, ok := x.concrete(st, v); ok {
			lo, hi := int64(-1), int64(-1)
			for i, c := range cs {
				t := c.typ
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				n := binSize(t)
				if i == 0 || n < lo {
					lo = n
				}
				if i == 0 || n > hi {
					hi = n
				}
			}
			r := x.u.Pure(types.Typ[types.Int], "binary.Size", v)
			if lo >= 0 {
				if lo == hi {
					return []Outcome{{st, x.u.Int(types.Typ[types.Int], lo)}}
				}
				st.meet(r, Abs{lo: big.NewInt(lo), hi: big.NewInt(hi)})
			}
			return []Outcome{{st, r}}
		}
		r := x.u.Pure(types.Typ[types.Int], "binary.Size", v)
		st.meet(r, Abs{lo: big.NewInt(-1)})
		return []Outcome{{st, r}}
	}
	errOnly := func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		// reads its arguments only, returns an error (and results)
		if ev.Args[0] != nil {
			x.havocArg(st, ev.Args[0], fr, ev.Instr)
		}
		s2 := st.clone()
		o1 := Outcome{st, pack(x, x.results(fr, st, ev, "ext", true))}
		o2 := Outcome{s2, pack(x, x.results(fr, s2, ev, "ext", false))}
		return []Outcome{o1, o2}
	}
	for _, n := range []string{"encoding/binary.Write", "io.WriteString", "(io.Writer).Write", "(io.WriterAt).WriteAt", "(*archive/tar.Writer).WriteHeader", "(*archive/tar.Writer).Write", "(*archive/tar.Writer).Close", "(*archive/tar.Writer).Flush", "fmt.Fprintf", "fmt.Fprint"} {
		m[n] = errOnly
	}
	cleanErr := func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		// (*bytes.Buffer) writes never fail
		return []Outcome{{st, pack(x, x.results(fr, st, ev, "ext", true))}}
	}
	for _, n := range []string{"(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune"} {
		m[n] = cleanErr
	}
	m["io.Copy"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		for _, a := range ev.Args {
			x.havocArg(st, a, fr, ev.Instr)
		}
		n := x.fresh(fr, st, ev, types.Typ[types.Int64], "n", 0)
		st.meet(n, Abs{lo: bigZero})
		s2 := st.clone()
		e := x.fresh(fr, s2, ev, errorType, "exterr", 1)
		s2.setNil(e, false)
		return []Outcome{{st, x.u.Tuple(n, x.u.Nil(errorType))}, {s2, x.u.Tuple(n, e)}}
	}
	m["io.CopyN"], m["io.CopyBuffer"] = m["io.Copy"], m["io.Copy"]
	obj := func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		t := ev.Sig.Results().At(0).Type()
		o := x.u.mk(Term{op: OObj, typ: t, aux: ev.Name, sym: x.u.symbol("obj", fr.ctx, ev.Instr, ev.Name, 0, false), args: ev.Args})
		return []Outcome{{st, o}}
	}
	for _, n := range []string{"io.NewSectionReader", "io.NewOffsetWriter", "io.NopCloser", "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "archive/tar.NewReader", "archive/tar.NewWriter", "io.LimitReader", "io.TeeReader", "bufio.NewReader", "bufio.NewWriter"} {
		m[n] = obj
	}
	m["io.MultiReader"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		t := ev.Sig.Results().At(0).Type()
		es, _ := x.elems(st, ev.Args[0])
		o := x.u.mk(Term{op: OObj, typ: t, aux: ev.Name, sym: x.u.symbol("obj", fr.ctx, ev.Instr, ev.Name, 0, false), args: es})
		return []Outcome{{st, o}}
	}
	m["(*archive/tar.Reader).Next"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		x.havocArg(st, ev.Args[0], fr, ev.Instr)
		hp := ev.Sig.Results().At(0).Type()
		h := x.u.mk(Term{op: OAlloc, typ: hp, sym: x.u.symbol("ext", fr.ctx, ev.Instr, "tar header", 0, false)})
		s2, s3 := st.clone(), st.clone()
		for k := range st.mem {
			if rootOfCell(k) == h {
				delete(st.mem, k)
			}
		}
		e := x.fresh(fr, s3, ev, errorType, "exterr", 1)
		s3.setNil(e, false)
		outs := []Outcome{{st, x.u.Tuple(h, x.u.Nil(errorType))}}
		if g := x.stdGlobal("io", "EOF"); g != nil {
			outs = append(outs, Outcome{s2, x.u.Tuple(x.u.Nil(hp), g)})
			st.meet(x.u.Pure(types.Typ[types.Bool], "errors.Is", e, g), Abs{truth: 2})
			s3.meet(x.u.Pure(types.Typ[types.Bool], "errors.Is", e, g), Abs{truth: 2})
			s3.meet(x.u.Bin(eqTok, types.Typ[types.Bool], e, g), Abs{truth: 2})
		}
		return append(outs, Outcome{s3, x.u.Tuple(x.u.Nil(hp), e)})
	}
	m["archive/tar.FileInfoHeader"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		hp := ev.Sig.Results().At(0).Type()
		h := x.u.mk(Term{op: OAlloc, typ: hp, sym: x.u.symbol("ext", fr.ctx, ev.Instr, "tar header", 0, false)})
		s2 := st.clone()
		for k := range st.mem {
			if rootOfCell(k) == h {
				delete(st.mem, k)
			}
		}
		e := x.fresh(fr, s2, ev, errorType, "exterr", 1)
		s2.setNil(e, false)
		return []Outcome{{st, x.u.Tuple(h, x.u.Nil(errorType))}, {s2, x.u.Tuple(x.u.Nil(hp), e)}}
	}
	m["io/fs.WalkDir"] = modelWalkDir
	idx := func(lenOff int) model {
		return func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
			r := x.fresh(fr, st, ev, types.Typ[types.Int], "idx", 0)
			st.meet(r, Abs{lo: big.NewInt(-1)})
			x.relate(st, r, x.u.Len(ev.Args[0]), -1)
			return []Outcome{{st, r}}
		}
	}
	for _, n := range []string{"bytes.IndexByte", "bytes.LastIndexByte", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "bytes.IndexAny"} {
		m[n] = idx(-1)
	}
	for _, n := range []string{"bytes.Index", "bytes.LastIndex", "strings.Index", "strings.LastIndex", "slices.Index", "slices.IndexFunc"} {
		m[n] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
			r := x.fresh(fr, st, ev, types.Typ[types.Int], "idx", 0)
			st.meet(r, Abs{lo: big.NewInt(-1)})
			x.relate(st, r, x.u.Len(ev.Args[0]), 0)
			return []Outcome{{st, r}}
		}
	}
	m["strings.Split"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		outs := x.pureModel(fr, st, ev)
		if s, ok := ev.Args[1].strConst(); ok && s != "" {
			st.meet(x.u.Len(outs[0].res), Abs{lo: bigOne})
			st.setNil(outs[0].res, false)
		}
		return outs
	}
	trim := func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		r := x.u.Pure(ev.Sig.Results().At(0).Type(), ev.Name, ev.Args...)
		x.relate(st, x.u.Len(r), x.u.Len(ev.Args[0]), 0)
		if isString(r.typ) {
			if a, ok := ev.Args[0].strConst(); ok && len(ev.Args) == 2 {
				if b, ok := ev.Args[1].strConst(); ok {
					switch ev.Name {
					case "strings.TrimPrefix":
						return []Outcome{{st, x.u.Const(r.typ, constant.MakeString(strings.TrimPrefix(a, b)))}}
					case "strings.TrimSuffix":
						return []Outcome{{st, x.u.Const(r.typ, constant.MakeString(strings.TrimSuffix(a, b)))}}
					}
				}
			}
		}
		return []Outcome{{st, r}}
	}
	for _, n := range []string{"strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim"} {
		m[n] = trim
	}
	m["(io/fs.FileMode).Perm"] = maskModel(0o777)
	m["(io/fs.FileMode).Type"] = maskModel(modeType)
	m["(io/fs.FileMode).IsDir"] = bitModel(modeDir, true)
	m["(io/fs.FileMode).IsRegular"] = bitModel(modeType, false)
	m["(io/fs.FileInfo).IsDir"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		return []Outcome{{st, x.modeBit(x.modeOf(ev.Args[0], "(io/fs.FileInfo).Mode"), modeDir, true)}}
	}
	m["(io/fs.DirEntry).IsDir"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		return []Outcome{{st, x.modeBit(x.modeOf(ev.Args[0], "(io/fs.DirEntry).Type"), modeDir, true)}}
	}
	m["(io/fs.FileInfo).Mode"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		return []Outcome{{st, x.modeOf(ev.Args[0], ev.Name)}}
	}
	m["(io/fs.DirEntry).Type"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		return []Outcome{{st, x.modeOf(ev.Args[0], ev.Name)}}
	}
	m["(io/fs.DirEntry).Info"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		return x.summary(fr, st, ev, "ext")
	}
	sortSlice := func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		s := ev.Args[0]
		if s.op == OIface {
			s = s.args[0]
		}
		x.blurOrder(st, fr, ev.Instr, s)
		if len(ev.Args) > 1 {
			if f := ev.Args[1]; f.op == OClosure || f.op == OFunc && f.fn.Blocks != nil && inModule(f.fn) {
				sig := f.fn.Signature
				var as []*Term
				q := st.clone()
				for i := 0; i < sig.Params().Len(); i++ {
					pt := sig.Params().At(i).Type()
					var v *Term
					if isInt(pt) {
						v = x.u.Sym(pt, "sortidx", fr.ctx, ev.Instr, "", i)
						delete(q.abs, v)
						q.meet(v, Abs{lo: bigZero})
						x.relate(q, v, x.u.Len(s), -1)
					} else {
						v = x.u.Sym(pt, "sortelem", fr.ctx, ev.Instr, "", i)
						delete(q.abs, v)
						delete(q.alts, v)
						if es, ok := x.elems(q, s); ok && len(es) > 0 && len(es) <= maxAlts {
							if len(es) == 1 && isStruct(pt) {
								v = es[0]
							} else {
								q.alts[v] = es
							}
						} else if isNilable(pt) {
							q.setNil(v, false)
						}
					}
					as = append(as, v)
				}
				x.callValue(fr, q, ev.Instr, f, as, sig)
			}
		}
		return []Outcome{{st, nil}}
	}
	for _, n := range []string{"slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Strings", "sort.Slice", "sort.SliceStable", "sort.Ints", "slices.Reverse"} {
		m[n] = sortSlice
	}
	sortIface := func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		v := ev.Args[0]
		if v.op == OIface {
			if p := v.args[0]; p.typ != nil {
				root := p
				_ = root
				x.blurReach(st, fr, ev.Instr, p)
			}
			// the methods themselves
			q := st.clone()
			var n *Term
			for _, name := range []string{"Len", "Less", "Swap"} {
				obj, _, _ := types.LookupFieldOrMethod(v.args[0].typ, true, nil, name)
				f, ok := obj.(*types.Func)
				if !ok {
					continue
				}
				var as []*Term
				if name != "Len" {
					for i := 0; i < 2; i++ {
						a := x.u.Sym(types.Typ[types.Int], "sortidx", fr.ctx, ev.Instr, name, i)
						delete(q.abs, a)
						q.meet(a, Abs{lo: bigZero})
						if n != nil {
							x.relate(q, a, n, -1)
						}
						as = append(as, a)
					}
				}
				outs := x.callMethod(fr, q, ev.Instr, v.args[0], f, as)
				if name == "Len" && len(outs) == 1 {
					n = outs[0].res
				}
				if len(outs) > 0 {
					q = outs[0].st
				}
			}
		}
		return []Outcome{{st, nil}}
	}
	m["sort.Sort"], m["sort.Stable"] = sortIface, sortIface
	m["slices.Clone"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		s := ev.Args[0]
		typ := ev.Sig.Results().At(0).Type()
		if s.isNil() {
			return []Outcome{{st, s}}
		}
		return []Outcome{{st, x.appendModel(fr, st, ev.Instr, typ, []*Term{x.u.Nil(typ), s})}}
	}
	m["bytes.Clone"] = func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		r := x.u.mk(Term{op: OObj, typ: ev.Sig.Results().At(0).Type(), aux: ev.Name, sym: x.u.symbol("obj", fr.ctx, ev.Instr, ev.Name, 0, false), args: ev.Args})
		return []Outcome{{st, r}}
	}
	return m
}

func implementsErr(t types.Type) bool {
	return types.Implements(t, errorType.Underlying().(*types.Interface))
}

// stdGlobal is the value of a library variable.
func (x *Exec) stdGlobal(pkg, name string) *Term {
	p := x.p.Prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	g := p.Var(name)
	if g == nil {
		return nil
	}
	a := x.globalAddr(g)
	return x.u.mk(Term{op: OInit, typ: derefType(a.typ), args: []*Term{a}})
}

const (
	modeDir  = 1 << 31
	modeType = 1<<31 | 1<<27 | 1<<26 | 1<<25 | 1<<24 | 1<<21 | 1<<19
)

func maskModel(mask int64) model {
	return func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		t := ev.Args[0].typ
		return []Outcome{{st, x.u.Bin(andTok, t, ev.Args[0], x.u.Int(t, mask))}}
	}
}

func (x *Exec) modeBit(v *Term, mask int64, set bool) *Term {
	b := types.Typ[types.Bool]
	c := x.u.Bin(eqTok, b, x.u.Bin(andTok, v.typ, v, x.u.Int(v.typ, mask)), x.u.Int(v.typ, 0))
	if set {
		return x.u.Not(c)
	}
	return c
}

func bitModel(mask int64, set bool) model {
	return func(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
		return []Outcome{{st, x.modeBit(ev.Args[0], mask, set)}}
	}
}

func (x *Exec) modeOf(recv *Term, name string) *Term {
	return x.u.Pure(x.fileModeType(), name, recv)
}

func (x *Exec) fileModeType() types.Type {
	if p := x.p.Prog.ImportedPackage("io/fs"); p != nil {
		return p.Pkg.Scope().Lookup("FileMode").Type()
	}
	return types.Typ[types.Uint32]
}

func binSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String, types.UnsafePointer:
			return -1
		case types.Bool:
			return 1
		}
		if isInt(t) {
			return int64(bitSize(t) / 8)
		}
		switch u.Kind() {
		case types.Float32:
			return 4
		case types.Float64, types.Complex64:
			return 8
		}
		return -1
	case *types.Array:
		n := binSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * u.Len()
	case *types.Struct:
		s := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// setContent: a buffer now holds library-provided bytes.
func (x *Exec) setContent(st *State, fr *Frame, ev *CallEv, p *Term) {
	x.blur(st, fr, ev.Instr, p)
	if p.op != OSlice || p.args[0].op != OAlloc {
		return
	}
	if c, ok := p.args[1].isIntConst(); !ok || c.Sign() != 0 {
		return
	}
	elem := elemType(p.typ)
	c := x.fresh(fr, st, ev, elem, "content", 0)
	for k := range st.abs {
		if k.op == OPure && k.aux == "byteat" && k.args[0] == c {
			delete(st.abs, k)
		}
	}
	st.mem[x.star(p.args[0], elem)] = c
}

func modelReadAt(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
	u := x.u
	p := ev.Args[1]
	ln := u.Len(p)
	it := types.Typ[types.Int]
	eof := x.stdGlobal("io", "EOF")
	var outs []Outcome
	// all bytes
	full := st.clone()
	x.setContent(full, fr, ev, p)
	outs = append(outs, Outcome{full, u.Tuple(ln, u.Nil(errorType))})
	if eof != nil {
		f2 := full.clone()
		outs = append(outs, Outcome{f2, u.Tuple(ln, eof)})
		// short
		s := st.clone()
		x.blur(s, fr, ev.Instr, p)
		n := x.fresh(fr, s, ev, it, "n", 0)
		s.meet(n, Abs{lo: bigZero})
		x.relate(s, n, ln, -1)
		if x.absOf(s, ln).hi == nil || x.absOf(s, ln).hi.Sign() > 0 {
			outs = append(outs, Outcome{s, u.Tuple(n, eof)})
		}
	}
	s := st
	x.blur(s, fr, ev.Instr, p)
	n := x.fresh(fr, s, ev, it, "n", 0)
	s.meet(n, Abs{lo: bigZero})
	x.relate(s, n, ln, 0)
	e := x.fresh(fr, s, ev, errorType, "exterr", 1)
	s.setNil(e, false)
	if eof != nil {
		s.meet(u.Pure(types.Typ[types.Bool], "errors.Is", e, eof), Abs{truth: 2})
		s.meet(u.Bin(eqTok, types.Typ[types.Bool], e, eof), Abs{truth: 2})
	}
	outs = append(outs, Outcome{s, u.Tuple(n, e)})
	return outs
}

// readInto: the pointee of an argument has been filled from input.
func (x *Exec) readInto(st *State, fr *Frame, ev *CallEv, v *Term) {
	if v.op == OIface {
		v = v.args[0]
	}
	t := derefType(v.typ)
	if t == nil {
		x.blur(st, fr, ev.Instr, v)
		return
	}
	x.forLeaves(v, t, func(a *Term, lt types.Type) {
		s := x.fresh(fr, st, ev, lt, "read", a.id)
		x.store(st, a, s, fr.ctx, ev.Instr)
	})
}

func modelWalkDir(x *Exec, fr *Frame, st *State, ev *CallEv) []Outcome {
	fn := ev.Args[2]
	if fn.op != OClosure && fn.op != OFunc {
		return x.extern(fr, st, ev)
	}
	skipDir, skipAll := x.stdGlobal("io/fs", "SkipDir"), x.stdGlobal("io/fs", "SkipAll")
	sig := fn.fn.Signature
	mkArgs := func(s *State, ctx *Ctx, first bool) []*Term {
		var as []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			v := x.u.Sym(sig.Params().At(i).Type(), "walk", ctx, ev.Instr, "", i)
			delete(s.abs, v)
			delete(s.alts, v)
			for k := range s.abs {
				for _, sy := range k.syms {
					if sy == v.sym {
						delete(s.abs, k)
						break
					}
				}
			}
			if i == 0 && first {
				v = ev.Args[1]
			} else if i == 0 {
				s.meet(x.u.Bin(eqTok, types.Typ[types.Bool], v, ev.Args[1]), Abs{truth: 2})
				if ev.Args[1].op == OConst {
					s.meet(v, Abs{ne: []constant.Value{ev.Args[1].val}})
				}
			}
			if i == 1 { // nil when there is an error; handled through the error
				s.setNil(v, false)
			}
			as = append(as, v)
		}
		return as
	}
	stop := func(s *State, res *Term) []cbEnd {
		var out []cbEnd
		ab := x.absOf(s, res)
		if ab.nilness != 2 {
			n := s.clone()
			x.setNilTerm(n, res, true)
			out = append(out, cbEnd{n.clone(), x.u.Nil(errorType), false}, cbEnd{n, nil, true})
		}
		if ab.nilness != 1 {
			e := s
			x.setNilTerm(e, res, false)
			isSkip := false
			for _, n := range x.sentinels(e, res) {
				if n == "io/fs.SkipDir" || n == "io/fs.SkipAll" {
					isSkip = true
				}
			}
			if isSkip {
				k := e.clone()
				k.setProp("walkskip", nil)
				out = append(out, cbEnd{k.clone(), x.u.Nil(errorType), false}, cbEnd{k, nil, true})
			}
			out = append(out, cbEnd{e, res, false})
		}
		return out
	}
	_, _ = skipDir, skipAll
	return x.callbackLoop(fr, st, ev, fn, mkArgs, stop)
}

// blurOrder forgets which element is where.
func (x *Exec) blurOrder(st *State, fr *Frame, in ssa.Instruction, s *Term) {
	elem := elemType(s.typ)
	for _, t := range append([]*Term{s}, x.flatAlts(st, s)...) {
		base := t
		if t.op == OSlice {
			base = t.args[0]
		}
		x.collapse(st, fr, in, base, elem)
	}
}

func (x *Exec) blurReach(st *State, fr *Frame, in ssa.Instruction, p *Term) {
	// every slice field of the object
	t := p.typ
	s := structOf(t)
	if s == nil {
		if _, ok := t.Underlying().(*types.Slice); ok {
			x.blurOrder(st, fr, in, p)
		}
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		var v *Term
		if _, ptr := t.Underlying().(*types.Pointer); ptr {
			v = x.load(st, x.u.FieldAddr(p, i), s.Field(i).Type())
		} else {
			v = x.u.Field(p, i)
		}
		if v != nil {
			x.blurOrder(st, fr, in, v)
		}
	}
}

var (
	addTok = token.ADD
	andTok = token.AND
	eqTok  = token.EQL
)
