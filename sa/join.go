package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// root set bookkeeping -------------------------------------------------------

func addTerm(set map[*Term]bool, syms map[*Sym]bool, t *Term) {
	if t == nil || set[t] {
		return
	}
	set[t] = true
	for _, s := range t.syms {
		syms[s] = true
	}
	for _, a := range t.args {
		addTerm(set, syms, a)
	}
}

// reachable computes the terms and symbols that live values refer to.
func reachable(st *State, roots []*Term) (map[*Term]bool, map[*Sym]bool) {
	set, syms := map[*Term]bool{}, map[*Sym]bool{}
	for _, r := range roots {
		addTerm(set, syms, r)
	}
	for k, v := range st.mem {
		addTerm(set, syms, k)
		addTerm(set, syms, v)
	}
	for _, v := range st.prop {
		addTerm(set, syms, v)
	}
	// alternatives of reachable symbols
	for changed := true; changed; {
		changed = false
		for k, al := range st.alts {
			if set[k] {
				for _, a := range al {
					if !set[a] {
						addTerm(set, syms, a)
						changed = true
					}
				}
			}
		}
	}
	return set, syms
}

// rename applies a symbol renaming to a state. Objects that are renamed onto existing
// ones are merged (weakly).
func (x *Exec) rename(st *State, f func(*Sym) *Sym, ctx *Ctx, at ssa.Instruction) (*State, func(*Term) *Term) {
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return x.u.subst(t, f, memo)
	}
	n := &State{mem: make(map[*Term]*Term, len(st.mem)), abs: make(map[*Term]Abs, len(st.abs)), rel: map[relKey]int64{}, alts: map[*Term][]*Term{}, prop: make(map[string]*Term, len(st.prop)), cond: map[condKey]map[*Term]Abs{}, trace: st.trace}
	// facts
	type fk struct {
		t *Term
		a Abs
	}
	var moved []fk
	for t, a := range st.abs {
		s := sub(t)
		if s == t {
			n.abs[t] = meetAbs(n.abs[t], a)
		} else {
			moved = append(moved, fk{t, a})
		}
	}
	oldSeen := map[*Term]bool{}
	for t := range st.abs {
		oldSeen[t] = true
	}
	_, liveSyms := reachable(st, nil)
	for _, m := range moved {
		s := sub(m.t)
		// If the renamed symbol denoted something already, only the common facts hold.
		exists := false
		for _, sy := range s.syms {
			if sy.old && liveSyms[sy] {
				was := false
				for _, o := range m.t.syms {
					if o == sy {
						was = true
					}
				}
				if !was {
					exists = true
				}
			}
		}
		if exists {
			o := st.abs[s]
			if !oldSeen[s] {
				o = Abs{}
			}
			o = meetAbs(x.absStructOnly(st, s), o)
			j := joinAbs(m.a, o)
			if !j.top() {
				n.abs[s] = j
			} else {
				delete(n.abs, s)
			}
		} else if c, ok := n.abs[s]; ok && oldSeen[s] {
			j := joinAbs(m.a, c)
			n.abs[s] = j
		} else {
			n.abs[s] = meetAbs(n.abs[s], m.a)
		}
	}
	for k, c := range st.rel {
		a, b := sub(k.a), sub(k.b)
		if a == k.a && b == k.b {
			n.addRel(a, b, c)
		}
	}
	for k, m := range st.cond {
		s := sub(k.t)
		if s != k.t && liveIn(liveSyms, s) {
			continue
		}
		nm := map[*Term]Abs{}
		for y, f := range m {
			ys := sub(y)
			if ys == y || !liveIn(liveSyms, ys) {
				nm[ys] = f
			}
		}
		if len(nm) > 0 {
			n.cond[condKey{s, k.val}] = nm
		}
	}
	for t, al := range st.alts {
		s := sub(t)
		na := append([]*Term{}, n.alts[s]...)
		if o, ok := st.alts[s]; ok && s != t {
			for _, a := range o {
				na = addAlt(na, sub(a))
			}
		}
		for _, a := range al {
			na = addAlt(na, sub(a))
		}
		n.alts[s] = na
	}
	for t, p := range st.prop {
		n.prop[t] = sub(p)
	}
	// memory: untouched cells first
	type cell struct{ k, v *Term }
	var mv []cell
	keys := sortedTerms(st.mem)
	for _, k := range keys {
		v := st.mem[k]
		s := sub(k)
		if s == k {
			n.mem[k] = sub(v)
		} else {
			mv = append(mv, cell{s, sub(v)})
		}
	}
	for _, c := range mv {
		if e, ok := n.mem[c.k]; ok && e != c.v {
			n.mem[c.k] = x.joinTerm(n, n, n, e, c.v, ctx, at, "fold", c.k, 1)
		} else {
			n.mem[c.k] = c.v
		}
	}
	return n, sub
}

// liveIn: the term involves an old symbol that is in use already.
func liveIn(live map[*Sym]bool, t *Term) bool {
	for _, s := range t.syms {
		if s.old && live[s] {
			return true
		}
	}
	return false
}

func (x *Exec) absStructOnly(st *State, t *Term) Abs { return x.absStruct(st, t, 0) }

func sortedTerms(m map[*Term]*Term) []*Term {
	r := make([]*Term, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

const maxAlts = 10

func addAlt(al []*Term, t *Term) []*Term {
	for _, a := range al {
		if a == t {
			return al
		}
	}
	return append(al, t)
}

var widenSteps []*big.Int

func init() {
	for _, n := range []int{7, 8, 15, 16, 31, 32, 47, 63, 64} {
		widenSteps = append(widenSteps, pow2(n), new(big.Int).Sub(pow2(n), bigOne), new(big.Int).Neg(pow2(n)))
	}
	for _, v := range []int64{-1, 0, 1, 8, 16, 32, 64, 128, 512, 1024, 4096} {
		widenSteps = append(widenSteps, big.NewInt(v))
	}
	sort.Slice(widenSteps, func(i, j int) bool { return widenSteps[i].Cmp(widenSteps[j]) < 0 })
}

// After some rounds the bounds that still move are given up.
func widenAbs(old, nw Abs, round int) Abs {
	if round > 10 {
		if old.lo != nil && nw.lo != nil && nw.lo.Cmp(old.lo) < 0 {
			nw.lo = nil
		}
		if old.hi != nil && nw.hi != nil && nw.hi.Cmp(old.hi) > 0 {
			nw.hi = nil
		}
		return nw
	}
	if old.lo != nil && nw.lo != nil && nw.lo.Cmp(old.lo) < 0 {
		var r *big.Int
		for i := len(widenSteps) - 1; i >= 0; i-- {
			if widenSteps[i].Cmp(nw.lo) <= 0 {
				r = widenSteps[i]
				break
			}
		}
		nw.lo = r
	}
	if old.hi != nil && nw.hi != nil && nw.hi.Cmp(old.hi) > 0 {
		var r *big.Int
		for i := 0; i < len(widenSteps); i++ {
			if widenSteps[i].Cmp(nw.hi) >= 0 {
				r = widenSteps[i]
				break
			}
		}
		nw.hi = r
	}
	return nw
}

// joinTerm joins value a (of state sa) and b (of state sb) into out.
func (x *Exec) joinTerm(out, sa, sb *State, a, b *Term, ctx *Ctx, at ssa.Instruction, kind string, addr *Term, round int) *Term {
	if a == b {
		return a
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	u := x.u
	typ := a.typ
	if typ == nil || (a.isNil() && b.typ != nil) {
		typ = b.typ
	}
	if a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args) {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = x.joinTerm(out, sa, sb, a.args[i], b.args[i], ctx, at, fmt.Sprintf("%s.%d", kind, i), addr, round)
		}
		return u.Tuple(args...)
	}
	if st := typ; st != nil && (a.op == OStruct || b.op == OStruct) && structOf(st) != nil && a.typ != nil && b.typ != nil && structOf(a.typ) != nil && structOf(b.typ) != nil {
		if sx, isS := st.Underlying().(*types.Struct); isS {
			n := sx.NumFields()
			args := make([]*Term, n)
			for i := range args {
				args[i] = x.joinTerm(out, sa, sb, u.Field(a, i), u.Field(b, i), ctx, at, fmt.Sprintf("%s.%d", kind, i), addr, round)
			}
			return u.Struct(typ, args)
		}
	}
	if a.op == OIface && b.op == OIface && a.typ != nil && u.tkey(a.args[0].typ) == u.tkey(b.args[0].typ) {
		v := x.joinTerm(out, sa, sb, a.args[0], b.args[0], ctx, at, kind+"i", addr, round)
		return u.mk(Term{op: OIface, typ: a.typ, args: []*Term{v}})
	}
	aid := 0
	if addr != nil {
		aid = addr.id
	}
	if typ != nil && a.typ != nil && b.typ != nil && isIface(a.typ) != isIface(b.typ) {
		if isIface(a.typ) {
			typ = a.typ
		} else {
			typ = b.typ
		}
	}
	j := u.Sym(typ, "join", ctx, at, fmt.Sprintf("%s:%d", kind, aid), 0)
	if j.op == OSym && typ == nil {
		return j
	}
	// facts
	Aa, Ab := x.absOf(sa, a), x.absOf(sb, b)
	ja := joinAbs(Aa, Ab)
	if a == j || b == j {
		if round > 1 {
			if a == j {
				ja = widenAbs(Aa, ja, round)
			}
		}
	}
	// alternatives
	var al []*Term
	expl := func(s *State, t *Term) bool {
		if t == j {
			o, ok := s.alts[t]
			if !ok {
				return false
			}
			for _, e := range o {
				al = addAlt(al, e)
			}
			return true
		}
		if t.op == OSym && t.sym.kind == "join" {
			if o, ok := s.alts[t]; ok {
				for _, e := range o {
					if e != j {
						al = addAlt(al, e)
					}
				}
				return true
			}
			return false
		}
		al = addAlt(al, t)
		return true
	}
	ok := expl(sa, a) && expl(sb, b)
	if typ != nil && isInt(typ) {
		ok = false
	}
	if typ != nil && isString(typ) {
		for _, e := range al {
			if e.op != OConst {
				ok = false
			}
		}
	}
	if ok && len(al) <= maxAlts {
		out.alts[j] = al
	} else {
		delete(out.alts, j)
	}
	if ja.top() {
		delete(out.abs, j)
	} else {
		out.abs[j] = ja
	}
	if sa == sb {
		out.forgetCond(j)
	} else if x.pairs != nil {
		*x.pairs = append(*x.pairs, joinPair{a, b, j})
	}
	return j
}

type joinPair struct{ a, b, j *Term }

func isCase(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	switch u := t.typ.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	case *types.Basic:
		return u.Info()&types.IsBoolean != 0
	}
	return false
}

// decided: 0 unknown, 1 nil (true), 2 not.
func (x *Exec) decided(st *State, t *Term) int8 {
	f := x.absOf(st, t)
	if f.nilness != 0 {
		return f.nilness
	}
	return f.truth
}

// joinCond finds the facts about joined values that depend on the case another one is in.
func (x *Exec) joinCond(out, a, b *State, pairs []joinPair, known func(side int, t *Term) bool) {
	byJ := map[*Term]joinPair{}
	var ps []joinPair
	for _, p := range pairs {
		if _, ok := byJ[p.j]; !ok && p.a != nil && p.b != nil {
			byJ[p.j] = p
			ps = append(ps, p)
		}
	}
	// values that are the same on both sides but carry conditional facts
	same := map[*Term]bool{}
	for _, st := range []*State{a, b} {
		for k, m := range st.cond {
			same[k.t] = true
			for y := range m {
				same[y] = true
			}
		}
	}
	for _, t := range sortedKeys(same) {
		if _, ok := byJ[t]; !ok {
			byJ[t] = joinPair{t, t, t}
			ps = append(ps, joinPair{t, t, t})
		}
	}
	type sideFact struct {
		f      Abs
		vacant bool
	}
	side := func(st *State, n int, v, y *Term, val bool) sideFact {
		if !known(n, v) {
			return sideFact{vacant: true}
		}
		want := int8(2)
		if val {
			want = 1
		}
		d := x.decided(st, v)
		if d != 0 && d != want {
			return sideFact{vacant: true}
		}
		f := x.absOf(st, y)
		if m, ok := st.cond[condKey{v, val}]; ok {
			if g, ok := m[y]; ok {
				f = meetAbs(f, g)
			}
		}
		return sideFact{f: f}
	}
	for _, px := range ps {
		if !isCase(px.j) {
			continue
		}
		da, db := x.decided(a, px.a), x.decided(b, px.b)
		_, c1 := a.cond[condKey{px.a, true}]
		_, c2 := a.cond[condKey{px.a, false}]
		_, c3 := b.cond[condKey{px.b, true}]
		_, c4 := b.cond[condKey{px.b, false}]
		if !(c1 || c2 || c3 || c4) && (da == db || da == 0 && db == 0) {
			continue
		}
		if px.j.op == OConst || da != 0 && da == db {
			continue
		}
		for _, val := range []bool{true, false} {
			var m map[*Term]Abs
			for _, py := range ps {
				if py.j == px.j || py.j.op == OConst {
					continue
				}
				fa, fb := side(a, 0, px.a, py.a, val), side(b, 1, px.b, py.b, val)
				var f Abs
				switch {
				case fa.vacant && fb.vacant:
					continue
				case fa.vacant:
					f = fb.f
				case fb.vacant:
					f = fa.f
				default:
					f = joinAbs(fa.f, fb.f)
				}
				base := x.absOf(out, py.j)
				if f.nilness == base.nilness && f.truth == base.truth {
					// only the facts that matter for case distinctions, and bounds
					if f.lo == nil && f.hi == nil || sameBound(f.lo, base.lo) && sameBound(f.hi, base.hi) {
						continue
					}
				}
				if m == nil {
					m = map[*Term]Abs{}
				}
				m[py.j] = Abs{nilness: f.nilness, truth: f.truth, lo: f.lo, hi: f.hi}
			}
			if m != nil {
				out.cond[condKey{px.j, val}] = m
			}
		}
	}
}

func sameBound(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

func sortedKeys(m map[*Term]bool) []*Term {
	var l []*Term
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// missing is the value a cell without a binding has.
func (x *Exec) missing(st *State, k *Term) *Term {
	if x.isBottomCell(k) {
		return nil
	}
	return x.peek(st, k)
}

// isBottomCell: a missing summary cell of a container means that it has no elements.
func (x *Exec) isBottomCell(k *Term) bool {
	r := rootOfCell(k)
	if r.op != OAlloc {
		return false
	}
	if k.op == OIndexAddr && len(k.args) == 1 {
		return true
	}
	if k.op == OPure { // map cells
		return true
	}
	return r.sym.old
}

// joinStates joins b into a; at is the program point. Only the env values in keep are joined.
func (x *Exec) joinStates(a, b *State, ea, eb map[ssa.Value]*Term, keep []ssa.Value, ctx *Ctx, at ssa.Instruction, kind string, round int, extraA, extraB []*Term) (*State, map[ssa.Value]*Term, []*Term) {
	a, b = x.alignMaps(a, b, ctx, at)
	rootsA, rootsB := append([]*Term{}, extraA...), append([]*Term{}, extraB...)
	for _, v := range keep {
		rootsA = append(rootsA, ea[v])
		rootsB = append(rootsB, eb[v])
	}
	_, symsA := reachable(a, rootsA)
	_, symsB := reachable(b, rootsB)
	out := newState()
	out.trace = b.trace
	if a.trace != nil && (out.trace == nil || a.trace.n < out.trace.n) {
		out.trace = a.trace
	}
	known := func(syms map[*Sym]bool, t *Term) bool {
		for _, s := range t.syms {
			if !syms[s] {
				return false
			}
		}
		return true
	}
	var pairs []joinPair
	saved := x.pairs
	x.pairs = &pairs
	defer func() { x.pairs = saved }()
	// facts
	for t, fa := range a.abs {
		if fb, ok := b.abs[t]; ok {
			j := joinAbs(fa, fb)
			if round > 1 {
				j = widenAbs(fa, j, round)
			}
			if !j.top() {
				out.abs[t] = j
			}
			continue
		}
		if known(symsB, t) || len(t.syms) == 0 {
			j := joinAbs(fa, x.absOf(b, t))
			if round > 1 {
				j = widenAbs(fa, j, round)
			}
			if !j.top() {
				out.abs[t] = j
			}
		} else if known(symsA, t) || pinned(t) {
			if !(pinned(t) && known(symsB, t)) {
				out.abs[t] = fa
			}
		}
	}
	for t, fb := range b.abs {
		if _, ok := a.abs[t]; ok {
			continue
		}
		if known(symsA, t) || len(t.syms) == 0 {
			j := joinAbs(x.absOf(a, t), fb)
			if !j.top() {
				out.abs[t] = j
			}
		} else if known(symsB, t) || pinned(t) {
			out.abs[t] = fb
		}
	}
	for k, c := range a.rel {
		if d, ok := b.rel[k]; ok {
			if d > c {
				c = d
			}
			out.rel[k] = c
		} else if !(known(symsB, k.a) && known(symsB, k.b)) && known(symsA, k.a) && known(symsA, k.b) {
			out.rel[k] = c
		} else if x.prove(b, k.a, k.b, c) {
			out.rel[k] = c
		}
	}
	for k, c := range b.rel {
		if _, ok := a.rel[k]; !ok && !(known(symsA, k.a) && known(symsA, k.b)) && known(symsB, k.a) && known(symsB, k.b) {
			out.rel[k] = c
		} else if !ok && x.prove(a, k.a, k.b, c) {
			out.rel[k] = c
		}
	}
	for t, al := range a.alts {
		na := append([]*Term{}, al...)
		if bl, ok := b.alts[t]; ok {
			for _, e := range bl {
				na = addAlt(na, e)
			}
		} else if known(symsB, t) {
			continue // anything there
		}
		if len(na) <= maxAlts {
			out.alts[t] = na
		}
	}
	for t, bl := range b.alts {
		if _, ok := a.alts[t]; !ok && !known(symsA, t) {
			out.alts[t] = bl
		}
	}
	// prop: same key; terms may differ
	for k, ta := range a.prop {
		tb, ok := b.prop[k]
		if !ok {
			continue
		}
		out.prop[k] = x.joinTerm(out, a, b, ta, tb, ctx, at, kind+"p"+k, nil, round)
	}
	// memory
	done := map[*Term]bool{}
	do := func(k *Term) {
		if done[k] {
			return
		}
		done[k] = true
		va, oka := a.mem[k]
		vb, okb := b.mem[k]
		if !oka {
			if !known(symsA, k) && k.root().op == OAlloc {
				out.mem[k] = vb
				return
			}
			if exactCell(k) {
				return
			}
			va = x.missing(a, k)
		}
		if !okb {
			if !known(symsB, k) && k.root().op == OAlloc {
				out.mem[k] = va
				return
			}
			if exactCell(k) {
				return
			}
			vb = x.missing(b, k)
		}
		if va == nil && vb == nil {
			return
		}
		out.mem[k] = x.joinTerm(out, a, b, va, vb, ctx, at, kind+"m", k, round)
	}
	for _, k := range sortedTerms(a.mem) {
		do(k)
	}
	for _, k := range sortedTerms(b.mem) {
		do(k)
	}
	env := map[ssa.Value]*Term{}
	type joined struct{ a, b, j *Term }
	var lens []joined
	length := func(p, q, j *Term) {
		if j == p && j == q || j == nil || p == nil || q == nil || j.typ == nil || p.typ == nil && !p.isNil() || q.typ == nil && !q.isNil() {
			return
		}
		switch j.typ.Underlying().(type) {
		case *types.Slice:
		case *types.Basic:
			if !isString(j.typ) {
				return
			}
		default:
			return
		}
		lj := x.u.Len(j)
		l := joined{x.u.Len(p), x.u.Len(q), lj}
		lens = append(lens, l)
		if lj.op != OLen {
			return
		}
		f := joinAbs(x.absOf(a, l.a), x.absOf(b, l.b))
		if round > 1 && (l.a == lj || l.b == lj) {
			f = widenAbs(x.absOf(a, l.a), f, round)
		}
		if !f.top() {
			out.abs[lj] = f
		} else {
			delete(out.abs, lj)
		}
	}
	for i, v := range keep {
		if isInt(v.Type()) {
			continue
		}
		env[v] = x.joinTerm(out, a, b, ea[v], eb[v], ctx, at, fmt.Sprintf("%se%s.%d", kind, v.Name(), i), nil, round)
		length(ea[v], eb[v], env[v])
	}
	for i, v := range keep {
		if !isInt(v.Type()) {
			continue
		}
		// the length of something that was joined
		same := false
		for _, l := range lens {
			if l.a == ea[v] && l.b == eb[v] && l.j.op == OLen {
				env[v], same = l.j, true
				break
			}
		}
		if same {
			continue
		}
		env[v] = x.joinTerm(out, a, b, ea[v], eb[v], ctx, at, fmt.Sprintf("%se%s.%d", kind, v.Name(), i), nil, round)
	}
	var extra []*Term
	for i := range extraA {
		extra = append(extra, x.joinTerm(out, a, b, extraA[i], extraB[i], ctx, at, fmt.Sprintf("%sx%d", kind, i), nil, round))
		if ta, tb, tj := extraA[i], extraB[i], extra[i]; ta != nil && tb != nil && tj != nil && ta.op == OTuple && tb.op == OTuple && tj.op == OTuple {
			for n := range tj.args {
				length(ta.args[n], tb.args[n], tj.args[n])
			}
		} else {
			length(ta, tb, tj)
		}
	}
	// differences between joined integers
	var ints []joined
	for _, v := range keep {
		if isInt(v.Type()) && env[v] != nil && env[v].op != OConst && ea[v] != nil && eb[v] != nil {
			ints = append(ints, joined{ea[v], eb[v], env[v]})
		}
	}
	for _, l := range lens {
		if l.j.op == OLen {
			ints = append(ints, l)
		}
	}
	if len(ints) <= 12 {
		for _, p := range ints {
			for _, q := range ints {
				if p == q || p.j == p.a && p.j == p.b && q.j == q.a && q.j == q.b {
					continue
				}
				for _, c := range []int64{-1, 0, 1} {
					if x.prove(a, p.a, q.a, c) && x.prove(b, p.b, q.b, c) {
						out.addRel(p.j, q.j, c)
						break
					}
				}
			}
		}
	}
	x.joinCond(out, a, b, pairs, func(side int, t *Term) bool {
		if side == 0 {
			return known(symsA, t)
		}
		return known(symsB, t)
	})
	return out, env, extra
}

// exactCell: cells that say something definite; without a binding nothing is known.
func exactCell(k *Term) bool {
	if k.op != OPure {
		return false
	}
	switch k.aux {
	case "mapat", "mapabsent", "mapn", "entk", "entv":
		return true
	}
	return false
}

// alignMaps gives up the exact contents of maps on which two states do not agree.
func (x *Exec) alignMaps(a, b *State, ctx *Ctx, at ssa.Instruction) (*State, *State) {
	var ms []*Term
	seen := map[*Term]bool{}
	for _, st := range []*State{a, b} {
		for k := range st.mem {
			if k.op == OPure && k.aux == "mapn" && !seen[k.args[0]] {
				seen[k.args[0]] = true
				ms = append(ms, k.args[0])
			}
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	exists := func(st *State, m *Term) bool {
		// does the map occur in the state at all
		if _, ok := st.mem[x.mapkey(m)]; ok {
			return true
		}
		for k, v := range st.mem {
			if v == m || k == m {
				return true
			}
		}
		return false
	}
	ca, cb := false, false
	for _, m := range ms {
		na, oka := a.mem[x.mapn(m)]
		nb, okb := b.mem[x.mapn(m)]
		if oka && !okb && !exists(b, m) || okb && !oka && !exists(a, m) {
			continue
		}
		same := oka && okb && na == nb
		if same {
			if n, ok := x.mapExact(a, m); ok {
				for i := 0; i < n && same; i++ {
					same = a.mem[x.mapent(m, i, "entk")] == b.mem[x.mapent(m, i, "entk")]
				}
			} else {
				same = false
			}
		}
		if same {
			continue
		}
		fr := &Frame{ctx: ctx}
		if oka {
			if !ca {
				a, ca = a.clone(), true
			}
			x.weakenMap(a, fr, at, m)
		}
		if okb {
			if !cb {
				b, cb = b.clone(), true
			}
			x.weakenMap(b, fr, at, m)
		}
	}
	return a, b
}

// pinned facts are kept although nothing refers to their subject any more.
func pinned(t *Term) bool {
	for _, s := range t.syms {
		if s.kind == "content" {
			return true
		}
	}
	return false
}

// sameState reports whether two states carry the same information.
func (x *Exec) sameState(a, b *State, ea, eb map[ssa.Value]*Term, keep []ssa.Value) bool {
	if len(a.mem) != len(b.mem) || len(a.rel) != len(b.rel) || len(a.alts) != len(b.alts) || len(a.prop) != len(b.prop) {
		return false
	}
	for _, v := range keep {
		if ea[v] != eb[v] {
			return false
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	for k, c := range a.rel {
		if d, ok := b.rel[k]; !ok || d != c {
			return false
		}
	}
	for k, al := range a.alts {
		bl, ok := b.alts[k]
		if !ok || len(al) != len(bl) {
			return false
		}
		for _, e := range al {
			f := false
			for _, g := range bl {
				if e == g {
					f = true
				}
			}
			if !f {
				return false
			}
		}
	}
	for k, t := range a.prop {
		if b.prop[k] != t {
			return false
		}
	}
	if len(a.cond) != len(b.cond) {
		return false
	}
	for k, m := range a.cond {
		n, ok := b.cond[k]
		if !ok || len(m) != len(n) {
			return false
		}
		for y, f := range m {
			if g, ok := n[y]; !ok || !sameAbs(f, g) {
				return false
			}
		}
	}
	for k, f := range a.abs {
		if f.top() {
			continue
		}
		g, ok := b.abs[k]
		if !ok || !sameAbs(f, g) {
			return false
		}
	}
	for k, g := range b.abs {
		if g.top() {
			continue
		}
		if _, ok := a.abs[k]; !ok {
			return false
		}
	}
	return true
}

// collect drops cells and facts about objects created below ctx that nothing refers to.
func (x *Exec) collect(st *State, below func(*Sym) bool, roots []*Term) {
	live := map[*Term]bool{}
	syms := map[*Sym]bool{}
	for _, r := range roots {
		addTerm(live, syms, r)
	}
	for _, v := range st.prop {
		addTerm(live, syms, v)
	}
	localRoot := func(k *Term) bool {
		r := rootOfCell(k)
		return r.op == OAlloc && below(r.sym)
	}
	for k, v := range st.mem {
		if !localRoot(k) {
			addTerm(live, syms, k)
			addTerm(live, syms, v)
		}
	}
	for changed := true; changed; {
		changed = false
		for k, v := range st.mem {
			if localRoot(k) && !live[v] {
				r := rootOfCell(k)
				if live[r] || syms[r.sym] {
					addTerm(live, syms, k)
					addTerm(live, syms, v)
					changed = true
				}
			}
		}
		for k, al := range st.alts {
			if live[k] {
				for _, a := range al {
					if !live[a] {
						addTerm(live, syms, a)
						changed = true
					}
				}
			}
		}
		for k := range st.abs {
			_ = k
		}
	}
	for k := range st.mem {
		if localRoot(k) {
			r := rootOfCell(k)
			if !live[r] && !syms[r.sym] {
				delete(st.mem, k)
			}
		}
	}
	dead := func(t *Term) bool {
		if pinned(t) {
			return false
		}
		for _, s := range t.syms {
			if below(s) && !syms[s] {
				return true
			}
		}
		return false
	}
	for t := range st.abs {
		if dead(t) {
			delete(st.abs, t)
		}
	}
	for k, m := range st.cond {
		if dead(k.t) {
			delete(st.cond, k)
			continue
		}
		var n map[*Term]Abs
		for y := range m {
			if dead(y) && n == nil {
				n = map[*Term]Abs{}
			}
		}
		if n != nil {
			for y, f := range m {
				if !dead(y) {
					n[y] = f
				}
			}
			if len(n) == 0 {
				delete(st.cond, k)
			} else {
				st.cond[k] = n
			}
		}
	}
	for k := range st.rel {
		if dead(k.a) || dead(k.b) {
			delete(st.rel, k)
		}
	}
	for t := range st.alts {
		if dead(t) {
			delete(st.alts, t)
		}
	}
}

func rootOfCell(k *Term) *Term {
	if k.op == OPure && len(k.args) > 0 {
		return k.args[0].root()
	}
	return k.root()
}
