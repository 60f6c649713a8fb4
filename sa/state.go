package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abs is what is known of a value.
type Abs struct {
	nilness int8     // 0 unknown, 1 nil, 2 non-nil
	maybe   bool     // nil is a real possibility (there is evidence for it), unless nilness says otherwise
	truth   int8     // 0 unknown, 1 true, 2 false
	lo, hi  *big.Int // nil: unknown
	mask    uint64   // known bits
	bits    uint64
	eq      constant.Value   // equal to a string constant
	ne      []constant.Value // different from constants
}

func (a Abs) top() bool {
	return a.nilness == 0 && !a.maybe && a.truth == 0 && a.lo == nil && a.hi == nil && a.mask == 0 && a.eq == nil && len(a.ne) == 0
}

func sameBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

func sameConst(a, b constant.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Kind() == b.Kind() && a.ExactString() == b.ExactString()
}

func hasConst(l []constant.Value, c constant.Value) bool {
	for _, e := range l {
		if sameConst(e, c) {
			return true
		}
	}
	return false
}

func sameAbs(a, b Abs) bool {
	if a.nilness != b.nilness || a.maybe != b.maybe || a.truth != b.truth || !sameBig(a.lo, b.lo) || !sameBig(a.hi, b.hi) ||
		a.mask != b.mask || a.bits != b.bits || !sameConst(a.eq, b.eq) || len(a.ne) != len(b.ne) {
		return false
	}
	for _, c := range a.ne {
		if !hasConst(b.ne, c) {
			return false
		}
	}
	return true
}

func joinAbs(a, b Abs) Abs {
	var r Abs
	if a.nilness == b.nilness {
		r.nilness = a.nilness
	}
	r.maybe = a.maybe && a.nilness != 2 || b.maybe && b.nilness != 2 || (a.nilness == 1) != (b.nilness == 1)
	if a.truth == b.truth {
		r.truth = a.truth
	}
	if a.lo != nil && b.lo != nil {
		r.lo = minBig(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		r.hi = maxBig(a.hi, b.hi)
	}
	r.mask = a.mask & b.mask &^ (a.bits ^ b.bits)
	r.bits = a.bits & r.mask
	if a.eq != nil && sameConst(a.eq, b.eq) {
		r.eq = a.eq
	}
	in := func(x Abs, c constant.Value) bool {
		if hasConst(x.ne, c) {
			return true
		}
		if x.eq != nil && !sameConst(x.eq, c) {
			return true
		}
		if c.Kind() == constant.Int && x.lo != nil && x.hi != nil {
			v := bigOf(c)
			return v.Cmp(x.lo) < 0 || v.Cmp(x.hi) > 0
		}
		return false
	}
	for _, c := range a.ne {
		if in(b, c) {
			r.ne = append(r.ne, c)
		}
	}
	for _, c := range b.ne {
		if !hasConst(r.ne, c) && in(a, c) {
			r.ne = append(r.ne, c)
		}
	}
	return r
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

type relKey struct{ a, b *Term } // a - b <= c

// Trace is the path that led to a state, for reports.
type Trace struct {
	prev *Trace
	pos  token.Pos
	note string
	n    int
}

// Prop is the state of the property automaton: named tokens with an optional term.
type Prop struct {
	tok map[string]*Term
	key string
	ok  bool
}

// State is an abstract machine state.
type State struct {
	mem   map[*Term]*Term
	abs   map[*Term]Abs
	rel   map[relKey]int64
	alts  map[*Term][]*Term // alternatives a symbol may stand for
	prop  map[string]*Term
	cond  map[condKey]map[*Term]Abs // facts that hold if a value is nil (or true), or is not
	trace *Trace
}

// condKey is a case distinction: t is nil (for booleans: true), or is not.
type condKey struct {
	t   *Term
	val bool
}

// when applies the facts that depend on t being nil (true) or not.
func (x *Exec) when(st *State, t *Term, val bool) {
	for y, f := range st.cond[condKey{t, val}] {
		if f.nilness != 0 && x.absOf(st, y).nilness == 0 {
			x.setNilTerm(st, y, f.nilness == 1)
		}
		st.meet(y, f)
	}
}

// forgetCond drops the conditional facts about a value that is redefined.
func (st *State) forgetCond(t *Term) {
	for k, m := range st.cond {
		if k.t == t {
			delete(st.cond, k)
			continue
		}
		if _, ok := m[t]; ok {
			n := map[*Term]Abs{}
			for y, f := range m {
				if y != t {
					n[y] = f
				}
			}
			st.cond[k] = n
		}
	}
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, abs: map[*Term]Abs{}, rel: map[relKey]int64{}, alts: map[*Term][]*Term{}, prop: map[string]*Term{}, cond: map[condKey]map[*Term]Abs{}}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{mem: cloneMap(s.mem), abs: cloneMap(s.abs), rel: cloneMap(s.rel), alts: cloneMap(s.alts), prop: cloneMap(s.prop), cond: cloneMap(s.cond), trace: s.trace}
}

func (s *State) note(pos token.Pos, n string) {
	d := 0
	if s.trace != nil {
		d = s.trace.n + 1
	}
	s.trace = &Trace{prev: s.trace, pos: pos, note: n, n: d}
}

// Tokens starting with "~" are not part of the key that separates states.
func (s *State) propKey() string {
	ks := make([]string, 0, len(s.prop))
	for k := range s.prop {
		if !strings.HasPrefix(k, "~") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s *State) setProp(k string, t *Term) { s.prop[k] = t }
func (s *State) hasProp(k string) bool     { _, ok := s.prop[k]; return ok }
func (s *State) delProp(k string)          { delete(s.prop, k) }

// ---- evaluation -------------------------------------------------------------

func (x *Exec) absOf(st *State, t *Term) Abs { return x.absD(st, t, 0) }

func meetAbs(a, f Abs) Abs {
	if f.nilness != 0 {
		a.nilness = f.nilness
	}
	if f.maybe {
		a.maybe = true
	}
	if f.truth != 0 {
		a.truth = f.truth
	}
	if f.lo != nil && (a.lo == nil || f.lo.Cmp(a.lo) > 0) {
		a.lo = f.lo
	}
	if f.hi != nil && (a.hi == nil || f.hi.Cmp(a.hi) < 0) {
		a.hi = f.hi
	}
	a.bits = a.bits&a.mask | f.bits&f.mask
	a.mask |= f.mask
	if f.eq != nil {
		a.eq = f.eq
	}
	for _, c := range f.ne {
		if !hasConst(a.ne, c) {
			a.ne = append(append([]constant.Value{}, a.ne...), c)
		}
	}
	return a
}

func (x *Exec) absD(st *State, t *Term, d int) Abs {
	a := x.absStruct(st, t, d)
	if f, ok := st.abs[t]; ok {
		a = meetAbs(a, f)
	}
	if a.lo != nil && a.mask != 0 && isInt(t.typ) && isUnsigned(t.typ) {
		// known bits bound the value
		_, hi := typeRange(t.typ)
		lo := new(big.Int).SetUint64(a.bits & a.mask)
		h := new(big.Int).SetUint64((hi.Uint64() &^ a.mask) | a.bits)
		if lo.Cmp(a.lo) > 0 {
			a.lo = lo
		}
		if h.Cmp(a.hi) < 0 {
			a.hi = h
		}
	}
	if t.typ != nil && isInt(t.typ) && len(a.ne) > 0 && a.lo != nil && a.hi != nil {
		for changed := true; changed; {
			changed = false
			for _, c := range a.ne {
				v := bigOf(c)
				if v == nil {
					continue
				}
				if v.Cmp(a.lo) == 0 {
					a.lo = new(big.Int).Add(a.lo, bigOne)
					changed = true
				}
				if v.Cmp(a.hi) == 0 {
					a.hi = new(big.Int).Sub(a.hi, bigOne)
					changed = true
				}
			}
			if a.lo.Cmp(a.hi) > 0 {
				break
			}
		}
	}
	return a
}

func clampIv(lo, hi *big.Int, t types.Type) (*big.Int, *big.Int) {
	tl, th := typeRange(t)
	if lo == nil || hi == nil || lo.Cmp(tl) < 0 || hi.Cmp(th) > 0 {
		return tl, th
	}
	return lo, hi
}

func typeMask(t types.Type) uint64 {
	n := bitSize(t)
	if n == 64 {
		return ^uint64(0)
	}
	return uint64(1)<<n - 1
}

func (x *Exec) absStruct(st *State, t *Term, d int) Abs {
	var a Abs
	u := x.u
	if t.typ == nil {
		return a
	}
	if isInt(t.typ) {
		a.lo, a.hi = typeRange(t.typ)
	}
	if d > 12 {
		return a
	}
	switch t.op {
	case OConst:
		if t.val == nil {
			if isNilable(t.typ) {
				a.nilness = 1
			}
			return a
		}
		switch t.val.Kind() {
		case constant.Int:
			v := bigOf(t.val)
			a.lo, a.hi = v, v
			a.mask = typeMask(t.typ)
			a.bits = new(big.Int).And(wrapU(v), new(big.Int).SetUint64(a.mask)).Uint64()
		case constant.Bool:
			a.truth = 2
			if constant.BoolVal(t.val) {
				a.truth = 1
			}
		case constant.String:
			a.eq = t.val
		}
	case OAlloc, OGlobal, OFunc, OClosure, OFieldAddr, OIndexAddr, OIface, OObj:
		a.nilness = 2
		if t.op == OIface && false {
			a.nilness = 0
		}
	case OSlice:
		a.nilness = 2
	case OSym, OInit, OAssert:
		if t.op == OInit && x.isSentinel(t) && !inModulePath(t.args[0].glob.Pkg.Pkg.Path()) {
			a.nilness = 2
			return a
		}
		if alts, ok := st.alts[t]; ok && len(alts) > 0 {
			first := true
			for _, al := range alts {
				b := x.absD(st, x.coerce(al, t), d+1)
				if first {
					a, first = b, false
				} else {
					a = joinAbs(a, b)
				}
			}
			if isInt(t.typ) && a.lo == nil {
				a.lo, a.hi = typeRange(t.typ)
			}
		}
		if t.op == OAssert {
			if alts, ok := st.alts[t.args[0]]; ok {
				first := true
				for _, al := range alts {
					if al.op != OIface || !types.Identical(al.args[0].typ, t.typ) {
						continue
					}
					b := x.absD(st, al.args[0], d+1)
					if first {
						a, first = b, false
					} else {
						a = joinAbs(a, b)
					}
				}
			}
			if isInt(t.typ) && a.lo == nil {
				a.lo, a.hi = typeRange(t.typ)
			}
		}
	case OField:
		if b, ok := x.fieldAlts(st, t, d); ok {
			a = b
			if isInt(t.typ) && a.lo == nil {
				a.lo, a.hi = typeRange(t.typ)
			}
		}
	case OIsType:
		if tr := x.evalIsType(st, t); tr != 0 {
			a.truth = tr
		}
	case OLen, OCap:
		a.lo, a.hi = bigZero, maxLen
		if t.op == OLen {
			b := x.absD(st, t.args[0], d+1)
			if b.nilness == 1 {
				a.hi = bigZero
			}
			if b.eq != nil && b.eq.Kind() == constant.String {
				a.lo = big.NewInt(int64(len(constant.StringVal(b.eq))))
				a.hi = a.lo
			}
			if isString(t.args[0].typ) && hasConst(b.ne, constant.MakeString("")) {
				a.lo = bigOne
			}
			if alts, ok := st.alts[t.args[0]]; ok && len(alts) > 0 {
				var lo, hi *big.Int
				for _, al := range alts {
					c := x.absD(st, u.Len(al), d+1)
					if c.lo == nil || c.hi == nil {
						lo, hi = bigZero, maxLen
						break
					}
					if lo == nil {
						lo, hi = c.lo, c.hi
					} else {
						lo, hi = minBig(lo, c.lo), maxBig(hi, c.hi)
					}
				}
				if lo != nil {
					a.lo, a.hi = maxBig(a.lo, lo), minBig(a.hi, hi)
				}
			}
		}
	case OConv:
		in := t.args[0]
		if isInt(t.typ) && in.typ != nil && isInt(in.typ) {
			b := x.absD(st, in, d+1)
			a.lo, a.hi = clampIv(b.lo, b.hi, t.typ)
			if tl, th := typeRange(t.typ); a.lo.Cmp(tl) == 0 && a.hi.Cmp(th) == 0 && b.lo != nil && b.hi != nil {
				// value may wrap
				if !(b.lo.Cmp(tl) >= 0 && b.hi.Cmp(th) <= 0) {
					a.lo, a.hi = tl, th
				}
			}
			m := typeMask(t.typ)
			im := typeMask(in.typ)
			a.mask, a.bits = b.mask&m, b.bits&m
			if isUnsigned(in.typ) || (b.lo != nil && b.lo.Sign() >= 0) {
				a.mask |= m &^ im
			}
		} else {
			b := x.absD(st, in, d+1)
			a.nilness = b.nilness
			if isString(t.typ) && isString(in.typ) {
				a.eq, a.ne = b.eq, b.ne
			}
		}
	case OUn:
		b := x.absD(st, t.args[0], d+1)
		switch t.aux {
		case "!":
			if b.truth != 0 {
				a.truth = 3 - b.truth
			}
		case "-":
			if isInt(t.typ) && b.lo != nil {
				a.lo, a.hi = clampIv(new(big.Int).Neg(b.hi), new(big.Int).Neg(b.lo), t.typ)
			}
		case "^":
			if isInt(t.typ) {
				m := typeMask(t.typ)
				a.mask = b.mask & m
				a.bits = ^b.bits & a.mask
			}
		}
	case OBin:
		return x.absBin(st, t, d)
	case OPure:
		x.absPure(st, t, d, &a)
	}
	return a
}

func wrapU(v *big.Int) *big.Int {
	if v.Sign() >= 0 {
		return v
	}
	return new(big.Int).Add(v, pow2(64))
}

// coerce adapts the representative of a class of values to the shape of the element.
func (x *Exec) coerce(al, t *Term) *Term { return al }

// fieldAlts derives facts of x.f from the alternatives of x.
func (x *Exec) fieldAlts(st *State, t *Term, d int) (Abs, bool) {
	// find the innermost symbol below nested fields
	var path []int
	b := t
	for b.op == OField {
		path = append(path, b.idx)
		b = b.args[0]
	}
	var alts []*Term
	if al, ok := st.alts[b]; ok {
		alts = al
	} else if b.op == OAssert {
		al, ok := st.alts[b.args[0]]
		if !ok {
			return Abs{}, false
		}
		for _, v := range al {
			if v.op == OIface && types.Identical(v.args[0].typ, b.typ) {
				alts = append(alts, v.args[0])
			} else if v.op != OIface {
				return Abs{}, false
			}
		}
	}
	if len(alts) == 0 {
		return Abs{}, false
	}
	var r Abs
	for i, al := range alts {
		v := al
		for j := len(path) - 1; j >= 0; j-- {
			if structOf(v.typ) == nil {
				return Abs{}, false
			}
			v = x.u.Field(v, path[j])
		}
		b := x.absD(st, v, d+1)
		if i == 0 {
			r = b
		} else {
			r = joinAbs(r, b)
		}
	}
	return r, true
}

func (x *Exec) absBin(st *State, t *Term, d int) Abs {
	var a Abs
	switch t.aux {
	case "==", "<", "<=":
		if tr := x.evalCmp(st, t, d); tr != 0 {
			a.truth = tr
		}
		return a
	}
	if !isInt(t.typ) {
		return a
	}
	A, B := x.absD(st, t.args[0], d+1), x.absD(st, t.args[1], d+1)
	tl, th := typeRange(t.typ)
	a.lo, a.hi = tl, th
	if A.lo == nil || B.lo == nil || A.hi == nil || B.hi == nil {
		return a
	}
	m := typeMask(t.typ)
	switch t.aux {
	case "+":
		a.lo, a.hi = clampIv(new(big.Int).Add(A.lo, B.lo), new(big.Int).Add(A.hi, B.hi), t.typ)
		if isUnsigned(t.typ) {
			// x + (2^n - c) is x - c
			if c, ok := t.args[1].isIntConst(); ok && a.lo == tl && a.hi == th {
				nc := new(big.Int).Sub(pow2(bitSize(t.typ)), c)
				lo, hi := new(big.Int).Sub(A.lo, nc), new(big.Int).Sub(A.hi, nc)
				if lo.Sign() >= 0 {
					a.lo, a.hi = lo, hi
				}
			}
		}
	case "-":
		lo, hi := new(big.Int).Sub(A.lo, B.hi), new(big.Int).Sub(A.hi, B.lo)
		if lo.Sign() < 0 && x.proveD(st, t.args[1], t.args[0], 0, d+2) {
			lo = bigZero
		}
		a.lo, a.hi = clampIv(lo, hi, t.typ)
	case "*":
		c := []*big.Int{new(big.Int).Mul(A.lo, B.lo), new(big.Int).Mul(A.lo, B.hi), new(big.Int).Mul(A.hi, B.lo), new(big.Int).Mul(A.hi, B.hi)}
		lo, hi := c[0], c[0]
		for _, v := range c[1:] {
			lo, hi = minBig(lo, v), maxBig(hi, v)
		}
		a.lo, a.hi = clampIv(lo, hi, t.typ)
	case "/":
		if B.lo.Sign() > 0 {
			c := []*big.Int{new(big.Int).Quo(A.lo, B.lo), new(big.Int).Quo(A.lo, B.hi), new(big.Int).Quo(A.hi, B.lo), new(big.Int).Quo(A.hi, B.hi)}
			lo, hi := c[0], c[0]
			for _, v := range c[1:] {
				lo, hi = minBig(lo, v), maxBig(hi, v)
			}
			a.lo, a.hi = lo, hi
		}
	case "%":
		if B.lo.Sign() > 0 {
			h := new(big.Int).Sub(B.hi, bigOne)
			if A.lo.Sign() >= 0 {
				a.lo, a.hi = bigZero, minBig(A.hi, h)
			} else {
				a.lo, a.hi = new(big.Int).Neg(h), h
			}
		}
	case "&":
		if A.lo.Sign() >= 0 && B.lo.Sign() >= 0 {
			a.lo, a.hi = bigZero, minBig(A.hi, B.hi)
		} else if A.lo.Sign() >= 0 {
			a.lo, a.hi = bigZero, A.hi
		} else if B.lo.Sign() >= 0 {
			a.lo, a.hi = bigZero, B.hi
		}
		one := A.mask & A.bits & B.mask & B.bits
		zero := (A.mask &^ A.bits) | (B.mask &^ B.bits)
		a.mask, a.bits = (one|zero)&m, one
	case "&^":
		if A.lo.Sign() >= 0 {
			a.lo, a.hi = bigZero, A.hi
		}
		one := A.mask & A.bits & B.mask &^ B.bits
		zero := (A.mask &^ A.bits) | (B.mask & B.bits)
		a.mask, a.bits = (one|zero)&m, one
	case "|":
		if A.lo.Sign() >= 0 && B.lo.Sign() >= 0 {
			n := max(A.hi.BitLen(), B.hi.BitLen())
			a.lo, a.hi = maxBig(A.lo, B.lo), minBig(new(big.Int).Sub(pow2(n), bigOne), th)
		}
		one := (A.mask & A.bits) | (B.mask & B.bits)
		zero := (A.mask &^ A.bits) & (B.mask &^ B.bits)
		a.mask, a.bits = (one|zero)&m, one
	case "^":
		a.mask = A.mask & B.mask & m
		a.bits = (A.bits ^ B.bits) & a.mask
		if A.lo.Sign() >= 0 && B.lo.Sign() >= 0 {
			n := max(A.hi.BitLen(), B.hi.BitLen())
			a.lo, a.hi = bigZero, minBig(new(big.Int).Sub(pow2(n), bigOne), th)
		}
	case "<<":
		if B.lo.Sign() >= 0 && B.hi.Cmp(big.NewInt(128)) <= 0 && A.lo.Sign() >= 0 {
			a.lo, a.hi = clampIv(new(big.Int).Lsh(A.lo, uint(B.lo.Int64())), new(big.Int).Lsh(A.hi, uint(B.hi.Int64())), t.typ)
		}
		if c, ok := t.args[1].isIntConst(); ok && c.Sign() >= 0 && c.Cmp(big.NewInt(64)) < 0 {
			n := uint(c.Int64())
			a.mask = (A.mask<<n | (uint64(1)<<n - 1)) & m
			a.bits = A.bits << n & a.mask
		}
	case ">>":
		if B.lo.Sign() >= 0 && A.lo.Sign() >= 0 {
			if B.hi.Cmp(big.NewInt(128)) <= 0 {
				a.lo = new(big.Int).Rsh(A.lo, uint(B.hi.Int64()))
			} else {
				a.lo = bigZero
			}
			bl := B.lo
			if bl.Cmp(big.NewInt(128)) > 0 {
				bl = big.NewInt(128)
			}
			a.hi = new(big.Int).Rsh(A.hi, uint(bl.Int64()))
		}
		if c, ok := t.args[1].isIntConst(); ok && isUnsigned(t.typ) && c.Cmp(big.NewInt(64)) < 0 {
			n := uint(c.Int64())
			a.mask = (A.mask >> n) | (m &^ (m >> n))
			a.bits = A.bits >> n & a.mask
		}
	}
	return a
}

// evalCmp evaluates a comparison: 0 unknown, 1 true, 2 false.
func (x *Exec) evalCmp(st *State, t *Term, d int) int8 {
	p, q := t.args[0], t.args[1]
	if t.aux == "==" {
		if p == q {
			return 1
		}
		if p.isNil() || q.isNil() {
			v := p
			if p.isNil() {
				v = q
			}
			switch x.absD(st, v, d+1).nilness {
			case 1:
				return 1
			case 2:
				return 2
			}
			return 0
		}
	}
	if p.typ == nil || q.typ == nil {
		return 0
	}
	if isInt(p.typ) && isInt(q.typ) {
		switch t.aux {
		case "==":
			A, B := x.absD(st, p, d+1), x.absD(st, q, d+1)
			if A.lo == nil || B.lo == nil {
				return 0
			}
			if A.hi.Cmp(B.lo) < 0 || B.hi.Cmp(A.lo) < 0 {
				return 2
			}
			if A.lo.Cmp(A.hi) == 0 && B.lo.Cmp(B.hi) == 0 && A.lo.Cmp(B.lo) == 0 {
				return 1
			}
			if m := A.mask & B.mask; m&(A.bits^B.bits) != 0 {
				return 2
			}
			if c, ok := q.isIntConst(); ok {
				for _, e := range A.ne {
					if v := bigOf(e); v != nil && v.Cmp(c) == 0 {
						return 2
					}
				}
			}
			if d < 8 {
				if x.proveD(st, p, q, -1, d+1) || x.proveD(st, q, p, -1, d+1) {
					return 2
				}
				if x.proveD(st, p, q, 0, d+1) && x.proveD(st, q, p, 0, d+1) {
					return 1
				}
			}
		case "<":
			if x.proveD(st, p, q, -1, d+1) {
				return 1
			}
			if x.proveD(st, q, p, 0, d+1) {
				return 2
			}
		case "<=":
			if x.proveD(st, p, q, 0, d+1) {
				return 1
			}
			if x.proveD(st, q, p, -1, d+1) {
				return 2
			}
		}
		return 0
	}
	if t.aux == "==" {
		if isString(p.typ) {
			A, B := x.absD(st, p, d+1), x.absD(st, q, d+1)
			if A.eq != nil && B.eq != nil {
				if sameConst(A.eq, B.eq) {
					return 1
				}
				return 2
			}
			if B.eq != nil && hasConst(A.ne, B.eq) || A.eq != nil && hasConst(B.ne, A.eq) {
				return 2
			}
			if q.op == OConst {
				n := x.absD(st, x.u.Len(p), d+1)
				l := big.NewInt(int64(len(constant.StringVal(q.val))))
				if n.lo != nil && (l.Cmp(n.lo) < 0 || l.Cmp(n.hi) > 0) {
					return 2
				}
			}
		}
		if isError(p.typ) || isIface(p.typ) {
			A, B := x.absD(st, p, d+1), x.absD(st, q, d+1)
			if A.nilness == 1 && B.nilness == 2 || A.nilness == 2 && B.nilness == 1 {
				return 2
			}
			if x.isSentinel(p) && x.isSentinel(q) {
				return 2 // distinct terms
			}
			// a freshly made error is no sentinel
			if x.isSentinel(p) && x.freshErr(q) || x.isSentinel(q) && x.freshErr(p) {
				return 2
			}
		}
		if isBool(p.typ) {
			A, B := x.absD(st, p, d+1), x.absD(st, q, d+1)
			if A.truth != 0 && B.truth != 0 {
				if A.truth == B.truth {
					return 1
				}
				return 2
			}
		}
		if p.op == OAlloc && q.op == OAlloc && !p.sym.old && !q.sym.old && p != q {
			return 2
		}
	}
	return 0
}

// lin splits t into base + c; the sum does not wrap. base is nil for constants.
func (x *Exec) lin(st *State, t *Term, d int) (*Term, *big.Int) {
	if c, ok := t.isIntConst(); ok {
		return nil, c
	}
	if d > 8 {
		return t, bigZero
	}
	if a := x.absD(st, t, d+1); a.lo != nil && a.hi != nil && a.lo.Cmp(a.hi) == 0 {
		return nil, a.lo
	}
	switch t.op {
	case OConv:
		in := t.args[0]
		if isInt(in.typ) && isInt(t.typ) {
			a := x.absD(st, in, d+1)
			lo, hi := typeRange(t.typ)
			if a.lo != nil && a.hi != nil && a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0 {
				return x.lin(st, in, d+1)
			}
		}
	case OBin:
		if t.aux == "+" {
			if c, ok := t.args[1].isIntConst(); ok {
				a := x.absD(st, t.args[0], d+1)
				lo, hi := typeRange(t.typ)
				if a.lo != nil && a.hi != nil {
					l, h := new(big.Int).Add(a.lo, c), new(big.Int).Add(a.hi, c)
					if l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
						b, k := x.lin(st, t.args[0], d+1)
						return b, new(big.Int).Add(k, c)
					}
					if isUnsigned(t.typ) {
						nc := new(big.Int).Sub(c, pow2(bitSize(t.typ)))
						l = new(big.Int).Add(a.lo, nc)
						if l.Sign() >= 0 {
							b, k := x.lin(st, t.args[0], d+1)
							return b, new(big.Int).Add(k, nc)
						}
					}
				}
			}
		}
	}
	return t, bigZero
}

// prove reports whether a <= b + k certainly holds.
func (x *Exec) prove(st *State, a, b *Term, k int64) bool { return x.proveD(st, a, b, k, 0) }

func (x *Exec) proveD(st *State, a, b *Term, k int64, d int) bool {
	if d > 8 {
		return false
	}
	A, B := x.absD(st, a, d+1), x.absD(st, b, d+1)
	kk := big.NewInt(k)
	if A.hi != nil && B.lo != nil && A.hi.Cmp(new(big.Int).Add(B.lo, kk)) <= 0 {
		return true
	}
	ba, ca := x.lin(st, a, d)
	bb, cb := x.lin(st, b, d)
	// ba + ca <= bb + cb + k
	need := new(big.Int).Add(cb, kk)
	need.Sub(need, ca) // ba <= bb + need
	if ba == bb {
		return need.Sign() >= 0
	}
	if bb == nil {
		h := x.absD(st, ba, d+1).hi
		if h != nil && h.Cmp(need) <= 0 {
			return true
		}
	}
	if ba == nil {
		l := x.absD(st, bb, d+1).lo
		return l != nil && new(big.Int).Add(l, need).Sign() >= 0
	}
	// bounded search: ba <= t + c
	type node struct {
		t *Term
		c *big.Int
		n int
	}
	queue := []node{{ba, bigZero, 0}}
	best := map[*Term]*big.Int{ba: bigZero}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if bb != nil && n.t == bb && n.c.Cmp(need) <= 0 {
			return true
		}
		// interval closes the chain: n.t <= hi, bb >= lo
		h := x.absD(st, n.t, d+2).hi
		if h != nil {
			v := new(big.Int).Add(h, n.c)
			if bb == nil {
				if v.Cmp(need) <= 0 {
					return true
				}
			} else if l := x.absD(st, bb, d+2).lo; l != nil && v.Cmp(new(big.Int).Add(l, need)) <= 0 {
				return true
			}
		}
		if n.n >= 5 {
			continue
		}
		push := func(t *Term, c *big.Int) {
			lt, lc := x.lin(st, t, d+2)
			if lt == nil {
				v := new(big.Int).Add(new(big.Int).Add(n.c, c), lc)
				if bb == nil && v.Cmp(need) <= 0 {
					queue = append(queue, node{nilTerm, v, 99})
				}
				return
			}
			v := new(big.Int).Add(new(big.Int).Add(n.c, c), lc)
			if o, ok := best[lt]; ok && o.Cmp(v) <= 0 {
				return
			}
			best[lt] = v
			queue = append(queue, node{lt, v, n.n + 1})
		}
		if n.t == nilTerm {
			return true
		}
		for rk, c := range st.rel {
			if rk.a == n.t {
				push(rk.b, big.NewInt(c))
			}
		}
		x.upper(st, n.t, push, d)
		// to bb through a lower structural bound of bb: handled by rel facts only
	}
	if bb != nil {
		// structural lower bounds of bb
		ok := false
		x.lower(st, bb, func(t *Term, c *big.Int) {
			if ok || d > 5 {
				return
			}
			// t + c <= bb ; need ba <= t + c + need
			s := new(big.Int).Add(c, need)
			if s.IsInt64() && t != bb && x.proveD(st, ba, t, s.Int64(), d+3) {
				ok = true
			}
		}, d)
		if ok {
			return true
		}
	}
	return false
}

var nilTerm = &Term{op: OConst, id: -1, typ: types.Typ[types.Int], val: constant.MakeInt64(0)}

// upper pushes structural upper bounds: t <= other + c.
func (x *Exec) upper(st *State, t *Term, push func(*Term, *big.Int), d int) {
	switch t.op {
	case OPure:
		switch t.aux {
		case "min":
			for _, a := range t.args {
				push(a, bigZero)
			}
		case "IndexByte", "Index", "LastIndex", "IndexRune", "IndexAny", "LastIndexByte", "IndexFunc":
			push(x.u.Len(t.args[0]), big.NewInt(-1))
		case "atmost":
			push(t.args[0], bigZero)
		}
	case OBin:
		A, B := x.absD(st, t.args[0], d+2), x.absD(st, t.args[1], d+2)
		if A.lo == nil || B.lo == nil {
			return
		}
		switch t.aux {
		case "/":
			if A.lo.Sign() >= 0 && B.lo.Sign() > 0 {
				push(t.args[0], bigZero)
			}
		case ">>":
			if A.lo.Sign() >= 0 {
				push(t.args[0], bigZero)
			}
		case "%":
			if A.lo.Sign() >= 0 && B.lo.Sign() > 0 {
				push(t.args[0], bigZero)
				push(t.args[1], big.NewInt(-1))
			}
		case "&":
			if A.lo.Sign() >= 0 {
				push(t.args[0], bigZero)
			}
			if B.lo.Sign() >= 0 {
				push(t.args[1], bigZero)
			}
		case "-":
			lo := new(big.Int).Sub(A.lo, B.hi)
			tl, _ := typeRange(t.typ)
			if B.lo.Sign() >= 0 && (lo.Cmp(tl) >= 0 || x.proveD(st, t.args[1], t.args[0], 0, d+3)) {
				push(t.args[0], bigZero)
			}
		}
	case OLen:
		// shorter results of pure functions
		if s := t.args[0]; s.op == OPure {
			switch s.aux {
			case "TrimSpace", "TrimPrefix", "TrimSuffix", "TrimLeft", "TrimRight", "Trim", "substr", "ToSlash":
				push(x.u.Len(s.args[0]), bigZero)
			}
		}
	}
}

// lower pushes structural lower bounds: other + c <= t.
func (x *Exec) lower(st *State, t *Term, push func(*Term, *big.Int), d int) {
	switch t.op {
	case OPure:
		if t.aux == "max" {
			for _, a := range t.args {
				push(a, bigZero)
			}
		}
	case OBin:
		if t.aux == "+" {
			A, B := x.absD(st, t.args[0], d+2), x.absD(st, t.args[1], d+2)
			if A.lo == nil || B.lo == nil || A.hi == nil || B.hi == nil {
				return
			}
			_, th := typeRange(t.typ)
			if new(big.Int).Add(A.hi, B.hi).Cmp(th) <= 0 {
				push(t.args[0], B.lo)
				push(t.args[1], A.lo)
			}
		}
	}
}

// ---- assumptions ------------------------------------------------------------

func (st *State) meet(t *Term, f Abs) {
	old := st.abs[t]
	st.abs[t] = meetAbs(old, f)
}

func (st *State) setNil(t *Term, isNil bool) {
	n := int8(2)
	if isNil {
		n = 1
	}
	st.meet(t, Abs{nilness: n})
}

func (st *State) addRel(a, b *Term, c int64) {
	k := relKey{a, b}
	if o, ok := st.rel[k]; ok && o <= c {
		return
	}
	st.rel[k] = c
}

// assume restricts st to the states in which t is val; false: there are none.
func (x *Exec) assume(st *State, t *Term, val bool) bool {
	a := x.absOf(st, t)
	want := int8(2)
	if val {
		want = 1
	}
	if a.truth != 0 {
		return a.truth == want
	}
	if x.obs != nil {
		x.obs.Assume(x, st, t, val)
	}
	switch t.op {
	case OUn:
		if t.aux == "!" {
			return x.assume(st, t.args[0], !val)
		}
	case OBin:
		if !x.assumeCmp(st, t, val) {
			return false
		}
	case OPure:
		if !x.assumePure(st, t, val) {
			return false
		}
	case OIsType:
		// exclusive with other concrete types is handled by evalIsType
	}
	st.meet(t, Abs{truth: want})
	x.when(st, t, val)
	return true
}

func (x *Exec) setIv(st *State, t *Term, lo, hi *big.Int, d int) bool {
	a := x.absOf(st, t)
	if lo != nil && a.hi != nil && lo.Cmp(a.hi) > 0 || hi != nil && a.lo != nil && hi.Cmp(a.lo) < 0 {
		return false
	}
	ch := false
	if lo != nil && (a.lo == nil || lo.Cmp(a.lo) > 0) {
		ch = true
	} else {
		lo = nil
	}
	if hi != nil && (a.hi == nil || hi.Cmp(a.hi) < 0) {
		ch = true
	} else {
		hi = nil
	}
	if !ch {
		return true
	}
	if t.op != OConst {
		st.meet(t, Abs{lo: lo, hi: hi})
	}
	if d > 4 {
		return true
	}
	// propagate into the operands
	switch t.op {
	case OConv:
		in := t.args[0]
		if isInt(in.typ) && isInt(t.typ) {
			b := x.absOf(st, in)
			tl, th := typeRange(t.typ)
			if b.lo != nil && b.lo.Cmp(tl) >= 0 && b.hi.Cmp(th) <= 0 {
				return x.setIv(st, in, lo, hi, d+1)
			}
		}
	case OBin:
		if c, ok := t.args[1].isIntConst(); ok {
			b := x.absOf(st, t.args[0])
			if b.lo == nil {
				return true
			}
			tl, th := typeRange(t.typ)
			switch t.aux {
			case "+":
				cc := c
				l, h := new(big.Int).Add(b.lo, cc), new(big.Int).Add(b.hi, cc)
				if isUnsigned(t.typ) && h.Cmp(th) > 0 {
					cc = new(big.Int).Sub(c, pow2(bitSize(t.typ)))
					l, h = new(big.Int).Add(b.lo, cc), new(big.Int).Add(b.hi, cc)
				}
				if l.Cmp(tl) >= 0 && h.Cmp(th) <= 0 {
					var nl, nh *big.Int
					if lo != nil {
						nl = new(big.Int).Sub(lo, cc)
					}
					if hi != nil {
						nh = new(big.Int).Sub(hi, cc)
					}
					return x.setIv(st, t.args[0], nl, nh, d+1)
				}
			case ">>":
				if hi != nil && b.lo.Sign() >= 0 && c.Cmp(big.NewInt(64)) < 0 {
					n := uint(c.Int64())
					nh := new(big.Int).Sub(new(big.Int).Lsh(new(big.Int).Add(hi, bigOne), n), bigOne)
					return x.setIv(st, t.args[0], nil, nh, d+1)
				}
			}
		}
	}
	return true
}

func (x *Exec) assumeCmp(st *State, t *Term, val bool) bool {
	p, q := t.args[0], t.args[1]
	if t.aux == "==" {
		if p.isNil() || q.isNil() {
			v := p
			if p.isNil() {
				v = q
			}
			x.setNilTerm(st, v, val)
			return true
		}
		if p.typ != nil && q.typ != nil && isInt(p.typ) && isInt(q.typ) {
			if val {
				A, B := x.absOf(st, p), x.absOf(st, q)
				if !x.setIv(st, p, B.lo, B.hi, 0) || !x.setIv(st, q, A.lo, A.hi, 0) {
					return false
				}
				x.relate(st, p, q, 0)
				x.relate(st, q, p, 0)
				if c, ok := q.isIntConst(); ok {
					// (v & m) == c
					if p.op == OBin && p.aux == "&" {
						if m, ok := p.args[1].isIntConst(); ok {
							mm, cc := wrapU(m).Uint64(), wrapU(c).Uint64()
							if cc&^mm != 0 {
								return false
							}
							if !x.setBits(st, p.args[0], mm, cc) {
								return false
							}
						}
					}
				}
				return true
			}
			if c, ok := q.isIntConst(); ok {
				st.meet(p, Abs{ne: []constant.Value{constant.Make(new(big.Int).Set(c))}})
				// (v & singlebit) != 0  or  != bit
				if p.op == OBin && p.aux == "&" {
					if m, ok := p.args[1].isIntConst(); ok && log2(m) >= 0 {
						mm := m.Uint64()
						if c.Sign() == 0 {
							return x.setBits(st, p.args[0], mm, mm)
						}
						if c.Cmp(m) == 0 {
							return x.setBits(st, p.args[0], mm, 0)
						}
					}
				}
				a := x.absOf(st, p)
				return a.lo == nil || a.lo.Cmp(a.hi) <= 0
			}
			return true
		}
		if p.typ != nil && q.typ != nil && isString(p.typ) && isString(q.typ) {
			if q.op == OConst {
				if val {
					st.meet(p, Abs{eq: q.val})
					x.stringEq(st, p, constant.StringVal(q.val))
				} else {
					st.meet(p, Abs{ne: []constant.Value{q.val}})
				}
			}
			return true
		}
		return true
	}
	if p.typ == nil || !isInt(p.typ) {
		return true
	}
	if t.aux == "<=" && !val { // q < p
		p, q = q, p
		return x.assumeLess(st, p, q, -1)
	}
	if t.aux == "<" && !val { // q <= p
		return x.assumeLess(st, q, p, 0)
	}
	if t.aux == "<" {
		return x.assumeLess(st, p, q, -1)
	}
	return x.assumeLess(st, p, q, 0)
}

// assumeLess records p <= q + k.
func (x *Exec) assumeLess(st *State, p, q *Term, k int64) bool {
	A, B := x.absOf(st, p), x.absOf(st, q)
	kk := big.NewInt(k)
	if B.hi != nil && !x.setIv(st, p, nil, new(big.Int).Add(B.hi, kk), 0) {
		return false
	}
	if A.lo != nil && !x.setIv(st, q, new(big.Int).Sub(A.lo, kk), nil, 0) {
		return false
	}
	x.relate(st, p, q, k)
	return true
}

func (x *Exec) relate(st *State, p, q *Term, k int64) {
	bp, cp := x.lin(st, p, 0)
	bq, cq := x.lin(st, q, 0)
	if bp == nil || bq == nil {
		return
	}
	c := new(big.Int).Sub(cq, cp)
	c.Add(c, big.NewInt(k))
	if c.IsInt64() {
		st.addRel(bp, bq, c.Int64())
	}
}

func (x *Exec) setBits(st *State, v *Term, mask, bits uint64) bool {
	a := x.absOf(st, v)
	if m := a.mask & mask; (a.bits^bits)&m != 0 {
		return false
	}
	st.meet(v, Abs{mask: mask, bits: bits & mask})
	if v.op == OConv && isInt(v.args[0].typ) && isUnsigned(v.args[0].typ) {
		im := typeMask(v.args[0].typ)
		if bits&mask&^im != 0 && bitSize(v.args[0].typ) < bitSize(v.typ) {
			return false
		}
		return x.setBits(st, v.args[0], mask&im, bits&mask&im)
	}
	if v.op == OBin && v.aux == ">>" && isUnsigned(v.typ) {
		if c, ok := v.args[1].isIntConst(); ok && c.Cmp(big.NewInt(64)) < 0 {
			n := uint(c.Int64())
			return x.setBits(st, v.args[0], (mask<<n)&typeMask(v.typ), (bits<<n)&typeMask(v.typ))
		}
	}
	if v.op == OBin && v.aux == "&" {
		if c, ok := v.args[1].isIntConst(); ok {
			cu := wrapU(c).Uint64()
			if bits&mask&^cu != 0 {
				return false
			}
			return x.setBits(st, v.args[0], mask&cu, bits&cu)
		}
	}
	return true
}

// setNilTerm records that v is (not) nil; the facts that hold of its alternatives are kept.
func (x *Exec) setNilTerm(st *State, v *Term, isNil bool) {
	st.setNil(v, isNil)
	x.when(st, v, isNil)
	if v.op == OConv {
		x.setNilTerm(st, v.args[0], isNil)
	}
	if alts, ok := st.alts[v]; ok {
		var keep []*Term
		for _, al := range alts {
			n := x.absOf(st, al).nilness
			if isNil && n == 2 || !isNil && n == 1 {
				continue
			}
			keep = append(keep, al)
		}
		if len(keep) > 0 && len(keep) < len(alts) {
			st.alts[v] = keep
		}
	}
}

// stringEq records the bytes of a string that equals a constant.
func (x *Exec) stringEq(st *State, p *Term, s string) {
	switch p.op {
	case OConv:
		x.stringEq(st, p.args[0], s)
	case OPure:
		if p.aux == "bytes" {
			lo, ok := p.args[1].isIntConst()
			if !ok {
				return
			}
			for i := 0; i < len(s); i++ {
				b := x.byteAt(p.args[0], x.u.Big(types.Typ[types.Int], new(big.Int).Add(lo, big.NewInt(int64(i)))))
				v := big.NewInt(int64(s[i]))
				x.setIv(st, b, v, v, 0)
			}
		}
	}
}

// byteAt is the i-th byte of a content symbol.
func (x *Exec) byteAt(content, i *Term) *Term {
	return x.u.Pure(types.Typ[types.Uint8], "byteat", content, i)
}

func (x *Exec) isSentinel(t *Term) bool {
	return t.op == OInit && t.args[0].op == OGlobal && isError(t.typ)
}

// freshErr: an error value made by errors.New/fmt.Errorf (or a library error that is known not to be a sentinel).
func (x *Exec) freshErr(t *Term) bool {
	return t.op == OPure && (t.aux == "errors.New" || t.aux == "fmt.Errorf") || t.op == OIface
}

// evalIsType decides a dynamic type test.
func (x *Exec) evalIsType(st *State, t *Term) int8 {
	v := t.args[0]
	check := func(al *Term) int8 {
		if al.op == OConst && al.val == nil {
			return 2
		}
		if al.op == OIface {
			if types.Identical(al.args[0].typ, x.isTypes[t]) {
				return 1
			}
			if it, ok := x.isTypes[t].Underlying().(*types.Interface); ok {
				if types.Implements(al.args[0].typ, it) {
					return 1
				}
			}
			return 2
		}
		return 0
	}
	if r := check(v); r != 0 {
		return r
	}
	if x.absOf(st, v).nilness == 1 {
		return 2
	}
	// another concrete type is already known
	tt := x.isTypes[t]
	if _, isI := tt.Underlying().(*types.Interface); !isI {
		for _, o := range x.isTypeOf[v] {
			if o == t {
				continue
			}
			if f, ok := st.abs[o]; ok && f.truth == 1 {
				if _, oi := x.isTypes[o].Underlying().(*types.Interface); !oi {
					return 2
				}
			}
		}
	}
	if alts, ok := st.alts[v]; ok && len(alts) > 0 {
		res := int8(-1)
		nonnil := x.absOf(st, v).nilness == 2
		for _, al := range alts {
			if nonnil && al.op == OConst && al.val == nil {
				continue
			}
			// alternatives whose type has been excluded don't count
			if al.op == OIface {
				ex := false
				for _, o := range x.isTypeOf[v] {
					if f, ok := st.abs[o]; ok && f.truth == 2 && o != t && types.Identical(x.isTypes[o], al.args[0].typ) {
						ex = true
					}
				}
				if ex {
					continue
				}
			}
			r := check(al)
			if r == 0 {
				return 0
			}
			if res == -1 {
				res = r
			} else if res != r {
				return 0
			}
		}
		if res > 0 {
			return res
		}
	}
	return 0
}

func (x *Exec) isType(v *Term, t types.Type) *Term {
	k := x.u.mk(Term{op: OIsType, typ: types.Typ[types.Bool], aux: x.u.tkey(t), args: []*Term{v}})
	if _, ok := x.isTypes[k]; !ok {
		x.isTypes[k] = t
		x.isTypeOf[v] = append(x.isTypeOf[v], k)
	}
	return k
}

var _ = ssa.NaiveForm

func (a Abs) String() string {
	var sb strings.Builder
	switch {
	case a.nilness == 1:
		sb.WriteString("nil ")
	case a.nilness == 2:
		sb.WriteString("nonnil ")
	}
	if a.maybe {
		sb.WriteString("maybenil ")
	}
	if a.truth != 0 {
		fmt.Fprintf(&sb, "truth=%v ", a.truth == 1)
	}
	if a.lo != nil || a.hi != nil {
		fmt.Fprintf(&sb, "[%v,%v] ", a.lo, a.hi)
	}
	if a.mask != 0 {
		fmt.Fprintf(&sb, "bits %x/%x ", a.bits, a.mask)
	}
	if a.eq != nil {
		fmt.Fprintf(&sb, "=%v ", a.eq)
	}
	for _, n := range a.ne {
		fmt.Fprintf(&sb, "!=%v ", n)
	}
	return "{" + strings.TrimSpace(sb.String()) + "}"
}
