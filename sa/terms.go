package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value numbering: numbers computed from named inputs (fields of an on-disk structure, facts about a source
// file) are expressions over these inputs. Two expressions are compared by a polynomial normal form with
// integer semantics (a step that may overflow its type is not rearranged). If the normal forms differ, the
// difference counts only when some valuation of the inputs that is consistent with the branches taken shows it.

type ntype struct {
	bits   int
	signed bool
}

// Tm is an expression.
type Tm struct {
	op   string // "atom", "const", a Go operator, "conv", "min", "max" or "f" (uninterpreted)
	typ  ntype
	name string
	val  uint64
	a    []*Tm
	key  string
}

type tmCond struct {
	op   string // "<", "<=", "==", "!="
	a, b *Tm
	sgn  bool
	key  string
}

// Terms is the table of expressions of one simulation.
type Terms struct {
	samples int // how many inputs are tried at least
	tab     map[string]*Tm
	lo, hi  map[string]*big.Int
	conds   []*tmCond
	byCond  map[string]int
	pick    []func(r *rand.Rand, asg map[string]uint64) // adjusts a valuation
	asgs    []map[string]uint64
	norms   map[string]poly
	pcKey   string // of the conditions listed last
	fits    map[string][]map[string]uint64
}

func newTerms() *Terms {
	return &Terms{tab: map[string]*Tm{}, lo: map[string]*big.Int{}, hi: map[string]*big.Int{}, byCond: map[string]int{}, norms: map[string]poly{}, fits: map[string][]map[string]uint64{}}
}

func ntypeOf(t types.Type) (ntype, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return ntype{}, false
	}
	switch b.Kind() {
	case types.UntypedInt, types.UntypedRune:
		return ntype{64, true}, true
	}
	return ntype{intWidth(t), b.Info()&types.IsUnsigned == 0}, true
}

func (n ntype) wrap(v uint64) uint64 {
	if n.bits == 64 || n.bits == 0 {
		return v
	}
	m := uint64(1)<<n.bits - 1
	v &= m
	if n.signed && v>>(n.bits-1) == 1 {
		v |= ^m
	}
	return v
}

func (n ntype) limits() (lo, hi *big.Int) {
	one := big.NewInt(1)
	if n.signed {
		h := new(big.Int).Lsh(one, uint(n.bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(n.bits)), one)
}

func (n ntype) String() string {
	if n.signed {
		return fmt.Sprintf("i%d", n.bits)
	}
	return fmt.Sprintf("u%d", n.bits)
}

func (t *Terms) mk(op string, n ntype, name string, val uint64, a ...*Tm) *Tm {
	var k string
	switch op {
	case "atom":
		k = name
	case "const":
		k = n.String() + "=" + strconv.FormatUint(val, 10)
	default:
		var s []string
		for _, e := range a {
			s = append(s, e.key)
		}
		k = op + name + ":" + n.String() + "[" + strings.Join(s, ",") + "]"
	}
	if e := t.tab[k]; e != nil {
		return e
	}
	e := &Tm{op: op, typ: n, name: name, val: val, a: a, key: k}
	t.tab[k] = e
	return e
}

// Atom is a named input within limits.
func (t *Terms) Atom(name string, n ntype, lo, hi uint64) *Tm {
	e := t.mk("atom", n, name, 0)
	if t.lo[name] == nil {
		t.lo[name], t.hi[name] = new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi)
		t.asgs = nil
	}
	return e
}

// Signed is an atom that may be negative.
func (t *Terms) Signed(name string, n ntype, lo, hi int64) *Tm {
	e := t.mk("atom", n, name, 0)
	if t.lo[name] == nil {
		t.lo[name], t.hi[name] = big.NewInt(lo), big.NewInt(hi)
		t.asgs = nil
	}
	return e
}

// low64 is a number in two's complement.
func low64(b *big.Int) uint64 {
	if b.Sign() < 0 {
		return uint64(b.Int64())
	}
	return b.Uint64()
}

func (t *Terms) Num(v uint64, n ntype) *Tm { return t.mk("const", n, "", n.wrap(v)) }

// Op applies an operator.
func (t *Terms) Op(op string, n ntype, a, b *Tm) *Tm {
	if a.op == "const" && b.op == "const" {
		e := &Tm{op: op, typ: n, a: []*Tm{a, b}}
		if v, ok := t.eval(e, nil); ok {
			return t.Num(v, n)
		}
	}
	isc := func(e *Tm, v uint64) bool { return e.op == "const" && e.val == v }
	switch {
	case op == "+" && isc(a, 0), op == "*" && isc(a, 1):
		return b
	case isc(b, 0) && (op == "+" || op == "-" || op == "|" || op == "^" || op == "<<" || op == ">>" || op == "&^"), isc(b, 1) && (op == "*" || op == "/"):
		return a
	}
	return t.mk(op, n, "", 0, a, b)
}

// Conv converts to another integer type.
func (t *Terms) Conv(e *Tm, n ntype) *Tm {
	if e.op == "const" {
		return t.Num(e.val, n)
	}
	if n.bits == 64 || n == e.typ || e.typ.bits < n.bits && !e.typ.signed {
		return e
	}
	return t.mk("conv", n, "", 0, e)
}

func (t *Terms) size(e *Tm) int {
	n := 1
	for _, a := range e.a {
		n += t.size(a)
	}
	return n
}

// eval computes an expression for given inputs.
func (t *Terms) eval(e *Tm, asg map[string]uint64) (uint64, bool) {
	switch e.op {
	case "const":
		return e.val, true
	case "atom":
		v, ok := asg[e.name]
		return v, ok
	case "f":
		return 0, false
	}
	v := make([]uint64, len(e.a))
	for i, a := range e.a {
		var ok bool
		if v[i], ok = t.eval(a, asg); !ok {
			return 0, false
		}
	}
	sg := e.typ.signed
	var r uint64
	switch e.op {
	case "conv":
		r = v[0]
	case "digits":
		return uint64(len(digits(v[0], e.a[0].typ.signed, e.name, e.val))), true
	case "+":
		r = v[0] + v[1]
	case "-":
		r = v[0] - v[1]
	case "*":
		r = v[0] * v[1]
	case "/", "%":
		if v[1] == 0 {
			return 0, false
		}
		switch {
		case sg && e.op == "/":
			if int64(v[1]) == -1 {
				r = -v[0]
			} else {
				r = uint64(int64(v[0]) / int64(v[1]))
			}
		case sg:
			if int64(v[1]) != -1 {
				r = uint64(int64(v[0]) % int64(v[1]))
			}
		case e.op == "/":
			r = v[0] / v[1]
		default:
			r = v[0] % v[1]
		}
	case "&":
		r = v[0] & v[1]
	case "|":
		r = v[0] | v[1]
	case "^":
		r = v[0] ^ v[1]
	case "&^":
		r = v[0] &^ v[1]
	case "<<":
		if v[1] < 64 {
			r = v[0] << v[1]
		}
	case ">>":
		switch {
		case sg && v[1] > 63:
			r = uint64(int64(v[0]) >> 63)
		case sg:
			r = uint64(int64(v[0]) >> v[1])
		case v[1] < 64:
			r = v[0] >> v[1]
		}
	case "min", "max":
		less := v[0] < v[1]
		if sg {
			less = int64(v[0]) < int64(v[1])
		}
		r = v[1]
		if less == (e.op == "min") {
			r = v[0]
		}
	case "cmp":
		o := 4
		if v[0] == v[1] {
			o = 2
		} else if e.val&8 != 0 && int64(v[0]) < int64(v[1]) || e.val&8 == 0 && v[0] < v[1] {
			o = 1
		}
		if o&int(e.val) != 0 {
			r = 1
		}
	default:
		return 0, false
	}
	return e.typ.wrap(r), true
}

// rng bounds an expression.
func (t *Terms) rng(e *Tm, pc []*tmCond) (lo, hi *big.Int) {
	lo, hi = t.rng0(e, pc)
	for _, c := range pc {
		// limits learned from branches
		for _, s := range []int{0, 1} {
			a, b := c.a, c.b
			if s == 1 {
				a, b = b, a
			}
			if a.key != e.key || b.op != "const" {
				continue
			}
			v := new(big.Int).SetUint64(b.val)
			if c.sgn {
				v = big.NewInt(int64(b.val))
			}
			one := big.NewInt(1)
			switch {
			case c.op == "==":
				lo, hi = v, v
			case c.op == "<" && s == 0:
				hi = bigMin(hi, new(big.Int).Sub(v, one))
			case c.op == "<=" && s == 0:
				hi = bigMin(hi, v)
			case c.op == "<" && s == 1:
				lo = bigMax(lo, new(big.Int).Add(v, one))
			case c.op == "<=" && s == 1:
				lo = bigMax(lo, v)
			case c.op == "!=" && lo.Cmp(v) == 0:
				lo = new(big.Int).Add(lo, one)
			}
		}
	}
	return
}

func bigMin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func bigMax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (t *Terms) rng0(e *Tm, pc []*tmCond) (lo, hi *big.Int) {
	tl, th := e.typ.limits()
	clip := func(a, b *big.Int) (*big.Int, *big.Int) {
		if a.Cmp(tl) < 0 || b.Cmp(th) > 0 {
			return tl, th
		}
		return a, b
	}
	switch e.op {
	case "const":
		v := new(big.Int).SetUint64(e.val)
		if e.typ.signed {
			v = big.NewInt(int64(e.val))
		}
		return v, v
	case "atom":
		return t.lo[e.name], t.hi[e.name]
	case "f":
		return tl, th
	case "cmp":
		return big.NewInt(0), big.NewInt(1)
	}
	al, ah := t.rng(e.a[0], pc)
	if e.op == "digits" {
		return big.NewInt(1), big.NewInt(128)
	}
	if e.op == "conv" {
		return clip(al, ah)
	}
	bl, bh := t.rng(e.a[1], pc)
	nn := al.Sign() >= 0 && bl.Sign() >= 0
	zero := big.NewInt(0)
	switch e.op {
	case "+":
		return clip(new(big.Int).Add(al, bl), new(big.Int).Add(ah, bh))
	case "-":
		return clip(new(big.Int).Sub(al, bh), new(big.Int).Sub(ah, bl))
	case "*":
		if nn {
			return clip(new(big.Int).Mul(al, bl), new(big.Int).Mul(ah, bh))
		}
	case "/":
		if nn && bl.Sign() > 0 {
			return new(big.Int).Quo(al, bh), new(big.Int).Quo(ah, bl)
		}
	case "%":
		if nn && bl.Sign() > 0 {
			return zero, bigMin(ah, new(big.Int).Sub(bh, big.NewInt(1)))
		}
	case "&":
		if nn {
			return zero, bigMin(ah, bh)
		}
		if al.Sign() >= 0 {
			return zero, ah
		}
		if bl.Sign() >= 0 {
			return zero, bh
		}
	case "&^":
		if al.Sign() >= 0 {
			return zero, ah
		}
	case "<<":
		if nn && bh.Cmp(big.NewInt(64)) < 0 {
			return clip(new(big.Int).Lsh(al, uint(bl.Int64())), new(big.Int).Lsh(ah, uint(bh.Int64())))
		}
	case ">>":
		if nn {
			s := uint(63)
			if bh.Cmp(big.NewInt(63)) < 0 {
				s = uint(bh.Int64())
			}
			return new(big.Int).Rsh(al, s), new(big.Int).Rsh(ah, uint(bigMin(bl, big.NewInt(63)).Int64()))
		}
	case "min":
		return bigMin(al, bl), bigMin(ah, bh)
	case "max":
		return bigMax(al, bl), bigMax(ah, bh)
	}
	return tl, th
}

type poly map[string]*big.Int

func (p poly) String() string {
	var ks []string
	for k, v := range p {
		if v.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, p[k].String()+"*("+k+")")
	}
	return strings.Join(out, "+")
}

func (p poly) add(k string, v *big.Int) {
	if p[k] == nil {
		p[k] = new(big.Int)
	}
	p[k] = new(big.Int).Add(p[k], v)
	if p[k].Sign() == 0 {
		delete(p, k)
	}
}

func one(k string) poly { return poly{k: big.NewInt(1)} }

func (p poly) num() (*big.Int, bool) {
	switch len(p) {
	case 0:
		return big.NewInt(0), true
	case 1:
		if v, ok := p[""]; ok {
			return v, true
		}
	}
	return nil, false
}

func mulMono(a, b string) string {
	var s []string
	for _, x := range []string{a, b} {
		if x != "" {
			s = append(s, strings.Split(x, "·")...)
		}
	}
	sort.Strings(s)
	return strings.Join(s, "·")
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for k, v := range p {
		for l, w := range q {
			r.add(mulMono(k, l), new(big.Int).Mul(v, w))
		}
	}
	return r
}

func (p poly) plus(q poly, f int64) poly {
	r := poly{}
	for k, v := range p {
		r.add(k, v)
	}
	for k, v := range q {
		r.add(k, new(big.Int).Mul(v, big.NewInt(f)))
	}
	return r
}

// pow2 is 2 to the power of an expression.
func polyPow2(p poly) poly {
	if n, ok := p.num(); ok && n.Sign() >= 0 && n.Cmp(big.NewInt(64)) < 0 {
		return poly{"": new(big.Int).Lsh(big.NewInt(1), uint(n.Int64()))}
	}
	return one("2^{" + p.String() + "}")
}

// isPow2 reports that an expression is a power of two.
func (p poly) isPow2() bool {
	if n, ok := p.num(); ok {
		return n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0
	}
	if len(p) != 1 {
		return false
	}
	for k, v := range p {
		for _, f := range strings.Split(k, "·") {
			if !strings.HasPrefix(f, "2^{") {
				return false
			}
		}
		return (poly{"": v}).isPow2()
	}
	return false
}

// mod and div by a positive number of a non-negative one
func (p poly) mod(m poly) poly {
	r := poly{}
	for k, v := range p {
		if !divides(m, k, v) {
			r.add(k, v)
		}
	}
	if n, ok := r.num(); ok {
		if d, ok := m.num(); ok && d.Sign() > 0 {
			return poly{"": new(big.Int).Mod(n, d)}.plus(poly{}, 1)
		}
		if n.Sign() == 0 {
			return poly{}
		}
	}
	return one("mod{" + r.String() + "|" + m.String() + "}")
}

// divides says whether m divides v*k.
func divides(m poly, k string, v *big.Int) bool {
	if d, ok := m.num(); ok {
		return d.Sign() > 0 && new(big.Int).Mod(v, d).Sign() == 0
	}
	if len(m) != 1 {
		return false
	}
	for mk, mv := range m {
		fs := strings.Split(k, "·")
		for _, f := range strings.Split(mk, "·") {
			found := false
			for i := range fs {
				if fs[i] == f {
					fs = append(append([]string(nil), fs[:i]...), fs[i+1:]...)
					found = true
					break
				}
			}
			if !found {
				return false
			}
		}
		return new(big.Int).Mod(v, mv).Sign() == 0
	}
	return false
}

// norm is the normal form of an expression on the path whose conditions were listed last.
func (t *Terms) norm(e *Tm, pc []*tmCond) poly {
	k := e.key + "@" + t.pcKey
	p, ok := t.norms[k]
	if !ok {
		p = t.norm0(e, pc)
		t.norms[k] = p
	}
	return p
}

// diff is a-b without its constant part, which comes second.
func (t *Terms) diff(a, b *Tm, pc []*tmCond) (poly, *big.Int) {
	d := poly{}.plus(t.norm(a, pc), 1).plus(t.norm(b, pc), -1)
	c := big.NewInt(0)
	if v := d[""]; v != nil {
		c = v
		delete(d, "")
	}
	return d, c
}

func (t *Terms) norm0(e *Tm, pc []*tmCond) poly {
	switch e.op {
	case "const":
		v := new(big.Int).SetUint64(e.val)
		if e.typ.signed {
			v = big.NewInt(int64(e.val))
		}
		return poly{}.plus(poly{"": v}, 1)
	case "atom":
		return one(e.name)
	case "f":
		var s []string
		for _, a := range e.a {
			s = append(s, t.norm(a, pc).String())
		}
		return one(e.name + "{" + strings.Join(s, "|") + "}")
	case "digits":
		return one(fmt.Sprintf("%s%d{%s}", e.name, e.val, t.norm(e.a[0], pc)))
	}
	var p []poly
	for _, a := range e.a {
		p = append(p, t.norm(a, pc))
	}
	nonneg := true
	for _, a := range e.a {
		lo, _ := t.rng(a, pc)
		nonneg = nonneg && lo.Sign() >= 0
	}
	var r poly
	switch e.op {
	case "conv":
		r = p[0]
	case "+":
		r = p[0].plus(p[1], 1)
	case "-":
		r = p[0].plus(p[1], -1)
	case "*":
		r = p[0].mul(p[1])
	case "<<":
		r = p[0].mul(polyPow2(p[1]))
	case ">>", "/":
		if !nonneg {
			break
		}
		d := p[1]
		if e.op == ">>" {
			d = polyPow2(p[1])
		}
		all := true
		q := poly{}
		if m, ok := d.num(); ok && m.Sign() > 0 {
			for k, v := range p[0] {
				if !divides(d, k, v) {
					all = false
				} else {
					q.add(k, new(big.Int).Quo(v, m))
				}
			}
			if all {
				r = q
				break
			}
		}
		r = one("div{" + p[0].String() + "|" + d.String() + "}")
	case "%":
		if nonneg {
			r = p[0].mod(p[1])
		}
	case "&":
		for i := range p {
			m := p[i].plus(poly{"": big.NewInt(1)}, 1)
			o := p[1-i]
			lo, _ := t.rng(e.a[1-i], pc)
			if m.isPow2() && lo.Sign() >= 0 {
				r = o.mod(m)
				break
			}
			// a mask that clears the low bits
			m = p[i].mul(poly{"": big.NewInt(-1)})
			if e.a[i].op == "const" {
				c := e.typ.wrap(-e.a[i].val)
				m = poly{"": new(big.Int).SetUint64(c)}
			}
			if m.isPow2() && lo.Sign() >= 0 {
				r = o.plus(o.mod(m), -1)
				break
			}
		}
	case "&^":
		m := p[1].plus(poly{"": big.NewInt(1)}, 1)
		if m.isPow2() && nonneg {
			r = p[0].plus(p[0].mod(m), -1)
		}
	}
	if r != nil && e.op != "conv" || e.op == "conv" {
		// does the exact result fit the type?
		tl, th := e.typ.limits()
		lo, hi := t.exact(e, pc)
		if lo != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
			return r
		}
		return one("wrap" + e.typ.String() + "{" + r.String() + "}")
	}
	var s []string
	for _, q := range p {
		s = append(s, q.String())
	}
	switch e.op {
	case "|", "^", "&", "min", "max":
		sort.Strings(s)
	}
	return one(e.op + e.typ.String() + "{" + strings.Join(s, "|") + "}")
}

// exact bounds the result of the last operation before it is cut to its type.
func (t *Terms) exact(e *Tm, pc []*tmCond) (lo, hi *big.Int) {
	wide := *e
	wide.typ = ntype{200, true}
	if e.op == "/" || e.op == "%" || e.op == ">>" || e.op == "&" || e.op == "&^" {
		wide.typ = e.typ
	}
	lo, hi = t.rng0(&wide, pc)
	if e.op == "-" {
		// a - b where a branch established b <= a, or where b is a remainder of a
		a, b := e.a[0], e.a[1]
		ok := false
		for _, c := range pc {
			if (c.op == "<" || c.op == "<=") && c.a.key == b.key && c.b.key == a.key {
				ok = true
			}
		}
		if b.op == "&" || b.op == "%" || b.op == ">>" || b.op == "/" || b.op == "&^" {
			for i, x := range b.a {
				if x.key == a.key && (i == 0 || b.op == "&") {
					ok = true
				}
			}
		}
		if ok && lo.Sign() < 0 {
			lo = big.NewInt(0)
		}
	}
	return lo, hi
}

func (c *tmCond) holds(t *Terms, asg map[string]uint64) (bool, bool) {
	a, ok := t.eval(c.a, asg)
	b, ok2 := t.eval(c.b, asg)
	if !ok || !ok2 {
		return false, false
	}
	lt := a < b
	if c.sgn {
		lt = int64(a) < int64(b)
	}
	switch c.op {
	case "<":
		return lt, true
	case "<=":
		return lt || a == b, true
	case "==":
		return a == b, true
	}
	return a != b, true
}

// cond makes a condition from a comparison; r is a set of orders (1 <, 2 =, 4 >).
func (t *Terms) cond(a, b *Tm, r int, sgn bool) *tmCond {
	op := map[int]string{1: "<", 3: "<=", 2: "==", 5: "!=", 4: "<", 6: "<="}[r]
	if op == "" {
		return nil
	}
	if r == 4 || r == 6 {
		a, b = b, a
	}
	if (op == "==" || op == "!=") && a.key > b.key {
		a, b = b, a
	}
	k := a.key + op + b.key
	if sgn {
		k += "s"
	}
	i, ok := t.byCond[k]
	if !ok {
		i = len(t.conds)
		t.byCond[k] = i
		t.conds = append(t.conds, &tmCond{op: op, a: a, b: b, sgn: sgn, key: strconv.Itoa(i)})
	}
	return t.conds[i]
}

const (
	pcGhost    = "+pc"
	fuzzyGhost = "+fuzzy" // a branch that the named inputs do not decide was taken
)

// pc lists the conditions on the inputs along the path.
func (t *Terms) pc(st *EState) []*tmCond {
	var out []*tmCond
	t.pcKey = st.ghost[pcGhost]
	for _, s := range strings.Split(t.pcKey, ",") {
		if s != "" {
			i, _ := strconv.Atoi(s)
			out = append(out, t.conds[i])
		}
	}
	return out
}

// learn adds a condition; it returns false if that contradicts what is known.
func (t *Terms) learn(st *EState, a, b *Tm, r int, sgn bool) bool {
	switch t.decide(st, a, b, r, sgn) {
	case 1:
		return true
	case -1:
		return false
	}
	c := t.cond(a, b, r, sgn)
	if c == nil {
		return true
	}
	ids := strings.Split(st.ghost[pcGhost], ",")
	for _, s := range ids {
		if s == c.key {
			return true
		}
	}
	ids = append(ids, c.key)
	sort.Strings(ids)
	if ids[0] == "" {
		ids = ids[1:]
	}
	st.ghost[pcGhost] = strings.Join(ids, ",")
	return true
}

// decide says whether a comparison certainly holds (1) or does not (-1).
func (t *Terms) decide(st *EState, a, b *Tm, r int, sgn bool) int {
	pc := t.pc(st)
	al, ah := t.rng(a, pc)
	bl, bh := t.rng(b, pc)
	can := 0
	// what earlier branches say about the difference
	dl, dh := new(big.Int).Sub(al, bh), new(big.Int).Sub(ah, bl)
	if d, c0 := t.diff(a, b, pc); len(d) > 0 {
		ds, ms := d.String(), poly{}.plus(d, -1).String()
		var not []*big.Int
		for _, c := range pc {
			e, c1 := t.diff(c.a, c.b, pc)
			op := map[string]int{"<": 1, "<=": 3, "==": 2, "!=": 5}[c.op]
			v := new(big.Int)
			switch e.String() {
			case ds:
				v.Sub(c0, c1)
			case ms:
				v.Add(c0, c1)
				op = flipRel(op)
			default:
				continue
			}
			// d + c1 op 0, hence d + c0 op c0 - c1
			one := big.NewInt(1)
			switch op {
			case 1:
				dh = bigMin(dh, v.Sub(v, one))
			case 3:
				dh = bigMin(dh, v)
			case 4:
				dl = bigMax(dl, v.Add(v, one))
			case 6:
				dl = bigMax(dl, v)
			case 2:
				dl, dh = bigMax(dl, v), bigMin(dh, v)
			case 5:
				not = append(not, v)
			}
		}
		for range not {
			for _, v := range not {
				if v.Cmp(dl) == 0 {
					dl = new(big.Int).Add(dl, big.NewInt(1))
				}
				if v.Cmp(dh) == 0 {
					dh = new(big.Int).Sub(dh, big.NewInt(1))
				}
			}
		}
		zero := false
		for _, v := range not {
			zero = zero || v.Sign() == 0
		}
		if dl.Cmp(dh) <= 0 {
			got := 0
			if dl.Sign() < 0 {
				got |= 1
			}
			if dh.Sign() > 0 {
				got |= 4
			}
			if dl.Sign() <= 0 && dh.Sign() >= 0 && !zero {
				got |= 2
			}
			if got != 0 && got&^r == 0 {
				return 1
			}
			if got != 0 && got&r == 0 {
				return -1
			}
		}
	} else {
		got := 2
		if c0.Sign() < 0 {
			got = 1
		} else if c0.Sign() > 0 {
			got = 4
		}
		if got&r != 0 {
			return 1
		}
		return -1
	}
	if a.key == b.key {
		can = 2
	} else {
		if al.Cmp(bh) < 0 {
			can |= 1
		}
		if ah.Cmp(bl) > 0 {
			can |= 4
		}
		if al.Cmp(bh) <= 0 && bl.Cmp(ah) <= 0 {
			can |= 2
		}
		for _, c := range pc {
			o := map[string]int{"<": 1, "<=": 3, "==": 2, "!=": 5}[c.op]
			if c.a.key == a.key && c.b.key == b.key {
				can &= o
			} else if c.a.key == b.key && c.b.key == a.key {
				can &= flipRel(o)
			}
		}
	}
	switch {
	case can&^r == 0:
		return 1
	case can&r == 0:
		return -1
	}
	return 0
}

// valuations lists sample inputs.
func (t *Terms) valuations() []map[string]uint64 {
	if t.asgs != nil {
		return t.asgs
	}
	t.fits = map[string][]map[string]uint64{}
	r := rand.New(rand.NewSource(1))
	var names []string
	for n := range t.lo {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := 0; i < max(600, t.samples); i++ {
		asg := map[string]uint64{}
		for _, n := range names {
			lo, hi := low64(t.lo[n]), low64(t.hi[n])
			w := hi - lo
			var v uint64
			switch r.Intn(6) {
			case 0:
				v = lo
			case 1:
				v = hi
			case 2:
				v = lo + uint64(r.Intn(300))
			case 3:
				v = lo + r.Uint64()>>uint(r.Intn(64))
			case 4:
				v = uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
			default:
				v = lo + r.Uint64()>>40
			}
			if v-lo > w {
				if w == ^uint64(0) {
					v = r.Uint64()
				} else {
					v = lo + r.Uint64()%(w+1)
				}
			}
			asg[n] = v
		}
		for _, f := range t.pick {
			f(r, asg)
		}
		t.asgs = append(t.asgs, asg)
	}
	return t.asgs
}

// consistent lists the sample inputs that fit the branches taken.
func (t *Terms) consistent(st *EState) (out []map[string]uint64) {
	key := st.ghost[pcGhost]
	asgs := t.valuations()
	if out, ok := t.fits[key]; ok {
		return out
	}
	defer func() { t.fits[key] = out }()
	pc := t.pc(st)
next:
	for _, asg := range asgs {
		for _, c := range pc {
			if h, ok := c.holds(t, asg); ok && !h {
				continue next
			}
		}
		out = append(out, asg)
	}
	return out
}

type verdict int

const (
	vUnknown verdict = iota
	vProved          // the normal forms agree
	vSampled         // no sample input tells them apart
	vDiffer
)

// compare decides whether an expression is what it should be; why describes a difference.
func (t *Terms) compare(st *EState, got *Tm, want func(asg map[string]uint64) *Tm) (verdict, string) {
	asgs := t.consistent(st)
	if len(asgs) == 0 {
		return vUnknown, ""
	}
	pc := t.pc(st)
	proved := map[string]bool{}
	v := vProved
	for _, asg := range asgs {
		w := want(asg)
		if w == nil {
			return vUnknown, ""
		}
		ok, seen := proved[w.key]
		if !seen {
			ok = t.norm(got, pc).String() == t.norm(w, pc).String()
			proved[w.key] = ok
		}
		if ok {
			continue
		}
		v = vSampled
		a, ok1 := t.eval(got, asg)
		b, ok2 := t.eval(w, asg)
		if !ok1 || !ok2 {
			return vUnknown, ""
		}
		if a != b {
			var in []string
			used := map[string]bool{}
			t.atoms(got, used)
			t.atoms(w, used)
			for n := range used {
				in = append(in, fmt.Sprintf("%s=%d", n, asg[n]))
			}
			sort.Strings(in)
			return vDiffer, fmt.Sprintf("computed %s, expected %s: %d instead of %d for %s", t.show(got), t.show(w), a, b, strings.Join(in, ", "))
		}
	}
	return v, ""
}

func (t *Terms) atoms(e *Tm, out map[string]bool) {
	if e.op == "atom" {
		out[e.name] = true
	}
	for _, a := range e.a {
		t.atoms(a, out)
	}
}

func (t *Terms) show(e *Tm) string {
	switch e.op {
	case "const":
		if e.typ.signed {
			return strconv.FormatInt(int64(e.val), 10)
		}
		return strconv.FormatUint(e.val, 10)
	case "atom":
		return e.name
	case "cmp":
		return "(" + t.show(e.a[0]) + " " + map[uint64]string{1: "<", 2: "==", 3: "<=", 4: ">", 5: "!=", 6: ">="}[e.val&7] + " " + t.show(e.a[1]) + ")"
	case "conv":
		return map[bool]string{true: "int", false: "uint"}[e.typ.signed] + strconv.Itoa(e.typ.bits) + "(" + t.show(e.a[0]) + ")"
	}
	var s []string
	for _, a := range e.a {
		s = append(s, t.show(a))
	}
	if len(s) == 2 && e.op != "min" && e.op != "max" && e.op != "f" {
		return "(" + s[0] + " " + e.op + " " + s[1] + ")"
	}
	return e.op + e.name + "(" + strings.Join(s, ", ") + ")"
}

// AV turns an expression into a value.
func (t *Terms) AV(e *Tm) AV {
	if e.op == "const" {
		return avUint(e.val)
	}
	return sym("in:" + e.key)
}

// tm is the expression of a value.
func (x *Esp) tm(a AV, typ types.Type) (*Tm, bool) {
	if x.terms == nil {
		return nil, false
	}
	if strings.HasPrefix(a.sym, "in:") {
		e := x.terms.tab[a.sym[3:]]
		return e, e != nil
	}
	if a.k == avBits && a.mask == ^uint64(0) {
		if n, ok := ntypeOf(typ); ok {
			return x.terms.Num(a.val, n), true
		}
	}
	return nil, false
}

// cmp is the truth value of a comparison.
func (t *Terms) cmp(a, b *Tm, r int, sgn bool) *Tm {
	v := uint64(r)
	if sgn {
		v |= 8
	}
	return t.mk("cmp", ntype{8, false}, strconv.FormatUint(v, 10), v, a, b)
}

// holdsOrNot learns that a comparison is true or false.
func (t *Terms) holdsOrNot(st *EState, e *Tm, want bool) bool {
	if e == nil || e.op != "cmp" {
		return true
	}
	r := int(e.val & 7)
	if !want {
		r = 7 &^ r
	}
	return t.learn(st, e.a[0], e.a[1], r, e.val&8 != 0)
}

func isTerm(a AV) bool { return strings.HasPrefix(a.sym, "in:") }

const maxTerm = 60

// termOp is the value of an arithmetic operation on expressions.
func (x *Esp) termOp(st *EState, i *ssa.BinOp, a, b AV) (AV, bool) {
	if x.terms == nil || !isTerm(a) && !isTerm(b) {
		return AV{}, false
	}
	ta, ok := x.tm(a, i.X.Type())
	tb, ok2 := x.tm(b, i.Y.Type())
	if !ok || !ok2 {
		return AV{}, false
	}
	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		n, ok := ntypeOf(i.X.Type())
		if !ok {
			return AV{}, false
		}
		r := map[token.Token]int{token.EQL: 2, token.NEQ: 5, token.LSS: 1, token.LEQ: 3, token.GTR: 4, token.GEQ: 6}[i.Op]
		if d := x.terms.decide(st, ta, tb, r, n.signed); d != 0 {
			return avBool(d > 0), true
		}
		return x.terms.AV(x.terms.cmp(ta, tb, r, n.signed)), true
	}
	n, ok := ntypeOf(i.Type())
	if !ok || x.carried(i) {
		return AV{}, false
	}
	op := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/", token.REM: "%", token.AND: "&", token.OR: "|", token.XOR: "^", token.AND_NOT: "&^", token.SHL: "<<", token.SHR: ">>"}[i.Op]
	if op == "" {
		return AV{}, false
	}
	e := x.terms.Op(op, n, ta, tb)
	if x.terms.size(e) > maxTerm {
		return AV{}, false
	}
	return x.terms.AV(e), true
}
