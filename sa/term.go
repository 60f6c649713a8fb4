package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of a value term.
type Op uint8

const (
	OConst     Op = iota // constant (val==nil: the zero/nil value of typ)
	OSym                 // symbol
	OAlloc               // address of an object allocated during the analysed execution
	OGlobal              // address of a package level variable
	OFunc                // function value
	OClosure             // closure; args are the bindings
	OFieldAddr           // &base.f
	OIndexAddr           // &base[idx]; one arg only: any element
	OField               // x.f
	OStruct              // struct value
	OBin                 // x op y
	OUn                  // op x
	OConv                // typ(x)
	OIface               // interface holding x
	OPure                // result of a pure function
	OSlice               // slice with known backing: ptr, off, len, cap
	OLen                 // len(x)
	OCap                 // cap(x)
	OTuple               // multiple results
	OAssert              // x.(typ)
	OIsType              // x has dynamic type / implements aux
	OInit                // contents of an address at the start (or of an element of unknown identity)
	OObj                 // opaque object created by a library call; args are the call's args
)

// Ctx is a call string.
type Ctx struct {
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	id     int
	depth  int
}

// Sym identifies a symbol.
type Sym struct {
	kind  string
	ctx   *Ctx
	instr ssa.Instruction
	name  string
	idx   int
	old   bool
	id    int
}

// Term is an interned value expression.
type Term struct {
	id   int
	op   Op
	typ  types.Type
	aux  string
	idx  int
	val  constant.Value
	fn   *ssa.Function
	glob *ssa.Global
	args []*Term
	sym  *Sym
	syms []*Sym // all symbols in the term
}

// Universe interns terms, symbols and contexts.
type Universe struct {
	renamed func(old, nw *Term) // called when a type test was renamed
	terms   map[string]*Term
	syms    map[string]*Sym
	ctxs    map[string]*Ctx
	types   map[types.Type]string
	instr   map[any]int
}

func newUniverse() *Universe {
	return &Universe{terms: map[string]*Term{}, syms: map[string]*Sym{}, ctxs: map[string]*Ctx{}, types: map[types.Type]string{}, instr: map[any]int{}}
}

func (u *Universe) tkey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if s, ok := u.types[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	u.types[t] = s
	return s
}

func (u *Universe) iid(i any) int {
	if i == nil {
		return 0
	}
	if n, ok := u.instr[i]; ok {
		return n
	}
	n := len(u.instr) + 1
	u.instr[i] = n
	return n
}

func (u *Universe) Ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	pid, d := 0, 0
	if parent != nil {
		pid, d = parent.id, parent.depth+1
	}
	var si any
	if site != nil {
		si = site
	}
	k := fmt.Sprintf("%d/%d/%d", pid, u.iid(si), u.iid(fn))
	if c, ok := u.ctxs[k]; ok {
		return c
	}
	c := &Ctx{parent: parent, site: site, fn: fn, id: len(u.ctxs) + 1, depth: d}
	u.ctxs[k] = c
	return c
}

func (u *Universe) symbol(kind string, ctx *Ctx, instr ssa.Instruction, name string, idx int, old bool) *Sym {
	cid := 0
	if ctx != nil {
		cid = ctx.id
	}
	var ii any
	if instr != nil {
		ii = instr
	}
	k := fmt.Sprintf("%s|%d|%d|%s|%d|%v", kind, cid, u.iid(ii), name, idx, old)
	if s, ok := u.syms[k]; ok {
		return s
	}
	s := &Sym{kind: kind, ctx: ctx, instr: instr, name: name, idx: idx, old: old, id: len(u.syms) + 1}
	u.syms[k] = s
	return s
}

func (u *Universe) mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(u.tkey(t.typ))
	b.WriteByte('|')
	b.WriteString(t.aux)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.idx))
	if t.val != nil {
		b.WriteByte('=')
		b.WriteString(strconv.Itoa(int(t.val.Kind())))
		b.WriteString(t.val.ExactString())
	}
	if t.fn != nil {
		fmt.Fprintf(&b, "|f%d", u.iid(t.fn))
	}
	if t.glob != nil {
		fmt.Fprintf(&b, "|g%d", u.iid(t.glob))
	}
	if t.sym != nil {
		fmt.Fprintf(&b, "|s%d", t.sym.id)
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if e, ok := u.terms[k]; ok {
		return e
	}
	n := t
	n.id = len(u.terms) + 1
	seen := map[*Sym]bool{}
	if n.sym != nil {
		seen[n.sym] = true
		n.syms = append(n.syms, n.sym)
	}
	for _, a := range n.args {
		for _, s := range a.syms {
			if !seen[s] {
				seen[s] = true
				n.syms = append(n.syms, s)
			}
		}
	}
	u.terms[k] = &n
	return &n
}

func (u *Universe) Const(typ types.Type, v constant.Value) *Term {
	return u.mk(Term{op: OConst, typ: typ, val: v})
}
func (u *Universe) Int(typ types.Type, v int64) *Term {
	return u.Const(typ, constant.MakeInt64(v))
}
func (u *Universe) Bool(v bool) *Term {
	return u.Const(types.Typ[types.Bool], constant.MakeBool(v))
}
func (u *Universe) Str(v string) *Term {
	return u.Const(types.Typ[types.String], constant.MakeString(v))
}
func (u *Universe) Nil(typ types.Type) *Term { return u.mk(Term{op: OConst, typ: typ}) }

func (u *Universe) Zero(typ types.Type) *Term {
	switch t := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return u.Const(typ, constant.MakeBool(false))
		case t.Info()&types.IsString != 0:
			return u.Const(typ, constant.MakeString(""))
		case t.Info()&types.IsInteger != 0:
			return u.Const(typ, constant.MakeInt64(0))
		case t.Info()&types.IsFloat != 0:
			return u.Const(typ, constant.MakeFloat64(0))
		}
		return u.Nil(typ)
	case *types.Struct:
		args := make([]*Term, t.NumFields())
		for i := range args {
			args[i] = u.Zero(t.Field(i).Type())
		}
		return u.mk(Term{op: OStruct, typ: typ, args: args})
	default:
		return u.Nil(typ)
	}
}

func (u *Universe) Sym(typ types.Type, kind string, ctx *Ctx, instr ssa.Instruction, name string, idx int) *Term {
	return u.mk(Term{op: OSym, typ: typ, sym: u.symbol(kind, ctx, instr, name, idx, false)})
}

func (u *Universe) Tuple(args ...*Term) *Term { return u.mk(Term{op: OTuple, args: args}) }

func structOf(t types.Type) *types.Struct {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	s, _ := t.(*types.Struct)
	return s
}

func (u *Universe) FieldAddr(base *Term, i int) *Term {
	var ft types.Type
	if s := structOf(base.typ); s != nil && i < s.NumFields() {
		ft = types.NewPointer(s.Field(i).Type())
	}
	// the type of the pointer is derived from the base; intern without it.
	k := u.mkFieldAddr(base, i, ft)
	return k
}

func (u *Universe) mkFieldAddr(base *Term, i int, ft types.Type) *Term {
	return u.mk(Term{op: OFieldAddr, typ: ft, idx: i, args: []*Term{base}})
}

func (u *Universe) IndexAddr(base, idx *Term, elem types.Type) *Term {
	if idx == nil {
		return u.mk(Term{op: OIndexAddr, typ: types.NewPointer(elem), args: []*Term{base}})
	}
	return u.mk(Term{op: OIndexAddr, typ: types.NewPointer(elem), args: []*Term{base, idx}})
}

func (u *Universe) Field(x *Term, i int) *Term {
	if x.op == OStruct && i < len(x.args) {
		return x.args[i]
	}
	s := structOf(x.typ)
	if x.op == OConst {
		return u.Zero(s.Field(i).Type())
	}
	return u.mk(Term{op: OField, typ: s.Field(i).Type(), idx: i, args: []*Term{x}})
}

// Struct builds a struct value, collapsing a field-by-field copy of another value.
func (u *Universe) Struct(typ types.Type, args []*Term) *Term {
	if len(args) > 0 {
		a0 := args[0]
		if a0.op == OField && a0.idx == 0 && types.Identical(a0.args[0].typ, typ) {
			same := true
			for i, a := range args {
				if a.op != OField || a.idx != i || a.args[0] != a0.args[0] {
					same = false
					break
				}
			}
			if same {
				return a0.args[0]
			}
		}
	}
	return u.mk(Term{op: OStruct, typ: typ, args: args})
}

func (u *Universe) Pure(typ types.Type, name string, args ...*Term) *Term {
	return u.mk(Term{op: OPure, typ: typ, aux: name, args: args})
}

func (u *Universe) PureI(typ types.Type, name string, idx int, args ...*Term) *Term {
	return u.mk(Term{op: OPure, typ: typ, aux: name, idx: idx, args: args})
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
func isNilable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer
	}
	return false
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

func bitSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	maxLen  = pow2(47)
)

func typeRange(t types.Type) (lo, hi *big.Int) {
	n := bitSize(t)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return new(big.Int).Neg(pow2(200)), pow2(200)
	}
	if isUnsigned(t) {
		return bigZero, new(big.Int).Sub(pow2(n), bigOne)
	}
	return new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), bigOne)
}

func wrapInt(v *big.Int, t types.Type) *big.Int {
	lo, hi := typeRange(t)
	if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
		return v
	}
	n := bitSize(t)
	m := pow2(n)
	r := new(big.Int).Mod(v, m)
	if !isUnsigned(t) && r.Cmp(hi) > 0 {
		r.Sub(r, m)
	}
	return r
}

func bigOf(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	if v.Kind() != constant.Int {
		return nil
	}
	if i, ok := constant.Int64Val(v); ok {
		return big.NewInt(i)
	}
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	return b
}

func (u *Universe) Big(typ types.Type, v *big.Int) *Term {
	return u.Const(typ, constant.Make(new(big.Int).Set(v)))
}

func (t *Term) isIntConst() (*big.Int, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.Int {
		return bigOf(t.val), true
	}
	return nil, false
}

func (t *Term) isNil() bool { return t.op == OConst && t.val == nil && isNilable(t.typ) }

func (t *Term) strConst() (string, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

func (t *Term) boolConst() (bool, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}

var commutative = map[string]bool{"+": true, "*": true, "&": true, "|": true, "^": true, "==": true, "!=": true}

// Bin builds x op y.
func (u *Universe) Bin(op token.Token, typ types.Type, x, y *Term) *Term {
	o := op.String()
	cx, okx := x.isIntConst()
	cy, oky := y.isIntConst()
	switch op {
	case token.GTR:
		return u.Bin(token.LSS, typ, y, x)
	case token.GEQ:
		return u.Bin(token.LEQ, typ, y, x)
	case token.NEQ:
		return u.Not(u.Bin(token.EQL, typ, x, y))
	}
	if okx && oky {
		r := new(big.Int)
		switch op {
		case token.ADD:
			return u.Big(typ, wrapInt(r.Add(cx, cy), typ))
		case token.SUB:
			return u.Big(typ, wrapInt(r.Sub(cx, cy), typ))
		case token.MUL:
			return u.Big(typ, wrapInt(r.Mul(cx, cy), typ))
		case token.QUO:
			if cy.Sign() != 0 {
				return u.Big(typ, wrapInt(r.Quo(cx, cy), typ))
			}
		case token.REM:
			if cy.Sign() != 0 {
				return u.Big(typ, wrapInt(r.Rem(cx, cy), typ))
			}
		case token.AND:
			return u.Big(typ, r.And(cx, cy))
		case token.OR:
			return u.Big(typ, r.Or(cx, cy))
		case token.XOR:
			return u.Big(typ, wrapInt(r.Xor(cx, cy), typ))
		case token.AND_NOT:
			return u.Big(typ, wrapInt(r.AndNot(cx, cy), typ))
		case token.SHL:
			if cy.Sign() >= 0 && cy.Cmp(big.NewInt(200)) < 0 {
				return u.Big(typ, wrapInt(r.Lsh(cx, uint(cy.Int64())), typ))
			}
		case token.SHR:
			if cy.Sign() >= 0 && cy.Cmp(big.NewInt(200)) < 0 {
				return u.Big(typ, wrapInt(r.Rsh(cx, uint(cy.Int64())), typ))
			}
		case token.EQL:
			return u.Bool(cx.Cmp(cy) == 0)
		case token.LSS:
			return u.Bool(cx.Cmp(cy) < 0)
		case token.LEQ:
			return u.Bool(cx.Cmp(cy) <= 0)
		}
	}
	if sx, ok := x.strConst(); ok {
		if sy, ok2 := y.strConst(); ok2 {
			switch op {
			case token.ADD:
				return u.Const(typ, constant.MakeString(sx+sy))
			case token.EQL:
				return u.Bool(sx == sy)
			case token.LSS:
				return u.Bool(sx < sy)
			case token.LEQ:
				return u.Bool(sx <= sy)
			}
		}
	}
	if op == token.ADD && isString(typ) {
		if s, ok := x.strConst(); ok && s == "" {
			return y
		}
		if s, ok := y.strConst(); ok && s == "" {
			return x
		}
	}
	if bx, ok := x.boolConst(); ok && op == token.EQL {
		if bx {
			return y
		}
		return u.Not(y)
	}
	if by, ok := y.boolConst(); ok && op == token.EQL {
		if by {
			return x
		}
		return u.Not(x)
	}
	if isInt(typ) {
		if op == token.ADD || op == token.OR || op == token.XOR {
			if okx && cx.Sign() == 0 {
				return y
			}
		}
		if op == token.ADD || op == token.SUB || op == token.OR || op == token.XOR || op == token.SHL || op == token.SHR || op == token.AND_NOT {
			if oky && cy.Sign() == 0 {
				return x
			}
		}
		if op == token.MUL && oky && cy.Cmp(bigOne) == 0 {
			return x
		}
		if op == token.MUL && okx && cx.Cmp(bigOne) == 0 {
			return y
		}
		if op == token.SUB && oky { // x - c  ->  x + (-c), modular
			return u.Bin(token.ADD, typ, x, u.Big(typ, wrapInt(new(big.Int).Neg(cy), typ)))
		}
		if op == token.MUL && (okx || oky) { // canonical shift for powers of two
			c, v := cy, x
			if okx {
				c, v = cx, y
			}
			if n := log2(c); n > 0 {
				return u.Bin(token.SHL, typ, v, u.Int(types.Typ[types.Uint], int64(n)))
			}
		}
		if op == token.SHL && oky && y.typ != types.Typ[types.Uint] {
			return u.Bin(token.SHL, typ, x, u.Big(types.Typ[types.Uint], cy))
		}
	}
	if commutative[o] && !(op == token.ADD && isString(typ)) {
		if x.op == OConst && y.op != OConst || (x.op != OConst && y.op != OConst && x.id > y.id) {
			x, y = y, x
			cx, okx, cy, oky = cy, oky, cx, okx
		}
	}
	if op == token.ADD && isInt(typ) && oky && x.op == OBin && x.aux == "+" {
		if c1, ok := x.args[1].isIntConst(); ok {
			return u.Bin(token.ADD, typ, x.args[0], u.Big(typ, wrapInt(new(big.Int).Add(c1, cy), typ)))
		}
	}
	if op == token.SUB && x == y && isInt(typ) {
		return u.Zero(typ)
	}
	_ = okx
	return u.mk(Term{op: OBin, typ: typ, aux: o, args: []*Term{x, y}})
}

func log2(c *big.Int) int {
	if c.Sign() <= 0 {
		return -1
	}
	n := c.BitLen() - 1
	if pow2(n).Cmp(c) == 0 {
		return n
	}
	return -1
}

func (u *Universe) Not(x *Term) *Term {
	if b, ok := x.boolConst(); ok {
		return u.Bool(!b)
	}
	if x.op == OUn && x.aux == "!" {
		return x.args[0]
	}
	return u.mk(Term{op: OUn, typ: types.Typ[types.Bool], aux: "!", args: []*Term{x}})
}

// Conv builds typ(x) for numeric/string conversions.
func (u *Universe) Conv(typ types.Type, x *Term) *Term {
	if types.Identical(typ, x.typ) {
		return x
	}
	if isInt(typ) && isInt(x.typ) {
		if c, ok := x.isIntConst(); ok {
			return u.Big(typ, wrapInt(c, typ))
		}
		// A conversion between integer types of the same set of values is transparent; so
		// is a chain of conversions whose inner one loses nothing.
		if x.op == OConv && isInt(x.args[0].typ) {
			in := x.args[0]
			il, ih := typeRange(in.typ)
			ml, mh := typeRange(x.typ)
			if il.Cmp(ml) >= 0 && ih.Cmp(mh) <= 0 {
				return u.Conv(typ, in)
			}
		}
		return u.mk(Term{op: OConv, typ: typ, args: []*Term{x}})
	}
	if isString(typ) && x.op == OConst && isString(x.typ) {
		return u.Const(typ, x.val)
	}
	if isString(typ) && isString(x.typ) {
		return u.mk(Term{op: OConv, typ: typ, args: []*Term{x}})
	}
	if x.op == OConst && x.val == nil {
		return u.Nil(typ)
	}
	// []byte(string(x)) and string([]byte(x)) keep the contents.
	return u.mk(Term{op: OConv, typ: typ, args: []*Term{x}})
}

func (u *Universe) Len(x *Term) *Term {
	it := types.Typ[types.Int]
	switch x.op {
	case OConst:
		if s, ok := x.strConst(); ok {
			return u.Int(it, int64(len(s)))
		}
		if x.val == nil {
			if a, ok := x.typ.Underlying().(*types.Array); ok {
				return u.Int(it, a.Len())
			}
			return u.Int(it, 0)
		}
	case OSlice:
		return u.Conv(it, x.args[2])
	case OConv:
		if isString(x.typ) || isByteSlice(x.typ) {
			in := x.args[0]
			if isString(in.typ) || isByteSlice(in.typ) {
				return u.Len(in)
			}
		}
	case OPure:
		if x.aux == "bytes" { // bytes(content, lo, hi)
			return u.Bin(token.SUB, it, x.args[2], x.args[1])
		}
		if x.aux == "substr" {
			return u.Bin(token.SUB, it, x.args[2], x.args[1])
		}
	}
	if p, ok := x.typ.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return u.Int(it, a.Len())
		}
	}
	if a, ok := x.typ.Underlying().(*types.Array); ok {
		return u.Int(it, a.Len())
	}
	return u.mk(Term{op: OLen, typ: it, args: []*Term{x}})
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// root returns the object an address belongs to.
func (t *Term) root() *Term {
	for t.op == OFieldAddr || t.op == OIndexAddr {
		t = t.args[0]
	}
	return t
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	switch t.op {
	case OConst:
		if t.val == nil {
			return "nil"
		}
		return t.val.ExactString()
	case OSym, OAlloc, OObj:
		s := t.sym.String()
		if t.op == OObj {
			var as []string
			for i := range t.args {
				as = append(as, a(i))
			}
			s = t.aux + "(" + strings.Join(as, ",") + ")@" + s
		}
		return s
	case OGlobal:
		return "&" + t.glob.Name()
	case OFunc:
		return t.fn.Name()
	case OClosure:
		return "closure:" + t.fn.Name()
	case OFieldAddr:
		n := strconv.Itoa(t.idx)
		if s := structOf(t.args[0].typ); s != nil {
			n = s.Field(t.idx).Name()
		}
		return "&" + a(0) + "." + n
	case OIndexAddr:
		if len(t.args) == 1 {
			return "&" + a(0) + "[*]"
		}
		return "&" + a(0) + "[" + a(1) + "]"
	case OField:
		n := strconv.Itoa(t.idx)
		if s := structOf(t.args[0].typ); s != nil {
			n = s.Field(t.idx).Name()
		}
		return a(0) + "." + n
	case OBin:
		return "(" + a(0) + t.aux + a(1) + ")"
	case OUn:
		return t.aux + a(0)
	case OConv:
		return types.TypeString(t.typ, shortQual) + "(" + a(0) + ")"
	case OIface:
		return a(0)
	case OLen:
		return "len(" + a(0) + ")"
	case OCap:
		return "cap(" + a(0) + ")"
	case OAssert:
		return a(0) + ".(" + types.TypeString(t.typ, shortQual) + ")"
	case OIsType:
		return a(0) + " is " + t.aux
	case OInit:
		return "*" + a(0)
	case OSlice:
		return a(0) + "[" + a(1) + ":+" + a(2) + "]"
	}
	var as []string
	for i := range t.args {
		as = append(as, a(i))
	}
	n := t.aux
	switch t.op {
	case OStruct:
		n = types.TypeString(t.typ, shortQual)
	case OTuple:
		n = "tuple"
	}
	if t.idx != 0 && t.op == OPure {
		n += "#" + strconv.Itoa(t.idx)
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

func shortQual(p *types.Package) string { return p.Name() }

func (s *Sym) String() string {
	o := ""
	if s.old {
		o = "'"
	}
	l := ""
	if s.instr != nil && s.instr.Parent() != nil {
		l = "@" + strconv.Itoa(s.instr.Parent().Prog.Fset.Position(s.instr.Pos()).Line)
	}
	ix := ""
	if s.idx != 0 {
		ix = "#" + strconv.Itoa(s.idx)
	}
	return s.kind + ":" + s.name + ix + l + o
}

// under reports whether the symbol was created below the given call context, in one of
// the blocks (nil: anywhere) or at the instruction.
func (s *Sym) under(c *Ctx, blocks map[*ssa.BasicBlock]bool) bool {
	cc, in := s.ctx, s.instr
	for cc != nil {
		if cc == c {
			if blocks == nil {
				return true
			}
			return in != nil && blocks[in.Block()]
		}
		in, cc = cc.site, cc.parent
	}
	return false
}

// underCall reports whether the symbol was created below the call at instr in ctx c.
func (s *Sym) underCall(c *Ctx, call ssa.Instruction) bool {
	cc, in := s.ctx, s.instr
	for cc != nil {
		if cc == c {
			return in == call
		}
		in, cc = cc.site, cc.parent
	}
	return false
}

// subst rewrites a term bottom-up; f maps leaf symbols-bearing terms (OSym, OAlloc, OObj).
func (u *Universe) subst(t *Term, f func(*Sym) *Sym, memo map[*Term]*Term) *Term {
	if len(t.syms) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	for _, s := range t.syms {
		if f(s) != s {
			hit = true
			break
		}
	}
	if !hit {
		memo[t] = t
		return t
	}
	n := *t
	n.syms = nil
	if t.sym != nil {
		n.sym = f(t.sym)
	}
	n.args = make([]*Term, len(t.args))
	for i, a := range t.args {
		n.args[i] = u.subst(a, f, memo)
	}
	r := u.mk(n)
	memo[t] = r
	if r.op == OIsType && u.renamed != nil {
		u.renamed(t, r)
	}
	return r
}
