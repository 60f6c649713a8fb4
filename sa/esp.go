package main

// Property simulation: a path-sensitive abstract interpreter over a finite domain (nil-ness, wrapped
// sentinel errors, known bits, small constants, addresses of local objects), with callees in place.
// States at the same program point are merged only when they are equal, so facts that decide the
// property stay apart; everything numeric is unknown. Loops end because the domain is finite. No path
// is handed to a solver and nothing is executed.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var espDebug = os.Getenv("ESPDEBUG")

type avKind byte

const (
	avNone avKind = iota
	avSym         // unknown value with an identity
	avNil
	avNonNil // non-nil, nothing else known but tags
	avBits   // integer or boolean of which some bits are known
	avStr    // constant string
	avPtr    // address of a cell
	avSlice  // slice of an array object
	avFn     // function or closure
	avTuple
	avAgg // struct value
)

// AV is an abstract value.
type AV struct {
	k    avKind
	sym  string
	tags string // sorted list of sentinels an error wraps for certain, "|"-separated
	not  string // sentinels it does not wrap
	mask uint64
	val  uint64
	str  string
	cell string
	fn   *ssa.Function
	el   []AV
	agg  map[string]AV
	zero bool // avAgg: missing fields are zero
	dyn  types.Type
}

func sym(s string) AV { return AV{k: avSym, sym: s} }

var avTrue = AV{k: avBits, mask: ^uint64(0), val: 1}
var avFalse = AV{k: avBits, mask: ^uint64(0)}

func avBool(b bool) AV {
	if b {
		return avTrue
	}
	return avFalse
}

func avInt(n int64) AV { return AV{k: avBits, mask: ^uint64(0), val: uint64(n)} }

func nonNil(tags ...string) AV {
	sort.Strings(tags)
	return AV{k: avNonNil, tags: strings.Join(tags, "|")}
}

func (v AV) hasTag(t string) bool { return inList(v.tags, t) }
func (v AV) hasNot(t string) bool { return inList(v.not, t) }

func inList(l, t string) bool {
	for _, x := range strings.Split(l, "|") {
		if x == t {
			return true
		}
	}
	return false
}

func unionList(l ...string) string {
	m := map[string]bool{}
	for _, s := range l {
		for _, x := range strings.Split(s, "|") {
			if x != "" {
				m[x] = true
			}
		}
	}
	var out []string
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

func (v AV) key() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

func (v AV) write(b *strings.Builder) {
	switch v.k {
	case avSym:
		b.WriteString("s:" + v.sym)
	case avNil:
		b.WriteString("nil")
	case avNonNil:
		b.WriteString("nn:" + v.tags + "!" + v.not)
	case avBits:
		fmt.Fprintf(b, "%x/%x", v.val, v.mask)
	case avStr:
		fmt.Fprintf(b, "%q", v.str)
	case avPtr:
		b.WriteString("&" + v.cell)
	case avSlice:
		fmt.Fprintf(b, "[%d/%d]%s", v.val, v.mask, v.cell)
	case avFn:
		fmt.Fprintf(b, "fn %p", v.fn)
		for _, e := range v.el {
			b.WriteString(",")
			e.write(b)
		}
	case avTuple:
		b.WriteString("(")
		for _, e := range v.el {
			e.write(b)
			b.WriteString(";")
		}
		b.WriteString(")")
	case avAgg:
		var ks []string
		for k := range v.agg {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "{%v", v.zero)
		for _, k := range ks {
			b.WriteString(k + "=")
			v.agg[k].write(b)
			b.WriteString(";")
		}
		b.WriteString("}")
	}
	if v.dyn != nil {
		b.WriteString("~" + types.TypeString(v.dyn, relName))
	}
}

func (v AV) isTrue() bool  { return v.k == avBits && v.mask&1 == 1 && v.val&1 == 1 }
func (v AV) isFalse() bool { return v.k == avBits && v.mask == ^uint64(0) && v.val == 0 }

// EState is an abstract state.
type EState struct {
	env   map[ssa.Value]AV  // current frame
	mem   map[string]AV     // cell -> value
	roots map[string]string // object -> "" when its unset cells are zero, else the version of its unknown content
	facts map[string]AV     // symbol -> nil, non-nil, or bits
	ghost map[string]string
	stack []map[ssa.Value]AV // environments of the callers
	trace *espTrace
}

type espTrace struct {
	at   string
	prev *espTrace
}

func (s *EState) clone() *EState {
	n := &EState{env: make(map[ssa.Value]AV, len(s.env)), mem: make(map[string]AV, len(s.mem)), roots: make(map[string]string, len(s.roots)), facts: make(map[string]AV, len(s.facts)), ghost: make(map[string]string, len(s.ghost)), trace: s.trace}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.roots {
		n.roots[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.stack = append([]map[ssa.Value]AV(nil), s.stack...)
	return n
}

func (s *EState) step(at string) { s.trace = &espTrace{at, s.trace} }

// EOutcome is one way a call can end.
type EOutcome struct {
	st  *EState
	res AV
}

// Esp is one simulation problem.
type Esp struct {
	p       *Program
	fail    func(st *EState, in ssa.Instruction, rule, construct, msg string)
	call    func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool)
	load    func(x *Esp, fr *EFrame, st *EState, in *ssa.UnOp, cell string) (AV, bool)
	look    func(x *Esp, fr *EFrame, st *EState, in *ssa.Lookup, m AV) []EOutcome
	instr   func(x *Esp, fr *EFrame, st *EState, in ssa.Instruction)
	field   func(st *EState, owner types.Type, f *types.Var) (AV, bool) // the content of every field of that name
	after   func(fr *EFrame, st *EState, in ssa.Instruction)            // a value was computed or stored
	bin     func(x *Esp, fr *EFrame, st *EState, in *ssa.BinOp, a, b AV) (AV, bool)
	deep    bool                                                                                       // follow numbers, map entries, elements of literals and repeated calls of pure methods
	fold    bool                                                                                       // also divide, multiply and subtract constants anywhere
	terms   *Terms                                                                                     // expressions over named inputs
	peel    int                                                                                        // so many iterations of a loop are followed one by one
	phi     func(fr *EFrame, st *EState, ph *ssa.Phi, from *ssa.BasicBlock, v AV) (r AV, ok, end bool) // a number when a loop begins (again)
	over    func(fr *EFrame, st *EState, in ssa.Instruction) []*EState                                 // executes an instruction in place of exec
	rels    func(st *EState, a, b AV) bool
	learned func(st *EState, a, b AV, r int)                    // the order of two values
	eq      func(st *EState, a, b AV)                           // an equality was established
	effect  func(fr *EFrame, st *EState, kind string)           // something was stored or written
	loop    func(fr *EFrame, st *EState, l *espLoop, ev string) // "iter", "exit", "break"
	walked  func(st *EState, args []AV)                         // the callback of a walk returned nil
	entry   func(s *EState) []walkCall                          // how the callback of a walk is called
	mergeAt int                                                 // number of states at one point from which they are joined (0: never)
	opaque  func(fn *ssa.Function) bool                         // module functions that are not interpreted in place
	steps   int
	joins   int
	limit   int
	funcs   map[*ssa.Function]bool
	calls   map[string]int
}

// ECall describes a call of a function that is not interpreted in place.
type ECall struct {
	in     ssa.CallInstruction
	name   string // "pkg.Func", "(*pkg.T).M", or "invoke I.M"
	method string
	recv   AV
	args   []AV
	sig    *types.Signature
}

// EFrame is a function activation.
type EFrame struct {
	fn     *ssa.Function
	pre    string
	up     *EFrame
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	keep   map[string]bool // symbols and objects callers still need
	defers []*edefer
	cur    *ssa.BasicBlock
	call   ssa.CallInstruction // the call that made this frame
}

type edefer struct {
	in   ssa.CallInstruction
	args []AV
	fnv  AV
}

func newEsp(p *Program) *Esp {
	return &Esp{p: p, limit: 4000000, funcs: map[*ssa.Function]bool{}, calls: map[string]int{}}
}

func (x *Esp) eval(fr *EFrame, st *EState, v ssa.Value) AV {
	switch v := v.(type) {
	case *ssa.Const:
		return constAV(v)
	case *ssa.Function:
		return AV{k: avFn, fn: v}
	case *ssa.Global:
		return AV{k: avPtr, cell: "g:" + v.String()}
	}
	if a, ok := st.env[v]; ok {
		return x.norm(st, a)
	}
	return sym(fr.pre + v.Name())
}

// norm replaces a symbol by what is known about it.
func (x *Esp) norm(st *EState, a AV) AV {
	if a.k == avSym && !strings.HasPrefix(a.sym, "olds:") {
		if f, ok := st.facts[a.sym]; ok {
			if f.k == avNonNil {
				f.sym = a.sym
			}
			if f.k == avBits {
				f.sym = a.sym
			}
			f.dyn = a.dyn
			return f
		}
	}
	return a
}

func constAV(c *ssa.Const) AV {
	if c.Value == nil {
		return zeroAV(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return avBool(constant.BoolVal(c.Value))
	case constant.String:
		return AV{k: avStr, str: constant.StringVal(c.Value)}
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return avInt(n)
		}
		if n, ok := constant.Uint64Val(c.Value); ok {
			return AV{k: avBits, mask: ^uint64(0), val: n}
		}
	}
	return sym("const " + c.Value.ExactString())
}

func zeroAV(t types.Type) AV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return AV{k: avStr}
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return avFalse
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return AV{k: avNil}
		}
		return sym("zero")
	case *types.Struct, *types.Array:
		return AV{k: avAgg, zero: true}
	}
	return AV{k: avNil}
}

// rootOf splits a cell into its object and the path inside.
func rootOf(cell string) string {
	if i := strings.IndexAny(cell, "\x01"); i >= 0 {
		return cell[:i]
	}
	return cell
}

// cellSym names the unknown content of a cell.
func cellSym(cell, ver string) string {
	n := strings.ReplaceAll(strings.TrimPrefix(cell, "s:"), "\x01", "->")
	if ver != "" {
		n += "@" + ver
	}
	if n == strings.TrimPrefix(cell, "s:") {
		n += "->*"
	}
	if strings.Count(n, "->") > 5 {
		return "olds:deep" // far down an unknown chain: stands for several objects
	}
	return n
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}

func sub(cell, f string) string { return cell + "\x01" + f }

// loadCell reads a cell of the given type.
func (x *Esp) loadCell(st *EState, cell string, t types.Type) AV {
	if strings.HasPrefix(cell, "g:") {
		name := cell[2:]
		if isErrorType(t) {
			return AV{k: avNonNil, tags: name, sym: name}
		}
		if v, ok := st.mem[cell]; ok {
			return v
		}
		if x.fold {
			if n, ok := x.p.globalInt(name); ok && isNumber(t) {
				return truncAV(avUint(n), t)
			}
		}
		return sym(cell)
	}
	switch u := structType(t).(type) {
	case *types.Struct:
		agg := AV{k: avAgg, agg: map[string]AV{}}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			if x.field != nil {
				if v, ok := x.field(st, t, f); ok {
					agg.agg[f.Name()] = v
					continue
				}
			}
			agg.agg[f.Name()] = x.loadCell(st, sub(cell, f.Name()), f.Type())
		}
		return agg
	case *types.Array:
		agg := AV{k: avAgg, agg: map[string]AV{}}
		pre := cell + "\x01["
		for k, v := range st.mem {
			if strings.HasPrefix(k, pre) && !strings.Contains(k[len(pre):], "\x01") {
				agg.agg[k[len(cell)+1:]] = v
			}
		}
		return agg
	}
	if v, ok := st.mem[cell]; ok {
		return x.norm(st, v)
	}
	root := rootOf(cell)
	ver, ok := st.roots[root]
	if ok && ver == "" {
		return zeroAV(t)
	}
	v := sym(cellSym(cell, ver))
	if strings.HasPrefix(cellBase(cell), "olds:") {
		if !strings.HasPrefix(v.sym, "olds:") {
			v.sym = "olds:" + v.sym
		}
		return v // stands for several objects
	}
	st.mem[cell] = v
	return x.norm(st, v)
}

func (x *Esp) storeCell(st *EState, cell string, v AV, t types.Type) {
	if v.k != avAgg {
		switch u := structType(t).(type) {
		case *types.Struct:
			agg := AV{k: avAgg, agg: map[string]AV{}}
			for i := 0; i < u.NumFields(); i++ {
				agg.agg[u.Field(i).Name()] = x.partOf(v, u.Field(i).Name())
			}
			v = agg
		case *types.Array:
			x.dropCells(st, cell)
			st.roots[rootOf(cell)] = "array"
			return
		}
	}
	if v.k == avAgg {
		x.dropCells(st, cell)
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				e, ok := v.agg[f.Name()]
				if !ok {
					if v.zero {
						e = zeroAV(f.Type())
					} else {
						e = sym(cell + "." + f.Name() + "?")
					}
				}
				x.storeCell(st, sub(cell, f.Name()), e, f.Type())
			}
			return
		}
		for k, e := range v.agg {
			st.mem[sub(cell, k)] = e
		}
		return
	}
	if !strings.HasPrefix(cellBase(cell), "olds:") {
		st.mem[cell] = v
	}
	// the same field of an object that may be the same one
	root := rootOf(cell)
	if _, local := st.roots[root]; !local || strings.HasPrefix(root, "s:") {
		suffix := cell[len(root):]
		for k := range st.mem {
			r := rootOf(k)
			if r != root && k[len(r):] == suffix && (strings.HasPrefix(r, "s:")) {
				delete(st.mem, k)
			}
		}
	}
}

// structType is the underlying type of t, or nil for a struct whose fields nobody outside its package can see.
func structType(t types.Type) types.Type {
	u := t.Underlying()
	if st, ok := u.(*types.Struct); ok && !inModuleType(t) {
		if _, named := types.Unalias(t).(*types.Named); named {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() {
					return u
				}
			}
			return nil
		}
	}
	return u
}

// partOf names a field of an unknown struct value.
func (x *Esp) partOf(v AV, f string) AV {
	if v.sym == "" {
		return sym("olds:part." + f)
	}
	return sym(v.sym + "." + f)
}

func (x *Esp) dropCells(st *EState, cell string) {
	for k := range st.mem {
		if k == cell || strings.HasPrefix(k, cell+"\x01") {
			delete(st.mem, k)
		}
	}
}

// havoc forgets the content of an object (unknown code received its address).
func (x *Esp) havoc(st *EState, cell, ver string) {
	if strings.HasPrefix(cell, "g:") {
		return
	}
	root := rootOf(cell)
	for k := range st.mem {
		if rootOf(k) == root {
			delete(st.mem, k)
		}
	}
	if st.roots[root] == ver {
		ver += "'"
	}
	st.roots[root] = ver
	x.forgetSym(st, "@"+ver)
}

// forgetSym drops the facts about symbols of an earlier execution of the same instruction.
func (x *Esp) forgetSym(st *EState, part string) {
	for k := range st.facts {
		if strings.HasSuffix(k, part) {
			delete(st.facts, k)
		}
	}
}

func (x *Esp) fresh(fr *EFrame, st *EState, v ssa.Value) AV {
	id := fr.pre + v.Name()
	x.freshName(st, id)
	return sym(id)
}

// freshName prepares a symbol for a new value: what still refers to the earlier value of that name is
// renamed to "old:" (the one before) or "olds:" (any earlier one; never equal to anything).
func (x *Esp) freshName(st *EState, id string) {
	for k := range st.facts {
		if nameMentions(k, id) {
			delete(st.facts, k)
		}
	}
	for k := range st.mem {
		if nameMentions(k, id) {
			delete(st.mem, k)
		}
	}
	x.renameSym(st, id)
}

func symBase(k, id string) bool {
	return k == id || strings.HasPrefix(k, id) && strings.IndexByte("#.@-\x01", k[len(id)]) >= 0
}

// nameMentions reports whether a name quotes a symbol in parentheses or braces.
func nameMentions(k, id string) bool {
	for i := 0; ; {
		j := strings.Index(k[i:], id)
		if j < 0 {
			return false
		}
		j += i
		if j > 0 && (k[j-1] == '(' || k[j-1] == '{') && j+len(id) < len(k) && strings.IndexByte("#.@-\x01)}", k[j+len(id)]) >= 0 {
			return true
		}
		i = j + 1
	}
}

func (x *Esp) renameSym(st *EState, id string) {
	has := false
	hasOld := false
	look := func(k string) {
		if symBase(k, id) {
			has = true
		} else if strings.HasPrefix(k, "old:") && symBase(k[4:], id) {
			hasOld = true
		}
	}
	var lookAV func(a AV)
	lookAV = func(a AV) {
		if a.sym != "" {
			look(a.sym)
		}
		if a.cell != "" {
			look(cellBase(a.cell))
		}
		for _, e := range a.el {
			lookAV(e)
		}
		for _, e := range a.agg {
			lookAV(e)
		}
	}
	for _, a := range st.env {
		lookAV(a)
	}
	for _, e := range st.stack {
		for _, a := range e {
			lookAV(a)
		}
	}
	for c, a := range st.mem {
		lookAV(a)
		look(cellBase(c))
	}
	if !has {
		for k := range st.facts {
			if symBase(k, id) {
				delete(st.facts, k)
			}
		}
		x.dropGhosts(st, id)
		return
	}
	prefix := "old:"
	if hasOld {
		prefix = "olds:"
	}
	ren := func(k string) string {
		if symBase(k, id) {
			return prefix + k
		}
		if hasOld && strings.HasPrefix(k, "old:") && symBase(k[4:], id) {
			return "olds:" + k[4:]
		}
		return k
	}
	renCell := func(c string) string {
		r := rootOf(c)
		if strings.HasPrefix(r, "s:") {
			return "s:" + ren(r[2:]) + c[len(r):]
		}
		return ren(r) + c[len(r):]
	}
	var renAV func(a AV) AV
	renAV = func(a AV) AV {
		if a.sym != "" {
			a.sym = ren(a.sym)
		}
		if a.cell != "" {
			a.cell = renCell(a.cell)
		}
		if len(a.el) > 0 {
			el := make([]AV, len(a.el))
			for i, e := range a.el {
				el[i] = renAV(e)
			}
			a.el = el
		}
		if len(a.agg) > 0 {
			m := make(map[string]AV, len(a.agg))
			for k, e := range a.agg {
				m[k] = renAV(e)
			}
			a.agg = m
		}
		return a
	}
	for k, a := range st.env {
		st.env[k] = renAV(a)
	}
	for i, e := range st.stack {
		n := make(map[ssa.Value]AV, len(e))
		for k, a := range e {
			n[k] = renAV(a)
		}
		st.stack[i] = n
	}
	mem := make(map[string]AV, len(st.mem))
	for c, a := range st.mem {
		c = renCell(c)
		if strings.HasPrefix(cellBase(c), "olds:") {
			continue
		}
		mem[c] = renAV(a)
	}
	st.mem = mem
	rts := make(map[string]string, len(st.roots))
	for r, v := range st.roots {
		nr := renCell(r)
		if strings.HasPrefix(cellBase(nr), "olds:") {
			v = "olds"
		}
		rts[nr] = v
	}
	st.roots = rts
	facts := make(map[string]AV, len(st.facts))
	for k, a := range st.facts {
		k = ren(k)
		if strings.HasPrefix(k, "olds:") {
			continue
		}
		facts[k] = renAV(a)
	}
	st.facts = facts
	x.dropGhosts(st, id)
}

func cellBase(c string) string { return strings.TrimPrefix(rootOf(c), "s:") }

func (x *Esp) dropGhosts(st *EState, id string) {
	for k := range st.ghost {
		if strings.HasSuffix(k, "("+id+")") {
			delete(st.ghost, k)
		}
	}
}

// cellOf turns a pointer value into the cell it addresses.
func (x *Esp) cellOf(a AV) (string, bool) {
	switch a.k {
	case avPtr:
		return a.cell, true
	case avSym:
		return "s:" + a.sym, true
	case avNonNil:
		if a.sym != "" {
			return "s:" + a.sym, true
		}
	}
	return "", false
}

// Run simulates a function and returns the outcomes.
func (x *Esp) Run(fr *EFrame, st *EState) []EOutcome {
	fn := fr.fn
	x.funcs[fn] = true
	fr.live = espLiveIn(fn)
	type item struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		st   *EState
		df   []*edefer
	}
	seen := map[string]bool{}
	var outs []EOutcome
	outSeen := map[string]bool{}
	groups := map[string]int{}
	accs := map[string]*EState{}
	joined := map[string]bool{}
	loops := espLoops(fn)
	edge := func(b, s *ssa.BasicBlock, st *EState) {
		if x.loop == nil {
			return
		}
		for _, l := range loops {
			switch {
			case l.body[b] && (s == nil || !l.body[s]):
				if b == l.head {
					x.loop(fr, st, l, "exit")
				} else {
					x.loop(fr, st, l, "break")
				}
			case b == l.head && l.body[s]:
				x.loop(fr, st, l, "iter")
			}
		}
	}
	todo := []item{{fn.Blocks[0], nil, st, nil}}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		x.steps++
		if patience(x.steps); x.steps > x.limit {
			panic(undecided(fmt.Sprintf("simulation limit reached in %s", fn)))
		}
		st := it.st
		// phis
		var phis []*ssa.Phi
		var vals []AV
		for _, in := range it.b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			for k, pr := range it.b.Preds {
				if pr == it.from {
					v := x.eval(fr, st, ph.Edges[k])
					vals = append(vals, v)
					break
				}
			}
		}
		loop := false
		for _, pr := range it.b.Preds {
			if it.b.Dominates(pr) {
				loop = true
			}
		}
		turned, peeled := false, false
		if x.peel > 0 && loop && it.from != nil && !it.b.Dominates(it.from) {
			delete(st.ghost, fmt.Sprintf("+turn:%s%s.%d", fr.pre, fn.Name(), it.b.Index))
		}
		ended := false
		for k, ph := range phis {
			if x.phi != nil && loop && it.from != nil {
				v, ok, end := x.phi(fr, st, ph, it.from, vals[k])
				ended = ended || end
				if ok {
					st.env[ph] = v
					continue
				}
			}
			if old, ok := st.env[ph]; ok && x.terms != nil && it.from != nil && it.b.Dominates(it.from) && isNumber(ph.Type()) && old.key() != vals[k].key() && (isTerm(vals[k]) || vals[k].k == avBits) {
				if !turned && x.peel > 0 {
					turned = true
					g := fmt.Sprintf("+turn:%s%s.%d", fr.pre, fn.Name(), it.b.Index)
					n := len(st.ghost[g])
					if peeled = n < x.peel; peeled {
						st.ghost[g] = strings.Repeat("i", n+1)
					}
				}
				if peeled {
					st.env[ph] = vals[k]
					continue
				}
				vals[k] = x.fresh(fr, st, ph) // it changes with the iterations
			}
			st.env[ph] = vals[k]
		}
		if ended {
			continue
		}
		x.collect(fr, st, it.b, it.df)
		key := fmt.Sprintf("%d|%s", it.b.Index, x.stateKey(st, it.df))
		if seen[key] {
			continue
		}
		seen[key] = true
		if x.mergeAt > 0 {
			g := fmt.Sprintf("%d|%s|%s", it.b.Index, ghostKey(st), dfKey(it.df))
			groups[g]++
			if groups[g] > x.mergeAt {
				if acc := accs[g]; acc != nil {
					st = x.joinStates(acc, st)
					key := fmt.Sprintf("%d|%s", it.b.Index, x.stateKey(st, it.df))
					if joined[key] {
						accs[g] = st
						continue
					}
					joined[key] = true
				}
				accs[g] = st.clone()
				x.joins++
			}
		}
		if espDebug != "" && fn.Name() == espDebug {
			fmt.Fprintln(os.Stderr, "ESPSTATE "+strings.ReplaceAll(key, "\n", "\x02"))
		}
		cur := []item{{it.b, it.from, st, it.df}}
		fr.cur = it.b
		for _, in := range it.b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var next []item
			for _, c := range cur {
				switch i := in.(type) {
				case *ssa.If:
					cond := x.eval(fr, c.st, i.Cond)
					if x.terms != nil && !cond.isTrue() && !cond.isFalse() {
						if e, ok := x.tm(cond, i.Cond.Type()); !ok || e.op != "cmp" {
							c.st.ghost[fuzzyGhost] = "1"
						}
					}
					if !cond.isFalse() {
						s := c.st
						if !cond.isTrue() {
							s = c.st.clone()
							if !x.assume(fr, s, i.Cond, true) {
								s = nil
							}
						}
						if s != nil {
							if s == c.st && !cond.isTrue() {
								s = s.clone()
							}
							edge(it.b, it.b.Succs[0], s)
							todo = append(todo, item{it.b.Succs[0], it.b, s, c.df})
						}
					}
					if !cond.isTrue() {
						s := c.st.clone()
						if cond.isFalse() || x.assume(fr, s, i.Cond, false) {
							edge(it.b, it.b.Succs[1], s)
							todo = append(todo, item{it.b.Succs[1], it.b, s, c.df})
						}
					}
				case *ssa.Jump:
					edge(it.b, it.b.Succs[0], c.st)
					todo = append(todo, item{it.b.Succs[0], it.b, c.st, c.df})
				case *ssa.Return:
					edge(it.b, nil, c.st)
					if x.peel > 0 {
						for g := range c.st.ghost {
							if strings.HasPrefix(g, "+turn:"+fr.pre+fn.Name()+".") {
								delete(c.st.ghost, g)
							}
						}
					}
					res := AV{k: avTuple}
					for _, r := range i.Results {
						res.el = append(res.el, x.eval(fr, c.st, r))
					}
					o := EOutcome{c.st, res}
					x.collectOut(fr, &o)
					k := res.key() + "|" + x.stateKey(o.st, nil)
					if !outSeen[k] {
						outSeen[k] = true
						outs = append(outs, o)
					}
				case *ssa.Panic:
					// reported by R01
				case *ssa.RunDefers:
					sts := []*EState{c.st}
					for k := len(c.df) - 1; k >= 0; k-- {
						d := c.df[k]
						var ns []*EState
						for _, s := range sts {
							for _, o := range x.doCall(fr, s, d.in, d.fnv, d.args) {
								ns = append(ns, o.st)
							}
						}
						sts = ns
					}
					for _, s := range sts {
						next = append(next, item{it.b, it.from, s, nil})
					}
				case *ssa.Defer:
					d := &edefer{in: i}
					for _, a := range i.Call.Args {
						d.args = append(d.args, x.eval(fr, c.st, a))
					}
					d.fnv = x.eval(fr, c.st, i.Call.Value)
					df := append(append([]*edefer(nil), c.df...), d)
					if len(df) > 8 {
						df = df[1:]
					}
					next = append(next, item{it.b, it.from, c.st, df})
				default:
					if x.instr != nil {
						x.instr(x, fr, c.st, in)
					}
					for _, s := range x.exec(fr, c.st, in, c.df) {
						if x.after != nil {
							x.after(fr, s, in)
						}
						next = append(next, item{it.b, it.from, s, c.df})
					}
				}
			}
			cur = next
			if x.mergeAt > 0 && len(cur) > x.mergeAt/4 {
				var order []string
				m := map[string]*item{}
				for _, c := range cur {
					k := ghostKey(c.st) + "|" + dfKey(c.df)
					if v, ok := in.(ssa.Value); ok {
						k += "|" + x.resClass(c.st, x.eval(fr, c.st, v))
					}
					if g, ok := m[k]; ok {
						g.st = x.joinStates(g.st, c.st)
					} else {
						c := c
						m[k] = &c
						order = append(order, k)
					}
				}
				cur = nil
				for _, k := range order {
					cur = append(cur, *m[k])
				}
			}
			if len(cur) == 0 {
				break
			}
		}
	}
	return x.joinOutcomes(outs)
}

func (x *Esp) stateKey(st *EState, df []*edefer) string {
	var ks []string
	for v, a := range st.env {
		ks = append(ks, v.Name()+"="+a.key())
	}
	for c, a := range st.mem {
		ks = append(ks, "m"+c+"="+a.key())
	}
	for r, v := range st.roots {
		ks = append(ks, "r"+r+"="+v)
	}
	for c, a := range st.facts {
		ks = append(ks, "f"+c+"="+a.key())
	}
	for c, a := range st.ghost {
		ks = append(ks, "g"+c+"="+a)
	}
	sort.Strings(ks)
	for _, d := range df {
		ks = append(ks, fmt.Sprintf("d%p", d.in))
		for _, a := range d.args {
			ks = append(ks, a.key())
		}
	}
	return strings.Join(ks, "\n")
}

func symsOf(a AV, f func(string), cell func(string)) {
	switch a.k {
	case avSym, avNonNil, avBits:
		if a.sym != "" {
			f(a.sym)
		}
	case avPtr, avSlice:
		cell(a.cell)
	}
	for _, e := range a.el {
		symsOf(e, f, cell)
	}
	for _, e := range a.agg {
		symsOf(e, f, cell)
	}
}

// collect drops what can no longer be observed.
func (x *Esp) collect(fr *EFrame, st *EState, b *ssa.BasicBlock, df []*edefer) {
	live := fr.live[b]
	for v := range st.env {
		if !live[v] {
			if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == b {
				continue
			}
			delete(st.env, v)
		}
	}
	var roots []AV
	for _, a := range st.env {
		roots = append(roots, a)
	}
	for v := range live {
		if _, ok := st.env[v]; !ok {
			roots = append(roots, sym(fr.pre+v.Name()))
		}
	}
	for _, d := range df {
		roots = append(roots, d.args...)
		roots = append(roots, d.fnv)
	}
	x.gc(fr, st, roots)
}

func (x *Esp) collectOut(fr *EFrame, o *EOutcome) {
	o.st = o.st.clone()
	o.st.env = map[ssa.Value]AV{}
	x.gc(fr, o.st, []AV{o.res})
}

func (x *Esp) gc(fr *EFrame, st *EState, roots []AV) {
	keepS := map[string]bool{}
	keepR := map[string]bool{}
	var markS func(string)
	var markC func(string)
	byRoot := map[string][]string{}
	for k := range st.mem {
		r := rootOf(k)
		byRoot[r] = append(byRoot[r], k)
	}
	markS = func(s string) {
		if keepS[s] {
			return
		}
		keepS[s] = true
		markC("s:" + s)
	}
	markC = func(c string) {
		r := rootOf(c)
		if keepR[r] {
			return
		}
		keepR[r] = true
		for _, k := range byRoot[r] {
			symsOf(st.mem[k], markS, markC)
		}
	}
	for _, a := range roots {
		symsOf(a, markS, markC)
	}
	for s := range fr.keep {
		if strings.HasPrefix(s, "c:") {
			markC(s[2:])
		} else {
			markS(s)
		}
	}
	for _, e := range st.stack {
		for _, a := range e {
			symsOf(a, markS, markC)
		}
	}
	for k := range st.mem {
		if r := rootOf(k); !keepR[r] && !strings.HasPrefix(r, "g:") {
			delete(st.mem, k)
		}
	}
	for r := range st.roots {
		if !keepR[r] {
			delete(st.roots, r)
		}
	}
	kept := func(s string) bool {
		if keepS[s] {
			return true
		}
		for i := range s {
			if strings.IndexByte("#.@-\x01", s[i]) >= 0 && keepS[s[:i]] {
				return true
			}
		}
		return false
	}
	for s := range st.facts {
		if i := strings.Index(s, ".rel("); i >= 0 {
			o := s[i+5 : len(s)-1]
			if !kept(s[:i]) || o != "" && o[0] != '=' && !kept(o) {
				delete(st.facts, s)
			}
			continue
		}
		if !kept(s) {
			delete(st.facts, s)
		}
	}
	for g := range st.ghost {
		// ghosts of the form name(symbol) belong to the symbol
		if i := strings.IndexByte(g, '('); i > 0 && strings.HasSuffix(g, ")") && !strings.HasPrefix(g, "+") {
			if !keepS[g[i+1:len(g)-1]] {
				delete(st.ghost, g)
			}
		}
	}
}

type espLoop struct {
	fn   *ssa.Function
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func (l *espLoop) name() string { return fmt.Sprintf("%s#%d", shortFn(l.fn), l.head.Index) }

var espLoopCache = map[*ssa.Function][]*espLoop{}

// espLoops finds the natural loops of a function.
func espLoops(fn *ssa.Function) []*espLoop {
	if l, ok := espLoopCache[fn]; ok {
		return l
	}
	byHead := map[*ssa.BasicBlock]*espLoop{}
	var out []*espLoop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &espLoop{fn, s, map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				if !l.body[n] {
					l.body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	espLoopCache[fn] = out
	return out
}

// espLiveIn computes the values live at the start of each block.
func espLiveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b {
							live[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if v, ok := i.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op != nil {
						switch (*op).(type) {
						case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
						default:
							live[*op] = true
						}
					}
				}
			}
			// phis of b are defined at its start, but stay live through it
			for _, i := range b.Instrs {
				if ph, ok := i.(*ssa.Phi); ok {
					_ = ph
				}
			}
			if len(live) != len(in[b]) {
				in[b] = live
				ch = true
			}
		}
	}
	return in
}

// assume records that a condition holds; it returns false when that is impossible.
func (x *Esp) assume(fr *EFrame, st *EState, cond ssa.Value, want bool) bool {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return x.assume(fr, st, c.X, !want)
		}
	case *ssa.BinOp:
		if c.Op == token.EQL || c.Op == token.NEQ {
			eq := (c.Op == token.EQL) == want
			a, b := x.eval(fr, st, c.X), x.eval(fr, st, c.Y)
			if a.k != avSym && b.k == avSym {
				a, b = b, a
			}
			if a.k == avSym {
				switch {
				case b.k == avNil:
					if eq {
						st.facts[a.sym] = AV{k: avNil}
					} else {
						st.facts[a.sym] = AV{k: avNonNil}
					}
				case eq && (b.k == avStr || b.k == avBits || b.k == avNonNil && b.tags != ""):
					if b.k == avStr && x.eq != nil {
						x.eq(st, a, b)
					}
					st.facts[a.sym] = b
				case !eq && b.k == avBits && b.mask == ^uint64(0) && isBoolType(c.X.Type()):
					st.facts[a.sym] = avBool(b.val == 0)
				}
			} else if eq && a.k == avBits && b.k == avBits && b.mask == ^uint64(0) && a.sym != "" {
				st.facts[a.sym] = b
			}
		}
	}
	if c, ok := cond.(*ssa.BinOp); ok {
		r := 0
		switch c.Op {
		case token.LSS:
			r = 1
		case token.LEQ:
			r = 3
		case token.GTR:
			r = 4
		case token.GEQ:
			r = 6
		case token.EQL:
			r = 2
		case token.NEQ:
			r = 5
		}
		if r != 0 {
			if !want {
				r = 7 &^ r
			}
			a, b := x.rawSym(fr, st, c.X), x.rawSym(fr, st, c.Y)
			if n, ok := ntypeOf(c.X.Type()); ok && (isTerm(a) || isTerm(b)) {
				ta, ok := x.tm(a, c.X.Type())
				tb, ok2 := x.tm(b, c.Y.Type())
				if ok && ok2 && !x.terms.learn(st, ta, tb, r, n.signed) {
					return false
				}
			}
			if !x.learnRel(st, a, b, r) {
				return false
			}
		}
	}
	if v := x.rawEval(fr, st, cond); v.k == avSym {
		if isTerm(v) && x.terms != nil && !x.terms.holdsOrNot(st, x.terms.tab[v.sym[3:]], want) {
			return false
		}
		st.facts[v.sym] = avBool(want)
	}
	st.env[cond] = avBool(want)
	return true
}

// rawSym evaluates a value without replacing symbols by what is known about them.
func (x *Esp) rawSym(fr *EFrame, st *EState, v ssa.Value) AV {
	if a, ok := st.env[v]; ok {
		return a
	}
	return x.eval(fr, st, v)
}

// relKeys names the ordering facts about two values: those of a and those of b.
func relKeys(a, b AV) (string, string) {
	name := func(v AV) string {
		if v.k == avBits && v.mask == ^uint64(0) && v.sym == "" {
			return fmt.Sprintf("=%d", int64(v.val))
		}
		if (v.k == avSym || v.k == avBits) && !strings.HasPrefix(v.sym, "olds:") {
			return v.sym
		}
		return ""
	}
	na, nb := name(a), name(b)
	if na == "" || nb == "" || na == nb {
		return "", ""
	}
	var ka, kb string
	if na[0] != '=' {
		ka = na + ".rel(" + nb + ")"
	}
	if nb[0] != '=' {
		kb = nb + ".rel(" + na + ")"
	}
	return ka, kb
}

func flipRel(r int) int { return r&2 | r&1<<2 | r&4>>2 }

func (x *Esp) rel(st *EState, a, b AV) int {
	r := 7
	ka, kb := relKeys(a, b)
	if f, ok := st.facts[ka]; ok && ka != "" {
		r &= int(f.val)
	}
	if f, ok := st.facts[kb]; ok && kb != "" {
		r &= flipRel(int(f.val))
	}
	return r
}

// wantRel limits the ordering facts to those that some rule looks at.
func (x *Esp) wantRel(st *EState, a, b AV) bool {
	if x.deep && strings.HasSuffix(a.sym, ".len()") && b.k == avBits && b.sym == "" {
		return true
	}
	return x.rels != nil && x.rels(st, a, b)
}

func (x *Esp) learnRel(st *EState, a, b AV, r int) bool {
	ka, kb := relKeys(a, b)
	if ka == "" && kb == "" {
		return true
	}
	r &= x.rel(st, a, b)
	if r == 0 {
		return false
	}
	if x.learned != nil {
		x.learned(st, a, b, r)
	}
	if !x.wantRel(st, a, b) && !x.wantRel(st, b, a) {
		if r == 2 && x.eq != nil {
			x.eq(st, a, b)
		}
		return true
	}
	if ka != "" {
		st.facts[ka] = avInt(int64(r))
	}
	if kb != "" {
		st.facts[kb] = avInt(int64(flipRel(r)))
	}
	if r == 2 && x.eq != nil {
		x.eq(st, a, b)
	}
	return true
}

func (x *Esp) rawEval(fr *EFrame, st *EState, v ssa.Value) AV {
	if a, ok := st.env[v]; ok {
		return a
	}
	return AV{}
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *Esp) exec(fr *EFrame, st *EState, in ssa.Instruction, df []*edefer) []*EState {
	one := []*EState{st}
	set := func(v ssa.Value, a AV) []*EState {
		st.env[v] = a
		return one
	}
	if x.over != nil {
		if l := x.over(fr, st, in); l != nil {
			return l
		}
	}
	switch i := in.(type) {
	case *ssa.Alloc:
		root := "a:" + fr.pre + i.Name()
		x.freshName(st, root)
		x.dropCells(st, root)
		st.roots[root] = ""
		return set(i, AV{k: avPtr, cell: root})
	case *ssa.FieldAddr:
		p := x.eval(fr, st, i.X)
		if c, ok := x.cellOf(p); ok {
			return set(i, AV{k: avPtr, cell: sub(c, fieldName(i.X.Type(), i.Field))})
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.Field:
		if x.field != nil {
			if v, ok := x.field(st, i.X.Type(), fieldVar(i.X.Type(), i.Field)); ok {
				return set(i, v)
			}
		}
		a := x.eval(fr, st, i.X)
		if a.k == avAgg {
			f := fieldName(i.X.Type(), i.Field)
			if e, ok := a.agg[f]; ok {
				return set(i, x.norm(st, e))
			}
			if a.zero {
				return set(i, zeroAV(i.Type()))
			}
		}
		if (a.k == avSym || a.k == avNonNil) && a.sym != "" {
			return set(i, x.norm(st, x.partOf(a, fieldName(i.X.Type(), i.Field))))
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.IndexAddr:
		p := x.eval(fr, st, i.X)
		idx := x.eval(fr, st, i.Index)
		if p.k == avPtr || p.k == avSlice {
			if idx.k == avBits && idx.mask == ^uint64(0) {
				return set(i, AV{k: avPtr, cell: sub(p.cell, fmt.Sprintf("[%d]", int64(idx.val)))})
			}
			// any of the elements that are known
			pre := p.cell + "\x01["
			var ks []string
			for k := range st.mem {
				if strings.HasPrefix(k, pre) {
					k = k[:len(pre)+strings.IndexByte(k[len(pre):], ']')+1]
					if !inStrings(ks, k) {
						ks = append(ks, k)
					}
				}
			}
			sort.Strings(ks)
			if x.deep && len(ks) > 0 && len(ks) <= 16 && st.roots[rootOf(p.cell)] == "" {
				var r []*EState
				for _, k := range ks {
					n := st.clone()
					n.env[i] = AV{k: avPtr, cell: k}
					r = append(r, n)
				}
				return r
			}
		}
		if x.deep && (p.k == avSym || p.k == avNonNil && p.sym != "") {
			// every element looks alike, but nothing learned about one holds for the next
			e := p.sym + ".elem"
			x.forgetElem(st, e)
			return set(i, AV{k: avPtr, cell: "s:" + e})
		}
		id := "s:" + fr.pre + i.Name()
		x.dropCells(st, id)
		x.freshName(st, fr.pre+i.Name())
		x.forgetPrefix(st, id)
		return set(i, AV{k: avPtr, cell: id})
	case *ssa.UnOp:
		a := x.eval(fr, st, i.X)
		switch i.Op {
		case token.MUL:
			c, ok := x.cellOf(a)
			if !ok {
				return set(i, x.fresh(fr, st, i))
			}
			if x.load != nil {
				if v, ok := x.load(x, fr, st, i, c); ok {
					return set(i, v)
				}
			}
			if fa, ok := i.X.(*ssa.FieldAddr); ok && x.field != nil {
				owner := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if v, ok := x.field(st, owner, fieldVar(fa.X.Type(), fa.Field)); ok {
					return set(i, v)
				}
			}
			return set(i, x.loadCell(st, c, i.Type()))
		case token.NOT:
			if a.k == avBits {
				return set(i, avBool(!a.isTrue()))
			}
			if e, ok := x.tm(a, i.Type()); ok && e.op == "cmp" {
				return set(i, x.terms.AV(x.terms.cmp(e.a[0], e.a[1], 7&^int(e.val&7), e.val&8 != 0)))
			}
		case token.XOR:
			if a.k == avBits {
				return set(i, truncAV(AV{k: avBits, mask: a.mask, val: ^a.val & a.mask}, i.Type()))
			}
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.Store:
		c, ok := x.cellOf(x.eval(fr, st, i.Addr))
		if !ok {
			return one
		}
		x.storeCell(st, c, x.eval(fr, st, i.Val), i.Val.Type())
		return one
	case *ssa.BinOp:
		a, b := x.eval(fr, st, i.X), x.eval(fr, st, i.Y)
		if x.bin != nil {
			if v, ok := x.bin(x, fr, st, i, a, b); ok {
				return set(i, v)
			}
		}
		if v, ok := x.termOp(st, i, a, b); ok {
			return set(i, v)
		}
		if x.fold && !x.carried(i) {
			if v, ok := foldNumbers(i, a, b); ok {
				return set(i, v)
			}
		}
		switch i.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if isNumber(i.X.Type()) {
				r := x.rel(st, x.rawSym(fr, st, i.X), x.rawSym(fr, st, i.Y))
				want := map[token.Token]int{token.EQL: 2, token.NEQ: 5, token.LSS: 1, token.LEQ: 3, token.GTR: 4, token.GEQ: 6}[i.Op]
				if r&^want == 0 {
					return set(i, avTrue)
				}
				if r&want == 0 {
					return set(i, avFalse)
				}
			}
		case token.SUB, token.MUL:
			if x.deep && a.k == avBits && b.k == avBits && a.mask == ^uint64(0) && b.mask == ^uint64(0) && isNumber(i.Type()) && !inLoop(i.Block()) {
				if i.Op == token.SUB {
					return set(i, truncAV(avInt(int64(a.val-b.val)), i.Type()))
				}
				return set(i, truncAV(avInt(int64(a.val*b.val)), i.Type()))
			}
		case token.ADD:
			if x.deep && a.k == avBits && b.k == avBits && a.mask == ^uint64(0) && b.mask == ^uint64(0) && isNumber(i.Type()) {
				n := int64(a.val + b.val)
				if n == 0 || !inLoop(i.Block()) || n > 0 && n <= 16 && x.countsLiteral(fr, st, i) {
					return set(i, avInt(n))
				}
			}
		}
		if v, ok := x.binop(i, a, b); ok {
			return set(i, v)
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.Phi:
		return one
	case *ssa.ChangeType:
		return set(i, x.eval(fr, st, i.X))
	case *ssa.ChangeInterface:
		return set(i, x.eval(fr, st, i.X))
	case *ssa.Convert:
		a := x.eval(fr, st, i.X)
		if a.k == avBits && isTerm(a) {
			t, ok := x.tm(a, i.X.Type())
			if n, ok2 := ntypeOf(i.Type()); ok && ok2 {
				v := truncAV(a, i.Type())
				if e := x.terms.Conv(t, n); e.op != "const" {
					v.sym = "in:" + e.key
				}
				return set(i, v)
			}
		}
		if a.k == avBits {
			if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return set(i, truncAV(a, i.Type()))
			}
		}
		if (a.k == avSym || a.k == avNonNil) && a.sym != "" {
			if t, ok := x.tm(a, i.X.Type()); ok && isTerm(a) {
				if n, ok := ntypeOf(i.Type()); ok {
					return set(i, x.terms.AV(x.terms.Conv(t, n)))
				}
			}
			if w, n := intWidth(i.X.Type()), intWidth(i.Type()); n != 0 && n < w && x.deep {
				return set(i, AV{k: avSym, sym: fmt.Sprintf("%s.low%d", a.sym, n)})
			}
			return set(i, AV{k: avSym, sym: a.sym})
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.MakeInterface:
		a := x.eval(fr, st, i.X)
		if a.k == avSym {
			if types.IsInterface(i.X.Type()) {
				return set(i, a)
			}
			// an interface holding a concrete value is never nil
			n := AV{k: avNonNil, sym: a.sym, dyn: i.X.Type()}
			return set(i, n)
		}
		a.dyn = i.X.Type()
		if a.k == avPtr {
			// an error value of the library or a *fs.PathError: what it wraps
			return set(i, a)
		}
		return set(i, a)
	case *ssa.TypeAssert:
		a := x.eval(fr, st, i.X)
		v := a
		okv := AV{}
		if a.dyn != nil && !types.IsInterface(i.AssertedType) {
			okv = avBool(types.Identical(a.dyn, i.AssertedType))
		} else if a.k == avNil {
			okv = avFalse
		}
		if a.k == avSym || a.k == avNonNil {
			v = AV{k: a.k, sym: a.sym, tags: a.tags, not: a.not}
			if a.sym == "" {
				v = x.fresh(fr, st, i)
			}
		}
		if !i.CommaOk {
			return set(i, v)
		}
		if okv.k == avNone && x.deep && a.sym != "" && !types.IsInterface(i.AssertedType) && !strings.HasPrefix(a.sym, "olds:") {
			okv = x.norm(st, sym(a.sym+".is("+types.TypeString(i.AssertedType, nil)+")"))
			for k, f := range st.facts {
				if okv.k == avSym && f.isTrue() && strings.HasPrefix(k, a.sym+".is(") {
					okv = avFalse
				}
			}
			if okv.k == avSym {
				// the only type that is left
				all := x.p.dynTypes(i.X.Type())
				left := 0
				for _, t := range all {
					if f, ok := st.facts[a.sym+".is("+types.TypeString(t, nil)+")"]; !ok || !f.isFalse() {
						left++
					}
				}
				if left == 1 && len(all) > 1 {
					for _, t := range all {
						if types.Identical(t, i.AssertedType) {
							okv = avTrue
						}
					}
				}
			}
			if okv.k == avSym && pointerLike(i.AssertedType) {
				s2 := st.clone()
				st.facts[okv.sym], s2.facts[okv.sym] = avTrue, avFalse
				st.env[i] = AV{k: avTuple, el: []AV{v, avTrue}}
				s2.env[i] = AV{k: avTuple, el: []AV{zeroAV(i.AssertedType), avFalse}}
				return []*EState{st, s2}
			}
		}
		if okv.k == avNone {
			if types.IsInterface(i.AssertedType) || !pointerLike(i.AssertedType) {
				ok := sym(fr.pre + i.Name() + "#ok")
				delete(st.facts, ok.sym)
				return set(i, AV{k: avTuple, el: []AV{v, ok}})
			}
			s2 := st.clone()
			st.env[i] = AV{k: avTuple, el: []AV{v, avTrue}}
			s2.env[i] = AV{k: avTuple, el: []AV{zeroAV(i.AssertedType), avFalse}}
			return []*EState{st, s2}
		}
		if okv.isFalse() {
			v = zeroAV(i.AssertedType)
		}
		return set(i, AV{k: avTuple, el: []AV{v, okv}})
	case *ssa.Extract:
		a := x.eval(fr, st, i.Tuple)
		if a.k == avTuple && i.Index < len(a.el) {
			return set(i, x.norm(st, a.el[i.Index]))
		}
		if a.k == avSym {
			return set(i, x.norm(st, sym(fmt.Sprintf("%s#%d", a.sym, i.Index))))
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.MakeClosure:
		a := AV{k: avFn, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			a.el = append(a.el, x.eval(fr, st, b))
		}
		return set(i, a)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		f := x.fresh(fr, st, v)
		st.facts[f.sym] = AV{k: avNonNil}
		if m, ok := in.(*ssa.MakeSlice); ok && x.terms != nil {
			if l := x.eval(fr, st, m.Len); isTerm(l) || l.k == avBits {
				st.facts[f.sym+".len()"] = l
			}
		}
		return set(v, f)
	case *ssa.Slice:
		a := x.eval(fr, st, i.X)
		if a.k == avPtr || a.k == avSlice {
			r := AV{k: avSlice, cell: a.cell}
			if p, ok := i.X.Type().Underlying().(*types.Pointer); ok && i.Low == nil {
				if at, ok := p.Elem().Underlying().(*types.Array); ok && i.High == nil {
					r.mask, r.val = ^uint64(0), uint64(at.Len())
				} else if c, isConst := i.High.(*ssa.Const); ok && isConst {
					r.mask, r.val = ^uint64(0), uint64(c.Int64())
				}
			}
			return set(i, r)
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.Index:
		if t := x.eval(fr, st, i.X); t.k == avStr {
			if n, ok := intOf(x.eval(fr, st, i.Index)); ok && n >= 0 && n < int64(len(t.str)) {
				return set(i, avUint(uint64(t.str[n])))
			}
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.Lookup:
		if t := x.eval(fr, st, i.X); t.k == avStr {
			if n, ok := intOf(x.eval(fr, st, i.Index)); ok && n >= 0 && n < int64(len(t.str)) {
				return set(i, avUint(uint64(t.str[n])))
			}
		}
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			m := x.eval(fr, st, i.X)
			if x.deep && x.look == nil {
				if c, ok := mapCell(m, x.eval(fr, st, i.Index)); ok {
					if v, ok := st.mem[c]; ok {
						v = x.norm(st, v)
						if strings.HasPrefix(v.sym, "olds:") && (v.k == avSym || v.k == avNonNil) {
							// something, but always the same
							u := v
							v = x.fresh(fr, st, i)
							if i.CommaOk {
								v = sym(fr.pre + i.Name() + "#0")
							}
							if v.k == avSym && (u.k == avNonNil || u.dyn != nil) {
								st.facts[v.sym] = AV{k: avNonNil, tags: u.tags, dyn: u.dyn}
							}
							st.mem[c] = v
						}
						if i.CommaOk {
							v = AV{k: avTuple, el: []AV{v, avTrue}}
						}
						return set(i, v)
					}
				}
			}
			x.fresh(fr, st, i)
			if x.look != nil {
				if outs := x.look(x, fr, st, i, m); outs != nil {
					var r []*EState
					for _, o := range outs {
						o.st.env[i] = o.res
						r = append(r, o.st)
					}
					return r
				}
			}
			if i.CommaOk {
				s2 := st.clone()
				st.env[i] = AV{k: avTuple, el: []AV{sym(fr.pre + i.Name() + "#0"), avTrue}}
				s2.env[i] = AV{k: avTuple, el: []AV{zeroAV(i.X.Type().Underlying().(*types.Map).Elem()), avFalse}}
				return []*EState{st, s2}
			}
		}
		return set(i, x.fresh(fr, st, i))
	case *ssa.Next:
		f := x.fresh(fr, st, i)
		return set(i, AV{k: avTuple, el: []AV{sym(f.sym + "#0"), sym(f.sym + "#1"), sym(f.sym + "#2")}})
	case *ssa.MapUpdate:
		m := x.eval(fr, st, i.Map)
		key := x.eval(fr, st, i.Key)
		c, ok := mapCell(m, key)
		if m.sym != "" {
			pre := "s:" + m.sym + "\x01{"
			for k := range st.mem {
				if strings.HasPrefix(k, pre) && !(key.k == avStr && strings.HasPrefix(k, pre+"\"")) {
					delete(st.mem, k)
				}
			}
		}
		if ok && x.deep {
			st.mem[c] = x.eval(fr, st, i.Value)
		}
		if x.effect != nil {
			x.effect(fr, st, "map")
		}
		return one
	case *ssa.Send, *ssa.DebugRef, *ssa.Go:
		return one
	case *ssa.Call:
		var args []AV
		for _, a := range i.Call.Args {
			args = append(args, x.eval(fr, st, a))
		}
		var fnv AV
		if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			fnv = x.eval(fr, st, i.Call.Value)
		}
		outs := x.doCallIn(fr, st, i, fnv, args, df)
		var r []*EState
		for _, o := range outs {
			v := o.res
			if v.k == avTuple && len(v.el) == 1 {
				v = v.el[0]
			}
			o.st.env[i] = v
			r = append(r, o.st)
		}
		return r
	}
	if v, ok := in.(ssa.Value); ok {
		return set(v, x.fresh(fr, st, v))
	}
	return one
}

func inLoop(b *ssa.BasicBlock) bool {
	for _, l := range espLoops(b.Parent()) {
		if l.body[b] {
			return true
		}
	}
	return false
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// countsLiteral reports whether an index is compared with a length that is a known constant.
func (x *Esp) countsLiteral(fr *EFrame, st *EState, v ssa.Value) bool {
	see := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && b.X == v && (b.Op == token.LSS || b.Op == token.NEQ) {
				l, ok := b.Y.(*ssa.Call)
				if !ok {
					continue
				}
				if n, ok := st.env[l]; ok && n.k == avBits && n.mask == ^uint64(0) && n.val <= 16 {
					return true
				}
			}
		}
		return false
	}
	if see(v) {
		return true
	}
	for _, r := range *v.Referrers() {
		if ph, ok := r.(*ssa.Phi); ok && see(ph) {
			return true
		}
	}
	return false
}

// mapCell is the cell that holds the value a map has for a key.
func mapCell(m, key AV) (string, bool) {
	if m.sym == "" || strings.HasPrefix(m.sym, "olds:") {
		return "", false
	}
	switch {
	case key.k == avStr:
		return fmt.Sprintf("s:%s\x01{%q}", m.sym, key.str), true
	case (key.k == avSym || key.k == avBits) && key.sym != "" && !strings.HasPrefix(key.sym, "olds:"):
		return fmt.Sprintf("s:%s\x01{%s}", m.sym, key.sym), true
	}
	return "", false
}

func inStrings(l []string, s string) bool {
	for _, t := range l {
		if s == t {
			return true
		}
	}
	return false
}

func (x *Esp) forgetElem(st *EState, e string) {
	for k := range st.facts {
		if symBase(k, e) || nameMentions(k, e) {
			delete(st.facts, k)
		}
	}
	for k := range st.mem {
		if symBase(cellBase(k), e) {
			delete(st.mem, k)
		}
	}
}

func (x *Esp) forgetPrefix(st *EState, p string) {
	for k := range st.facts {
		if strings.HasPrefix(k, p) {
			delete(st.facts, k)
		}
	}
}

func truncAV(a AV, t types.Type) AV {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return a
	}
	bits := uint(64)
	signed := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Uint8, types.Int8:
		bits = 8
	case types.Uint16, types.Int16:
		bits = 16
	case types.Uint32, types.Int32:
		bits = 32
	}
	a.sym = ""
	if bits == 64 {
		return a
	}
	m := uint64(1)<<bits - 1
	a.val &= m
	if !signed {
		a.mask |= ^m
	} else {
		// sign bits are known only when the top bit is
		if a.mask>>(bits-1)&1 == 0 {
			a.mask &= m
		} else {
			if a.val>>(bits-1)&1 == 1 {
				a.val |= ^m
			}
			a.mask |= ^m
		}
	}
	a.val &= a.mask
	return a
}

func (x *Esp) binop(i *ssa.BinOp, a, b AV) (AV, bool) {
	switch i.Op {
	case token.EQL, token.NEQ:
		if v, ok := avEqual(a, b); ok {
			return avBool(v == (i.Op == token.EQL)), true
		}
		return AV{}, false
	}
	if a.k != avBits || b.k != avBits {
		// known bits of one side can still decide: x & 0, x | ^0
		if a.k == avSym && b.k == avBits {
			a = AV{k: avBits}
		} else if b.k == avSym && a.k == avBits {
			b = AV{k: avBits}
		} else {
			return AV{}, false
		}
		if i.Op != token.AND && i.Op != token.OR && i.Op != token.AND_NOT {
			return AV{}, false
		}
	}
	full := a.mask == ^uint64(0) && b.mask == ^uint64(0)
	var r AV
	switch i.Op {
	case token.AND:
		known := a.mask&b.mask | a.mask&^a.val | b.mask&^b.val
		r = AV{k: avBits, mask: known, val: a.val & b.val & known}
	case token.OR:
		known := a.mask&b.mask | a.val | b.val
		r = AV{k: avBits, mask: known, val: (a.val | b.val) & known}
	case token.XOR:
		r = AV{k: avBits, mask: a.mask & b.mask, val: (a.val ^ b.val) & a.mask & b.mask}
	case token.AND_NOT:
		nb := AV{mask: b.mask, val: ^b.val & b.mask}
		known := a.mask&nb.mask | a.mask&^a.val | nb.mask&^nb.val
		r = AV{k: avBits, mask: known, val: a.val & nb.val & known}
	case token.SHL, token.SHR:
		if b.mask != ^uint64(0) || b.val > 63 {
			return AV{}, false
		}
		if i.Op == token.SHL {
			r = AV{k: avBits, mask: a.mask<<b.val | (1<<b.val - 1), val: a.val << b.val}
		} else {
			if t, ok := i.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsUnsigned == 0 && (a.mask>>63 == 0 || a.val>>63 == 1) {
				return AV{}, false
			}
			r = AV{k: avBits, mask: a.mask>>b.val | ^(^uint64(0) >> b.val), val: a.val >> b.val}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !full {
			return AV{}, false
		}
		t, ok := i.X.Type().Underlying().(*types.Basic)
		if !ok {
			return AV{}, false
		}
		lt, eq := int64(a.val) < int64(b.val), a.val == b.val
		if t.Info()&types.IsUnsigned != 0 {
			lt = a.val < b.val
		}
		switch i.Op {
		case token.LSS:
			return avBool(lt), true
		case token.LEQ:
			return avBool(lt || eq), true
		case token.GTR:
			return avBool(!lt && !eq), true
		}
		return avBool(!lt), true
	default:
		return AV{}, false
	}
	if r.mask == 0 {
		return AV{}, false
	}
	return truncAV(r, i.Type()), true
}

// avEqual decides equality of two abstract values where it can.
func avEqual(a, b AV) (eq, known bool) {
	if b.k == avNil {
		a, b = b, a
	}
	if a.k == avNil {
		switch b.k {
		case avNil:
			return true, true
		case avNonNil, avPtr, avFn, avSlice:
			return false, true
		case avBits, avStr, avAgg:
			if b.dyn != nil {
				return false, true
			}
		}
		return false, false
	}
	switch {
	case a.k == avBits && b.k == avBits:
		m := a.mask & b.mask
		if (a.val^b.val)&m != 0 {
			return false, true
		}
		if m == ^uint64(0) {
			return true, true
		}
	case a.k == avStr && b.k == avStr:
		return a.str == b.str, true
	case a.k == avPtr && b.k == avPtr && strings.HasPrefix(a.cell, "a:") && strings.HasPrefix(b.cell, "a:"):
		return a.cell == b.cell, true
	case a.k == avSym && b.k == avSym && a.sym == b.sym && !strings.HasPrefix(a.sym, "olds:") && !strings.Contains(a.sym, ".elem"):
		return true, true
	case a.k == avNonNil && b.k == avNonNil:
		// err == io.EOF and the like
		x, y := a, b
		if strings.Contains(x.tags, "|") || x.tags == "" {
			x, y = y, x
		}
		if x.tags != "" && !strings.Contains(x.tags, "|") && x.sym == x.tags { // x is the sentinel itself
			if y.sym == x.sym {
				return true, true
			}
			if y.hasNot(x.tags) || y.hasNot("*") {
				return false, true
			}
			if y.sym == y.tags && y.tags != "" && y.tags != x.tags {
				return false, true
			}
		}
	}
	return false, false
}

// foldNumbers computes an arithmetic operation on known numbers.
func foldNumbers(i *ssa.BinOp, a, b AV) (AV, bool) {
	if a.k != avBits || b.k != avBits || a.mask != ^uint64(0) || b.mask != ^uint64(0) || !isNumber(i.Type()) {
		return AV{}, false
	}
	t, ok := i.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsInteger == 0 {
		return AV{}, false
	}
	var n uint64
	switch i.Op {
	case token.ADD:
		n = a.val + b.val
	case token.SUB:
		n = a.val - b.val
	case token.MUL:
		n = a.val * b.val
	case token.QUO, token.REM:
		switch {
		case b.val == 0 || b.val == ^uint64(0):
			return AV{}, false
		case t.Info()&types.IsUnsigned != 0 && i.Op == token.QUO:
			n = a.val / b.val
		case t.Info()&types.IsUnsigned != 0:
			n = a.val % b.val
		case i.Op == token.QUO:
			n = uint64(int64(a.val) / int64(b.val))
		default:
			n = uint64(int64(a.val) % int64(b.val))
		}
	default:
		return AV{}, false
	}
	return truncAV(avUint(n), i.Type()), true
}

// freshCell says whether an address is that of a variable which every iteration of a loop has anew.
func freshCell(a ssa.Value) bool {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.Alloc:
			return inLoop(v.Block())
		default:
			return false
		}
	}
}

// carried says whether a number may grow with the iterations of a loop.
func (x *Esp) carried(i *ssa.BinOp) bool {
	if !inLoop(i.Block()) {
		return false
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, l := range espLoops(v.Parent()) {
				if l.head == v.Block() {
					return x.peel == 0 && x.phi == nil // otherwise the phi itself becomes unknown
				}
			}
			for _, e := range v.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return walk(v.X) || walk(v.Y)
		case *ssa.Convert:
			return walk(v.X)
		case *ssa.ChangeType:
			return walk(v.X)
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return walk(v.X)
			}
			return x.peel == 0 && !freshCell(v.X)
		case *ssa.Call:
			for _, a := range v.Call.Args {
				if walk(a) {
					return true
				}
			}
		}
		return false
	}
	return walk(i)
}

// dynTypes are the types of the values that become values of an interface type of the module.
func (p *Program) dynTypes(t types.Type) []types.Type {
	n := namedOf(t)
	if n == nil || !inModuleType(t) || !types.IsInterface(t) {
		return nil
	}
	if p.dyn == nil {
		p.dyn = map[string][]types.Type{}
		seen, open := map[string]bool{}, map[string]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.ChangeInterface); ok {
						open[c.Type().String()] = true
					}
					m, ok := in.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					k, v := m.Type().String(), m.X.Type().String()
					if !seen[k+" "+v] {
						seen[k+" "+v] = true
						p.dyn[k] = append(p.dyn[k], m.X.Type())
					}
				}
			}
		}
		for k := range open {
			delete(p.dyn, k)
		}
	}
	return p.dyn[n.String()]
}
