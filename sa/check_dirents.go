package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Directories as they are written: how the entries are sorted, where each entry says its name begins, and what is put
// into one block. The numbers are induction variables of loops: their value before the loop and the change on every way
// round are expressions over the lengths of names, which are compared with what the on-disk format demands.

const direntBytes = 12

func isDirent(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Dirent" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/erofs")
}

// holdsDirents: a slice of directory entries, or of structures with one.
func holdsDirents(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return isDirentOrHas(s.Elem())
}

func isDirentOrHas(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if isDirent(t) {
		return true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isDirent(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// elemRef names where a value comes from: the base of a list and an element of it.
type elemRef struct {
	base string
	idx  ssa.Value
	rest string
}

// baseOf names a list: equal names are the same list, as long as nothing is stored to it in between.
func baseOf(v ssa.Value, depth int) string {
	if depth > 8 {
		return v.Name()
	}
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op == token.MUL {
			return "*" + baseOf(u.X, depth+1)
		}
	case *ssa.FieldAddr:
		return baseOf(u.X, depth+1) + "." + fieldName(u.X.Type(), u.Field)
	case *ssa.Field:
		return "*" + baseOf(u.X, depth+1) + "." + fieldName(u.X.Type(), u.Field)
	case *ssa.Alloc:
		if s := onlyStore(u); s != nil {
			if l, ok := s.(*ssa.UnOp); ok && l.Op == token.MUL {
				return baseOf(l.X, depth+1)
			}
		}
	case *ssa.IndexAddr:
		return baseOf(u.X, depth+1) + "[" + u.Index.Name() + "]"
	case *ssa.Slice:
		if u.Low == nil && u.High == nil {
			return baseOf(u.X, depth+1)
		}
	case *ssa.ChangeType:
		return baseOf(u.X, depth+1)
	}
	return v.Name()
}

// onlyStore is the value of the only store to the whole of a variable.
func onlyStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if val != nil {
				return nil
			}
			val = s.Val
		}
	}
	return val
}

// elemOf says which element of which list a value is (a part of).
func elemOf(v ssa.Value, depth int) *elemRef {
	if depth > 8 {
		return nil
	}
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op == token.MUL {
			return elemOf(u.X, depth+1)
		}
	case *ssa.IndexAddr:
		return &elemRef{base: baseOf(u.X, 0), idx: u.Index}
	case *ssa.Index:
		return &elemRef{base: baseOf(u.X, 0), idx: u.Index}
	case *ssa.FieldAddr:
		if e := elemOf(u.X, depth+1); e != nil {
			return &elemRef{e.base, e.idx, e.rest + "." + fieldName(u.X.Type(), u.Field)}
		}
	case *ssa.Field:
		if e := elemOf(u.X, depth+1); e != nil {
			return &elemRef{e.base, e.idx, e.rest + "." + fieldName(u.X.Type(), u.Field)}
		}
	case *ssa.Alloc:
		if s := onlyStore(u); s != nil {
			return elemOf(s, depth+1)
		}
	case *ssa.Convert:
		return elemOf(u.X, depth+1)
	case *ssa.ChangeType:
		return elemOf(u.X, depth+1)
	}
	return nil
}

// lengths finds the lengths of the names among the inputs of a way round: which atom is the length of which string.
func (e *loopEval) lengths() map[string]*elemRef {
	out := map[string]*elemRef{}
	for _, b := range e.path.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !isText(v.Type()) {
				continue
			}
			pl := elemOf(v, 0)
			if pl == nil {
				continue
			}
			if t := e.env[v]; t != nil && t.op == "atom" {
				out[t.name] = pl
			}
		}
	}
	return out
}

func (p *Program) evalWay(l *espLoop, all []*espLoop, lp *loopPath) *loopEval {
	e := &loopEval{p: p, l: l, inner: map[*ssa.BasicBlock]bool{}, path: lp, t: newTerms(), env: map[ssa.Value]*Tm{}, mem: map[string]*Tm{}, start: map[string]*Tm{}, head: map[string]bool{}, body: map[string]bool{}, cell: map[string]ssa.Value{}}
	for _, o := range all {
		if o.head != l.head && l.body[o.head] {
			e.inner[o.head] = true
		}
	}
	e.run()
	return e
}

// smallest is the smallest loop with a block.
func smallest(all []*espLoop, b *ssa.BasicBlock) *espLoop {
	var best *espLoop
	for _, l := range all {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

func onPath(lp *loopPath, b *ssa.BasicBlock) bool {
	for _, x := range lp.blocks {
		if x == b {
			return true
		}
	}
	return false
}

// nameOffsets looks at a store to the field that says where the name of an entry begins.
func (p *Program) nameOffsets(r *Result, fn *ssa.Function, st *ssa.Store, all []*espLoop) {
	where := p.at(st.Pos())
	l := smallest(all, st.Block())
	if l == nil {
		r.Units["name offsets outside of a loop "+p.GOOS]++
		return
	}
	ways, ok := waysRound(l, all)
	if !ok {
		r.Units["name offsets that are not recognised "+p.GOOS]++
		return
	}
	fa := st.Addr.(*ssa.FieldAddr)
	ent := elemOf(fa.X, 0)
	decided := false
	for _, lp := range ways {
		if !onPath(lp, st.Block()) {
			continue
		}
		e := p.evalWay(l, all, lp)
		s := e.eval(st.Val)
		if s == nil {
			continue
		}
		next := e.next()
		lens := e.lengths()
		isName := func(pl *elemRef) bool { return ent == nil || pl.idx == ent.idx }
		atoms := map[string]bool{}
		e.t.atoms(s, atoms)
		// what the value depends on at the head, and what becomes of that
		known := true
		var reach func(n string)
		seen := map[string]bool{}
		reach = func(n string) {
			if seen[n] {
				return
			}
			seen[n] = true
			switch {
			case lens[n] != nil:
			case e.head[n]:
				nx, changes := next[n]
				if !changes {
					return
				}
				if nx == nil {
					known = false
					return
				}
				a := map[string]bool{}
				e.t.atoms(nx, a)
				for _, k := range keysOf(a) {
					reach(k)
				}
			default:
				known = false
			}
		}
		for _, n := range keysOf(atoms) {
			reach(n)
		}
		if !known {
			continue
		}
		rnd := rand.New(rand.NewSource(3))
		carried := false
		for n := range seen {
			if _, c := next[n]; c && e.head[n] {
				carried = true
			}
		}
		good, bad := true, ""
		for k := 0; k < 40; k++ {
			asg := map[string]uint64{}
			byKey := map[string]uint64{}
			name := uint64(1 + rnd.Intn(255))
			for _, n := range keysOf(seen) {
				switch pl := lens[n]; {
				case pl != nil && isName(pl):
					asg[n] = name
				case pl != nil:
					key := pl.base + pl.idx.Name() + pl.rest
					if byKey[key] == 0 {
						byKey[key] = uint64(1 + rnd.Intn(255))
					}
					asg[n] = byKey[key]
				default:
					asg[n] = uint64(rnd.Intn(3000))
				}
			}
			after := map[string]uint64{}
			name2 := uint64(1 + rnd.Intn(255))
			fine := true
			for n, v := range asg {
				after[n] = v
				if pl := lens[n]; pl != nil {
					if isName(pl) {
						after[n] = name2
					} else if _, fixed := pl.idx.(*ssa.Const); !fixed {
						after[n] = uint64(1 + rnd.Intn(255))
					}
				} else if nx := next[n]; nx != nil {
					x, ok := e.t.eval(nx, asg)
					fine = fine && ok
					after[n] = x
				}
			}
			a, ok1 := e.t.eval(s, asg)
			b, ok2 := e.t.eval(s, after)
			if !fine || !ok1 || !ok2 {
				good = false
				continue
			}
			if uint16(b-a) != uint16(name) {
				good = false
				bad = fmt.Sprintf("after a name of %d bytes, the next name is said to begin %d bytes further on", name, int16(b-a))
			}
		}
		switch {
		case good:
			decided = true
			other := ""
			if written := writtenNames(fn, all); len(written) > 0 {
				for n := range seen {
					if pl := lens[n]; pl != nil && !written[pl.base+pl.rest] {
						other = pl.base + pl.rest
					}
				}
			}
			if other != "" {
				r.bad("offsets", shortFn(fn)+": the next name", where, "the offsets are those of the names in "+other+", which are not the names that are written")
				continue
			}
			r.ok("offsets", shortFn(fn)+": the next name", where)
		case bad != "" && (carried || len(seen) > 0):
			decided = true
			r.bad("offsets", shortFn(fn)+": the next name", where, bad)
			continue
		default:
			continue
		}
		p.nameLimit(r, fn, st, e, seen, lens, isName)
		// where the first name begins
		first := map[string]uint64{}
		base, okBase := "", true
		count := uint64(7)
		var at string
		for _, n := range keysOf(seen) {
			if lens[n] != nil {
				first[n] = 3
				continue
			}
			v, b, w, ok := p.firstValue(e, n, count)
			if !ok {
				okBase = false
				break
			}
			if b != "" {
				base, at = b, w
			}
			first[n] = v
		}
		if !okBase {
			r.Units["first name offsets that are not recognised "+p.GOOS]++
			continue
		}
		v, ok := e.t.eval(s, first)
		if !ok {
			continue
		}
		_ = at
		fits := base == "" || ent == nil || base == ent.base
		for _, pl := range lens {
			fits = fits || pl.idx == ent.idx && pl.base == base
		}
		switch {
		case base == "" && v != 0 && v > 4096:
		case v != direntBytes*count && base != "":
			r.bad("offsets", shortFn(fn)+": the first name", where, fmt.Sprintf("the first name of a block of %d entries is said to begin at byte %d, and the entries take %d", count, v, direntBytes*count))
		case base == "":
			r.Units["first name offsets that are not recognised "+p.GOOS]++
		case !fits:
			r.bad("offsets", shortFn(fn)+": the first name", where, "the first name is said to begin after as many entries as "+base+" has, and the block has those of "+ent.base)
		default:
			r.ok("offsets", shortFn(fn)+": the first name", where)
		}
	}
	if !decided {
		r.Units["name offsets that are not recognised "+p.GOOS]++
	}
}

// nameLimit: names that are longer than the format allows do not get as far as the entry.
func (p *Program) nameLimit(r *Result, fn *ssa.Function, st *ssa.Store, e *loopEval, seen map[string]bool, lens map[string]*elemRef, isName func(*elemRef) bool) {
	limited, unknown := false, false
	for _, n := range []uint64{256, 257, 300, 1000, 1024, 1025, 4000, 4096, 5000, 65535} {
		open, asked := true, false
		for _, c := range e.ncond {
			a := map[string]bool{}
			e.t.atoms(c.a, a)
			e.t.atoms(c.b, a)
			asg := map[string]uint64{}
			about, other := false, false
			for k := range a {
				if pl := lens[k]; pl != nil && isName(pl) {
					about = true
					asg[k] = n
				} else {
					other = true
				}
			}
			if !about {
				continue
			}
			if other {
				unknown = true
				continue
			}
			asked = true
			x, ok1 := e.t.eval(c.a, asg)
			y, ok2 := e.t.eval(c.b, asg)
			if !ok1 || !ok2 {
				unknown = true
				continue
			}
			switch c.op {
			case "<":
				open = open && int64(x) < int64(y)
			case "<=":
				open = open && int64(x) <= int64(y)
			case "==":
				open = open && x == y
			case "!=":
				open = open && x != y
			}
		}
		limited = limited || asked
		if open && asked && !unknown {
			r.bad("names", shortFn(fn)+": the limit", p.at(st.Pos()), fmt.Sprintf("an entry with a name of %d bytes is written, and 255 is the limit of the format", n))
			return
		}
	}
	switch {
	case limited && !unknown:
		r.ok("names", shortFn(fn)+": the limit", p.at(st.Pos()))
	case !unknown && !p.limitsText():
		r.bad("names", shortFn(fn)+": the limit", p.at(st.Pos()), "names of any length are written, and 255 bytes is the limit of the format")
	default:
		r.Units["limits of names that are not recognised "+p.GOOS]++
	}
}

// limitsText: somewhere below Create, the length of a text is compared with a number up to the limit.
func (p *Program) limitsText() bool {
	for fn := range reached(p, p.SPkgs[modPath+"/erofs"].Func("Create")) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.BinOp)
				if !ok || !isNumber(c.X.Type()) {
					continue
				}
				switch c.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
				default:
					continue
				}
				for _, o := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
					if n := p.constOf(o[1]); n != nil && n.IsInt64() && (n.Int64() == 255 || n.Int64() == 256) && p.constOf(o[0]) == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

// writtenNames are the lists of which a function writes the names.
func writtenNames(fn *ssa.Function, all []*espLoop) map[string]bool {
	out := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && smallest(all, b) != nil {
				if pl := nameWritten(c); pl != nil {
					out[pl.base+pl.rest] = true
				}
			}
		}
	}
	return out
}

// nameWritten: the call writes an element of a list of names.
func nameWritten(c *ssa.Call) *elemRef {
	f := c.Call.StaticCallee()
	if f == nil {
		return nil
	}
	switch extName(f) {
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bufio.Writer).WriteString", "(*bytes.Buffer).Write", "(*bufio.Writer).Write":
		if isTextOrBytes(c.Call.Args[1].Type()) {
			return elemOf(c.Call.Args[1], 0)
		}
	}
	return nil
}

// firstValue is what an input of a loop is before it, if every list has n elements.
func (p *Program) firstValue(e *loopEval, name string, n uint64) (v uint64, base, at string, ok bool) {
	for _, in := range e.l.head.Instrs {
		ph, isPhi := in.(*ssa.Phi)
		if !isPhi {
			break
		}
		if ph.Name() != name {
			continue
		}
		for k, pr := range e.l.head.Preds {
			if e.l.body[pr] {
				continue
			}
			return p.outside(ph.Edges[k], n, 0)
		}
	}
	for _, b := range e.l.fn.Blocks {
		for _, in := range b.Instrs {
			if v, isV := in.(ssa.Value); isV && v.Name() == name {
				return p.outside(v, n, 0)
			}
		}
	}
	return 0, "", "", false
}

// outside evaluates an expression over the length of a list.
func (p *Program) outside(v ssa.Value, n uint64, depth int) (out uint64, base, at string, ok bool) {
	if depth > 12 {
		return
	}
	if c := p.constOf(v); c != nil {
		if c.IsInt64() {
			return uint64(c.Int64()), "", "", true
		}
		return c.Uint64(), "", "", c.IsUint64()
	}
	switch u := v.(type) {
	case *ssa.Convert:
		out, base, at, ok = p.outside(u.X, n, depth+1)
		if nt, isN := ntypeOf(u.Type()); isN {
			return nt.wrap(out), base, at, ok
		}
	case *ssa.ChangeType:
		return p.outside(u.X, n, depth+1)
	case *ssa.Call:
		if b, isB := u.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
			return n, baseOf(u.Call.Args[0], 0), p.at(u.Pos()), true
		}
	case *ssa.BinOp:
		a, b1, at1, ok1 := p.outside(u.X, n, depth+1)
		b, b2, at2, ok2 := p.outside(u.Y, n, depth+1)
		if !ok1 || !ok2 || b1 != "" && b2 != "" && b1 != b2 {
			return
		}
		if b1 == "" {
			b1, at1 = b2, at2
		}
		nt, isN := ntypeOf(u.Type())
		if !isN {
			return
		}
		switch u.Op {
		case token.ADD:
			return nt.wrap(a + b), b1, at1, true
		case token.SUB:
			return nt.wrap(a - b), b1, at1, true
		case token.MUL:
			return nt.wrap(a * b), b1, at1, true
		case token.SHL:
			return nt.wrap(a << b), b1, at1, true
		}
	}
	return
}

// appendsTo: the call adds one element to a list; it gives the element.
func appendsTo(c *ssa.Call) (elem ssa.Value, ok bool) {
	b, isB := c.Call.Value.(*ssa.Builtin)
	if !isB || b.Name() != "append" || len(c.Call.Args) != 2 {
		return nil, false
	}
	s, isS := c.Call.Args[1].(*ssa.Slice)
	if !isS {
		return nil, true
	}
	a, isA := s.X.(*ssa.Alloc)
	if !isA {
		return nil, true
	}
	arr, isArr := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !isArr || arr.Len() != 1 {
		return nil, true
	}
	for _, r := range *a.Referrers() {
		if ia, isI := r.(*ssa.IndexAddr); isI {
			for _, q := range *ia.Referrers() {
				if st, isSt := q.(*ssa.Store); isSt && st.Addr == ia {
					elem = st.Val
				}
			}
		}
	}
	return elem, true
}

// intoBlocks looks at a loop that hands out entries to blocks.
func (p *Program) intoBlocks(r *Result, fn *ssa.Function, l *espLoop, all []*espLoop) bool {
	// The appends of entries and of blocks.
	var ents, blocks, names []*ssa.Call
	for _, b := range fn.Blocks {
		if !l.body[b] || smallest(all, b) != l {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if _, is := appendsTo(c); !is {
				continue
			}
			el := c.Type().Underlying().(*types.Slice).Elem()
			switch {
			case holdsDirents(c.Type()):
				ents = append(ents, c)
			case hasList(el):
				blocks = append(blocks, c)
			case isText(el):
				names = append(names, c)
			}
		}
	}
	if len(ents) == 0 || len(blocks) == 0 {
		return false
	}
	where := p.at(ents[0].Pos())
	what := shortFn(fn)
	ways, ok := waysRound(l, all)
	if !ok {
		return false
	}
	type way struct {
		e     *loopEval
		flush bool
		add   bool
		next  map[string]*Tm
		lens  map[string]*elemRef
	}
	var ws []*way
	counts := map[string]bool{}
	for _, lp := range ways {
		w := &way{e: p.evalWay(l, all, lp)}
		n, m := 0, 0
		for _, c := range ents {
			if onPath(lp, c.Block()) {
				n++
			}
		}
		for _, c := range names {
			if onPath(lp, c.Block()) {
				m++
			}
		}
		for _, c := range blocks {
			if onPath(lp, c.Block()) {
				w.flush = true
			}
		}
		counts[fmt.Sprintf("%d:%d", n, m)] = true
		if n == 0 {
			r.bad("blocks", what+": every entry", where, "a way round the loop adds no entry to a block", lp.describe(p)...)
		}
		if n == 1 && len(names) > 0 && m != 1 {
			r.bad("blocks", what+": entries and names", where, fmt.Sprintf("a way round the loop adds an entry and %d names", m), lp.describe(p)...)
		}
		w.add = n > 0
		w.next, w.lens = w.e.next(), w.e.lengths()
		ws = append(ws, w)
	}
	// The name that is added belongs to the entry.
	for _, c := range ents {
		el, _ := appendsTo(c)
		for _, d := range names {
			if d.Block() != c.Block() || el == nil {
				continue
			}
			nm, _ := appendsTo(d)
			if nm == nil {
				continue
			}
			a, b := elemOf(el, 0), elemOf(nm, 0)
			switch {
			case a == nil || b == nil:
			case a.idx == b.idx:
				r.ok("blocks", what+": entries and names", p.at(d.Pos()))
			default:
				r.bad("blocks", what+": entries and names", p.at(d.Pos()), "the name comes from another place of its list than the entry")
			}
		}
	}
	// How full a block gets. The amount is an input of the loop which the decision to begin another block looks at.
	amounts := map[string]bool{}
	for _, w := range ws {
		for _, c := range w.e.ncond {
			a := map[string]bool{}
			w.e.t.atoms(c.a, a)
			w.e.t.atoms(c.b, a)
			hasName := false
			for n := range a {
				hasName = hasName || w.lens[n] != nil
			}
			for n := range a {
				if hasName && w.e.head[n] {
					if _, changes := w.next[n]; changes && !strings.HasPrefix(n, "len ") {
						amounts[n] = true
					}
				}
			}
		}
	}
	if len(amounts) != 1 {
		r.Units["loops into blocks that are not recognised "+p.GOOS]++
		return true
	}
	amount := keysOf(amounts)[0]
	init, b, _, ok := p.firstValue(ws[0].e, amount, 1)
	if !ok || b != "" {
		r.Units["loops into blocks that are not recognised "+p.GOOS]++
		return true
	}
	// on a way round, from how full a block is and the length of the name to how full it is after
	value := func(w *way, t *Tm, h, n uint64) (uint64, bool) {
		asg := map[string]uint64{}
		a := map[string]bool{}
		w.e.t.atoms(t, a)
		for k := range a {
			switch {
			case w.lens[k] != nil:
				asg[k] = n
			case k == amount:
				asg[k] = h
			default:
				return 0, false
			}
		}
		return w.e.t.eval(t, asg)
	}
	known, over := true, ""
	least := init
	var why string
	for _, w := range ws {
		nx := w.next[amount]
		if nx == nil {
			known = false
			continue
		}
		for _, s := range [][2]uint64{{init, 1}, {100, 17}, {2500, 255}, {3000, 254}, {1000, 100}} {
			v, ok := value(w, nx, s[0], s[1])
			if !ok {
				known = false
				break
			}
			if w.flush {
				if d := int64(v) - int64(direntBytes+s[1]); d < int64(least) {
					if d < 0 {
						why = fmt.Sprintf("a new block that has an entry with a name of %d bytes counts as %d bytes full", s[1], int64(v))
					} else {
						least = uint64(d)
					}
				}
			} else if int64(v)-int64(s[0]) < int64(direntBytes+s[1]) {
				why = fmt.Sprintf("an entry with a name of %d bytes takes %d bytes of its block, and counts as %d", s[1], direntBytes+s[1], int64(v)-int64(s[0]))
			}
		}
	}
	if why != "" {
		r.bad("blocks", what+": how full a block is", where, why)
		return true
	}
	if !known {
		r.Units["loops into blocks that are not recognised "+p.GOOS]++
		return true
	}
	r.ok("blocks", what+": how full a block is", where)
	// The way round that adds to the block must be open only to what fits.
	for _, w := range ws {
		if w.flush || !w.add {
			continue
		}
		for h := uint64(3700); h <= 4100 && over == ""; h++ {
			for n := uint64(1); n <= 255; n++ {
				if h-least+direntBytes+n+1 <= 4096 {
					continue
				}
				open, sure := true, true
				for _, c := range w.e.ncond {
					a, ok1 := value(w, c.a, h, n)
					b, ok2 := value(w, c.b, h, n)
					if !ok1 || !ok2 {
						if dependsOn(w.e.t, c, amount, w.lens) {
							sure = false
						}
						continue
					}
					holds := false
					switch c.op {
					case "<":
						holds = a < b
						if c.sgn {
							holds = int64(a) < int64(b)
						}
					case "<=":
						holds = a <= b
						if c.sgn {
							holds = int64(a) <= int64(b)
						}
					case "==":
						holds = a == b
					case "!=":
						holds = a != b
					}
					open = open && holds
				}
				if open && sure {
					over = fmt.Sprintf("a block of %d bytes takes another entry with a name of %d bytes, and with the end of the last name it has %d", h-least, n, h-least+direntBytes+n+1)
					break
				}
				if !sure {
					known = false
				}
			}
		}
	}
	switch {
	case over != "":
		r.bad("blocks", what+": what fits", where, over)
	case known:
		r.ok("blocks", what+": what fits", where)
	}
	return true
}

// dependsOn: a condition looks at how full the block is.
func dependsOn(t *Terms, c *tmCond, amount string, lens map[string]*elemRef) bool {
	a := map[string]bool{}
	t.atoms(c.a, a)
	t.atoms(c.b, a)
	for n := range a {
		if n == amount || lens[n] != nil || strings.HasPrefix(n, "len ") {
			return true
		}
	}
	return false
}

func (lp *loopPath) describe(p *Program) []string {
	var out []string
	for _, c := range lp.conds {
		if in, ok := c.v.(ssa.Instruction); ok && c.v.Pos() != token.NoPos {
			out = append(out, fmt.Sprintf("%s: the condition is %v", p.at(in.Pos()), c.want))
		}
	}
	return out
}

// hasList: a structure with a slice, or a slice.
func hasList(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return holdsDirents(t)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if holdsDirents(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// lastBlock looks at how the block that is not full is added after the loop: whenever it has an entry.
func (p *Program) lastBlock(r *Result, fn *ssa.Function, l *espLoop, all []*espLoop) {
	var adds []*ssa.Call
	inLoop := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if _, is := appendsTo(c); !is || !hasList(c.Type().Underlying().(*types.Slice).Elem()) || holdsDirents(c.Type()) {
				continue
			}
			if l.body[b] {
				inLoop = true
			} else {
				adds = append(adds, c)
			}
		}
	}
	if !inLoop {
		return
	}
	if len(adds) == 0 {
		r.Units["last blocks that are not recognised "+p.GOOS]++
		return
	}
	for _, c := range adds {
		b := c.Block()
		id := b.Idom()
		if id == nil || l.body[id] && id != l.head {
			continue
		}
		in, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id == l.head {
			r.ok("blocks", shortFn(fn)+": the last block", p.at(c.Pos()))
			continue
		}
		cmp, ok := in.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		missing := ""
		known := true
		for n := uint64(1); n <= 400; n++ {
			x, b1, _, ok1 := p.outside(cmp.X, n, 0)
			y, b2, _, ok2 := p.outside(cmp.Y, n, 0)
			if !ok1 || !ok2 || b1 == "" && b2 == "" {
				known = false
				break
			}
			holds := false
			switch cmp.Op {
			case token.GTR:
				holds = int64(x) > int64(y)
			case token.GEQ:
				holds = int64(x) >= int64(y)
			case token.LSS:
				holds = int64(x) < int64(y)
			case token.LEQ:
				holds = int64(x) <= int64(y)
			case token.EQL:
				holds = x == y
			case token.NEQ:
				holds = x != y
			default:
				known = false
			}
			if holds != (id.Succs[0] == b || id.Succs[0].Dominates(b) && !id.Succs[1].Dominates(b)) {
				missing = fmt.Sprintf("the last block is left out if it has %d entries", n)
				break
			}
		}
		switch {
		case !known:
			r.Units["last blocks that are not recognised "+p.GOOS]++
		case missing != "":
			r.bad("blocks", shortFn(fn)+": the last block", p.at(c.Pos()), missing)
		default:
			r.ok("blocks", shortFn(fn)+": the last block", p.at(c.Pos()))
		}
	}
}

// onlyNames looks at a loop that writes the names of the entries: on every way round, the name and nothing else.
func (p *Program) onlyNames(r *Result, fn *ssa.Function, all []*espLoop) {
	for _, l := range all {
		var nameWrites []*ssa.Call
		var others []*ssa.Call
		for _, b := range fn.Blocks {
			if !l.body[b] || smallest(all, b) != l {
				continue
			}
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil {
					continue
				}
				switch extName(f) {
				case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bufio.Writer).WriteString", "(*bytes.Buffer).Write", "(*bufio.Writer).Write":
					if nameWritten(c) != nil {
						nameWrites = append(nameWrites, c)
					} else {
						others = append(others, c)
					}
				case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bufio.Writer).WriteByte", "(*bytes.Buffer).WriteRune":
					others = append(others, c)
				}
			}
		}
		if len(nameWrites) == 0 {
			continue
		}
		ways, ok := waysRound(l, all)
		if !ok {
			continue
		}
		where := p.at(nameWrites[0].Pos())
		bad := false
		for _, lp := range ways {
			n, recv := 0, ssa.Value(nil)
			for _, c := range nameWrites {
				if onPath(lp, c.Block()) {
					n++
					recv = c.Call.Args[0]
				}
			}
			switch {
			case n == 0:
				bad = true
				r.bad("names", shortFn(fn), where, "a way round the loop writes no name", lp.describe(p)...)
			case n > 1:
				bad = true
				r.bad("names", shortFn(fn), where, "a way round the loop writes a name twice", lp.describe(p)...)
			}
			for _, c := range others {
				if onPath(lp, c.Block()) && c.Call.Args[0] == recv {
					bad = true
					r.bad("names", shortFn(fn), p.at(c.Pos()), "something is written between two names, and the entries say that one begins where the other ends", lp.describe(p)...)
				}
			}
		}
		if !bad {
			r.ok("names", shortFn(fn), where)
		}
	}
}

func isTextOrBytes(t types.Type) bool {
	if isText(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// subject says what a call sorts: the lists that it is given.
func sortSubjects(c *ssa.Call) (lists []ssa.Value, st *types.Struct, recv types.Type) {
	if len(c.Call.Args) == 0 {
		return
	}
	arg := c.Call.Args[0]
	if r, ok := arg.(*ssa.Call); ok && len(r.Call.Args) == 1 { // sort.Reverse
		arg = r.Call.Args[0]
	}
	if mi, ok := arg.(*ssa.MakeInterface); ok {
		arg = mi.X
	}
	t := arg.Type()
	recv = t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if ct, ok := arg.(*ssa.ChangeType); ok {
			arg = ct.X
		}
		return []ssa.Value{arg}, nil, recv
	case *types.Struct:
		st = u
		al, _ := arg.(*ssa.Alloc)
		if al == nil {
			if ld, ok := arg.(*ssa.UnOp); ok {
				al, _ = ld.X.(*ssa.Alloc)
			}
		}
		if al != nil {
			for _, r := range *al.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, q := range *fa.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
						lists = append(lists, s.Val)
					}
				}
			}
		}
	}
	return
}

func structHasDirents(st *types.Struct) bool {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if holdsDirents(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// swapsAll: a method Swap exchanges the elements of every list of its structure.
func (p *Program) swapsAll(r *Result, recv types.Type, st *types.Struct) {
	sel := p.Prog.MethodSets.MethodSet(recv).Lookup(nil, "Swap")
	if sel == nil {
		return
	}
	fn := p.Prog.MethodValue(sel)
	if fn == nil || fn.Blocks == nil {
		return
	}
	stored := map[string]int{}
	calls := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.Store:
				if ia, ok := u.Addr.(*ssa.IndexAddr); ok {
					if ld, ok := ia.X.(*ssa.UnOp); ok {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok {
							stored[fieldName(fa.X.Type(), fa.Field)]++
						}
					}
					if f, ok := ia.X.(*ssa.Field); ok {
						stored[fieldName(f.X.Type(), f.Field)]++
					}
				}
			case *ssa.Call:
				calls = true
			}
		}
	}
	if calls || len(stored) == 0 {
		r.Units["exchanges that are not recognised "+p.GOOS]++
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !holdsDirents(f.Type()) && !stringSlice(f.Type()) {
			continue
		}
		r.check(stored[f.Name()] >= 2, "sorted", shortFn(fn)+": "+f.Name(), p.at(fn.Pos()), "sorting leaves the "+f.Name()+" where they are, and moves the others")
	}
}

func runW05(env *Env, r *Result) {
	env.each(func(p *Program) {
		pkg := p.SPkgs[modPath+"/erofs"]
		if pkg == nil {
			return
		}
		create := pkg.Func("Create")
		if create == nil {
			return
		}
		rel := reached(p, create)
		var fns []*ssa.Function
		for fn := range rel {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		sorts, compares := 0, false
		for _, fn := range fns {
			all := espLoops(fn)
			blocks := false
			for _, l := range all {
				func() {
					defer func() {
						if x := recover(); x != nil {
							env.gaveUp(shortFn(fn), x)
						}
					}()
					if p.intoBlocks(r, fn, l, all) {
						blocks = true
						p.lastBlock(r, fn, l, all)
					}
				}()
			}
			_ = blocks
			usesDirents := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok && (holdsDirents(v.Type()) || isDirentOrHas(v.Type())) {
						usesDirents = true
					}
					switch u := in.(type) {
					case *ssa.Store:
						fa, ok := u.Addr.(*ssa.FieldAddr)
						if ok && isDirent(fa.X.Type().Underlying().(*types.Pointer).Elem()) && fieldName(fa.X.Type(), fa.Field) == "NameOff" {
							p.nameOffsets(r, fn, u, all)
						}
					case *ssa.BinOp:
						if isText(u.X.Type()) && (u.Op == token.LSS || u.Op == token.GTR || u.Op == token.LEQ || u.Op == token.GEQ) {
							compares = true
						}
					case *ssa.Call:
						f := u.Call.StaticCallee()
						if f == nil {
							continue
						}
						if n := extName(f); n == "strings.Compare" || n == "bytes.Compare" || strings.HasPrefix(n, "cmp.") || strings.HasPrefix(n, "slices.BinarySearch") || strings.HasPrefix(n, "slices.Insert") || n == "sort.Search" || n == "sort.SearchStrings" {
							compares = true
						}
						v, why, path, is := p.sortVerdict(u)
						if !is {
							continue
						}
						lists, st, recv := sortSubjects(u)
						of := structHasDirents(st)
						alone := false
						for _, x := range lists {
							of = of || holdsDirents(x.Type())
							alone = alone || stringSlice(x.Type())
						}
						if !of && alone && st == nil && besideDirents(fn, u, lists[0]) {
							sorts++
							r.bad("sorted", shortFn(fn), p.at(u.Pos()), "the names are sorted, and the entries stay where they are")
							continue
						}
						if !of {
							continue
						}
						sorts++
						switch v {
						case "yes":
							r.ok("sorted", shortFn(fn), p.at(u.Pos()))
						case "no":
							r.bad("sorted", shortFn(fn), p.at(u.Pos()), why, path...)
						default:
							r.Units["sorts that are not recognised "+p.GOOS]++
						}
						if st != nil {
							p.swapsAll(r, recv, st)
						}
						p.sortedBefore(r, fn, u, lists)
					}
				}
			}
			if usesDirents {
				p.onlyNames(r, fn, all)
			}
		}
		if sorts == 0 {
			if compares {
				r.Units["no sort of the entries is recognised "+p.GOOS]++
			} else {
				r.bad("sorted", "erofs.Create", p.at(create.Pos()), "the entries of a directory are written without being sorted: \".\" and \"..\" are not always the first")
			}
		}
	})
}

// besideDirents: a list of names that is sorted belongs to a list of entries: both are handed on together.
func besideDirents(fn *ssa.Function, at *ssa.Call, names ssa.Value) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c == at {
				continue
			}
			has, dirents := false, ssa.Value(nil)
			for _, a := range c.Call.Args {
				if a == names {
					has = true
				}
				if holdsDirents(a.Type()) {
					dirents = a
				}
			}
			if has && dirents != nil && at.Block().Dominates(c.Block()) {
				// the entries were complete before the names were sorted
				if d, ok := dirents.(ssa.Instruction); ok && d.Block().Dominates(at.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// sortedBefore: what is handed on as the entries was sorted, on every path and after the last was added.
func (p *Program) sortedBefore(r *Result, fn *ssa.Function, at *ssa.Call, lists []ssa.Value) {
	if len(lists) == 0 {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c == at {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil || !inModule(f) {
				continue
			}
			for _, a := range c.Call.Args {
				if !holdsDirents(a.Type()) {
					continue
				}
				same := false
				for _, x := range lists {
					same = same || x == a
				}
				switch {
				case same && dominatesInstr(at, c):
					r.ok("sorted", shortFn(fn)+": before they are written", p.at(c.Pos()))
				case same && dominatesInstr(c, at):
					r.bad("sorted", shortFn(fn)+": before they are written", p.at(c.Pos()), "the entries are used before they are sorted, at "+p.at(at.Pos()))
				case same:
					// on some path only
					if g := guardOf(at.Block()); g != nil && !aboutOrder(g.Cond, lists, 0) {
						r.bad("sorted", shortFn(fn)+": before they are written", p.at(c.Pos()), "the entries are sorted under a condition only, at "+p.at(at.Pos()))
					} else {
						r.Units["sorts under a condition "+p.GOOS]++
					}
				case partOf(a, lists):
					r.bad("sorted", shortFn(fn)+": before they are written", p.at(c.Pos()), "only a part of the entries is sorted, at "+p.at(at.Pos()))
				case addedAfter(a, lists, at):
					r.bad("sorted", shortFn(fn)+": before they are written", p.at(c.Pos()), "an entry is added after the entries were sorted, at "+p.at(at.Pos()))
				}
			}
		}
	}
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// guardOf is the branch that decides about a block.
func guardOf(b *ssa.BasicBlock) *ssa.If {
	for d := b.Idom(); d != nil; d = d.Idom() {
		if in, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			return in
		}
	}
	return nil
}

// aboutOrder: a condition looks at the lists, for example at how long they are or whether they are in order.
func aboutOrder(v ssa.Value, lists []ssa.Value, depth int) bool {
	if depth > 6 {
		return true
	}
	for _, x := range lists {
		if v == x {
			return true
		}
	}
	switch u := v.(type) {
	case *ssa.Const, *ssa.Parameter:
		return false
	case *ssa.BinOp:
		return aboutOrder(u.X, lists, depth+1) || aboutOrder(u.Y, lists, depth+1)
	case *ssa.UnOp:
		return aboutOrder(u.X, lists, depth+1)
	case *ssa.Call:
		for _, a := range u.Call.Args {
			if aboutOrder(a, lists, depth+1) {
				return true
			}
		}
		return !isText(u.Type()) && u.Call.StaticCallee() != nil && inModule(u.Call.StaticCallee())
	case *ssa.MakeInterface:
		return aboutOrder(u.X, lists, depth+1)
	case *ssa.Extract:
		return aboutOrder(u.Tuple, lists, depth+1)
	case *ssa.Phi:
		return true
	case *ssa.Alloc:
		return true
	}
	return false
}

// partOf: what is sorted is a part of a list, from a place in it on.
func partOf(v ssa.Value, lists []ssa.Value) bool {
	for _, x := range lists {
		if s, ok := x.(*ssa.Slice); ok && s.X == v && cutShort(s) {
			return true
		}
	}
	return false
}

// addedAfter: a list is one of those that were sorted, with more at its end.
func addedAfter(v ssa.Value, lists []ssa.Value, at ssa.Instruction) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Phi:
			for _, e := range u.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && dominatesInstr(at, u) {
				for _, x := range lists {
					if u.Call.Args[0] == x {
						return true
					}
				}
				return walk(u.Call.Args[0])
			}
		}
		return false
	}
	return walk(v)
}

func init() {
	register(&Check{ID: "W05", Level: "other", Rule: "Directories of images: the entries handed to the encoder have been sorted, on every path and after the last was added, by a sort that is shown to order by name and that moves entries and names together; " +
		"the offset of a name is an induction variable that begins after the entries of its block and grows by the length of each name; the loop over the names writes nothing else; " +
		"a block is handed an entry only if the induction variable for its size, which grows by at least what the entry takes, leaves room.", Run: runW05})
}
