package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the EROFS writer records about the entries of the source, and where it puts inodes and content.

// placeEvent is something that was written, with the state before.
type placeEvent struct {
	kind string // "inode", "copy", "store", "super", "compact"
	st   *EState
	off  *Tm
	val  *Tm
	name string // a field, or the type that is written
	at   string
	fn   string
}

type placeView struct {
	*diskView
	evs  []placeEvent
	seen map[string]bool
	meta *Tm // first metadata block
	bits *Tm
	outs []EOutcome
	fn   *ssa.Function
}

const (
	srcSize, srcSec, srcNsec, srcNoTime = "size of ", "seconds of ", "nanoseconds of ", "no time "
)

func (v *placeView) add(e placeEvent, st *EState) {
	k := func(t *Tm) string {
		if t == nil {
			return "?"
		}
		return t.key
	}
	key := e.kind + ";" + k(e.off) + ";" + k(e.val) + ";" + e.name + ";" + e.at + ";" + st.ghost[pcGhost]
	if v.seen[key] {
		return
	}
	v.seen[key] = true
	e.st = st.clone()
	v.evs = append(v.evs, e)
}

func srcName(a AV) string {
	n := strings.ReplaceAll(a.sym, "olds:", "")
	if n == "" {
		n = "the source"
	}
	return n
}

// sourceAtoms answers what is asked about source entries with named inputs.
func (d *diskView) sourceAtoms() {
	x, t := d.x, d.t
	under := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		one := func(v AV) ([]EOutcome, bool) { return []EOutcome{{st, v}}, true }
		switch c.name {
		case "invoke FileInfo.Size":
			return one(t.AV(t.Atom(srcSize+srcName(c.recv), i64, 0, 1<<40)))
		case "invoke FileInfo.ModTime":
			n := srcName(c.recv)
			t.Atom(srcNoTime+n, u8, 0, 1)
			st.ghost["+time"] = n
			return one(t.AV(t.timeTm(t.Signed(srcSec+n, i64, -1<<35, 1<<40), t.Atom(srcNsec+n, i64, 0, 999999999))))
		case "(time.Time).IsZero":
			if z := d.noTime(x.norm(st, c.args[0])); z != nil {
				return one(t.AV(t.cmp(z, t.Num(1, u8), 2, false)))
			}
		case "(time.Time).Equal":
			for i := range c.args {
				if z := d.noTime(x.norm(st, c.args[i])); z != nil && x.norm(st, c.args[1-i]).k == avAgg {
					return one(t.AV(t.cmp(z, t.Num(1, u8), 2, false)))
				}
			}
		}
		return under(x, fr, st, c)
	}
	x.bin = func(x *Esp, fr *EFrame, st *EState, in *ssa.BinOp, a, b AV) (AV, bool) {
		n := namedOf(in.X.Type())
		if in.Op != token.EQL && in.Op != token.NEQ || n == nil || n.Obj().Name() != "Time" || n.Obj().Pkg().Path() != "time" {
			return AV{}, false
		}
		z := d.noTime(a)
		if z == nil {
			z = d.noTime(b)
		}
		if z == nil {
			return AV{}, false
		}
		r := 2
		if in.Op == token.NEQ {
			r = 5
		}
		return t.AV(t.cmp(z, t.Num(1, u8), r, false)), true
	}
	field := x.field
	x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
		if n := namedOf(owner); n != nil && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + f.Name() {
			case "syscall.Stat_t.Uid", "syscall.Stat_t.Gid":
				return t.AV(t.Atom("stat "+f.Name(), u32, 0, 1<<32-1)), true
			case "archive/tar.Header.Uid", "archive/tar.Header.Gid":
				return t.AV(t.Atom("header "+f.Name(), i64, 0, 1<<33)), true
			}
		}
		if field != nil {
			return field(st, owner, f)
		}
		return AV{}, false
	}
}

// noTime is the input that says whether a source has no modification time.
func (d *diskView) noTime(a AV) *Tm {
	s, _ := d.t.asTime(a)
	if s == nil || s.op != "atom" || !strings.HasPrefix(s.name, srcSec) {
		return nil
	}
	return d.at(srcNoTime + s.name[len(srcSec):])
}

func onDiskInode(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/erofs" || n.Obj().Name() != "InodeCompact" && n.Obj().Name() != "InodeExtended" {
		return ""
	}
	return n.Obj().Name()
}

// placements simulates the creation of an image of regular files. With any set, sums that grow with the entries are
// followed through one arbitrary iteration.
func placements(p *Program, any bool) *placeView {
	d := &diskView{p: p, x: newEsp(p), t: newTerms(), sp: p.SPkgs[modPath+"/erofs"]}
	v := &placeView{diskView: d, seen: map[string]bool{}}
	x, t := d.x, d.t
	x.deep, x.fold, x.terms = true, true, t
	x.limit = 2000000
	x.mergeAt = 48
	newWorld(fileKinds[0], 0, 0644).hook(x, nil)
	field := x.field
	x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
		if n := onDiskInode(owner); n != "" && f.Name() != "Mode" {
			if w, ok := fieldWidth(f); ok {
				hi := uint64(1)<<(w.bits-1)<<1 - 1
				if f.Name() == "Size" && w.bits == 64 {
					hi = 1 << 40
				}
				if f.Name() == "Format" {
					hi = 5
				}
				return t.AV(t.Atom(n+"."+f.Name(), w, 0, hi)), true
			}
		}
		return field(st, owner, f)
	}
	t.pick = append(t.pick, func(r *rand.Rand, asg map[string]uint64) {
		for _, n := range []string{"InodeCompact", "InodeExtended"} {
			if _, ok := asg[n+".Format"]; ok {
				asg[n+".Format"] = uint64(r.Intn(2)) << 2
				if n == "InodeExtended" {
					asg[n+".Format"] |= 1
				}
			}
			for a := range asg {
				if v, ok := asg[n+".Size"]; ok && strings.HasPrefix(a, "copied at ") && r.Intn(4) == 0 {
					asg[a] = v + uint64(r.Intn(2))*uint64(r.Intn(3))
				}
			}
		}
	})
	timed(x, t)
	d.sourceAtoms()
	under := x.call
	num := func(st *EState, a AV) *Tm { return d.num(x.norm(st, a)) }
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		one := func(a AV) ([]EOutcome, bool) { return []EOutcome{{st, a}}, true }
		at := p.at(c.in.Pos())
		writer := func() *Tm {
			e, _ := x.tm(x.norm(st, c.args[0]), types.Typ[types.Int64])
			if e == nil || e.op != "f" || e.name != "writer" {
				return nil
			}
			return e.a[0]
		}
		switch {
		case c.name == "io.NewOffsetWriter" && len(c.args) == 2:
			if off := num(st, c.args[1]); off != nil {
				w := sym("in:" + t.mk("f", i64, "writer", 0, off).key)
				st.facts[w.sym] = AV{k: avNonNil}
				return one(w)
			}
		case c.name == "encoding/binary.Size" && len(c.args) == 1:
			a := x.norm(st, c.args[0])
			if a.dyn != nil {
				if n := binarySize(deref(a.dyn)); n > 0 {
					return one(avInt(n))
				}
			} else if a.sym != "" {
				// known by what the value was found to be
				for k, f := range st.facts {
					if f.isTrue() && strings.HasPrefix(k, a.sym+".is(") {
						for _, n := range []string{"InodeCompact", "InodeExtended"} {
							if m, ok := d.sp.Members[n].(*ssa.Type); ok && strings.HasSuffix(k, "."+n+")") {
								return one(avInt(binarySize(m.Type())))
							}
						}
					}
				}
			}
		case c.name == "encoding/binary.Write" && len(c.args) == 3:
			a := x.norm(st, c.args[2])
			off := writer()
			if isSuperBlockArg(a) {
				if cell, ok := x.cellOf(a); ok {
					for _, f := range []string{"MetaBlockAddr", "BlockSizeBits", "Blocks"} {
						if ft := structField(d.sp.Members["SuperBlock"].Type(), f); ft != nil {
							e, _ := x.tm(x.norm(st, x.loadCell(st, sub(cell, f), ft)), ft)
							v.add(placeEvent{kind: "super", val: e, name: f, at: at, fn: shortFn(fr.fn)}, st)
						}
					}
				}
				break
			}
			v.add(placeEvent{kind: "inode", off: off, name: v.typeOf(st, a), at: at, fn: shortFn(fr.fn)}, st)
		case c.name == "io.Copy" || c.name == "io.CopyBuffer":
			off := writer()
			v.add(placeEvent{kind: "copy", off: off, at: at, fn: shortFn(fr.fn)}, st)
			n := t.Atom("copied at "+at, i64, 0, 1<<40)
			st.ghost["+copied"] = n.key
			return one(AV{k: avTuple, el: []AV{t.AV(n), {k: avNil}}})
		}
		return under(x, fr, st, c)
	}
	x.after = func(fr *EFrame, st *EState, in ssa.Instruction) {
		switch i := in.(type) {
		case *ssa.Store:
			fa, ok := i.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			n := onDiskInode(deref(fa.X.Type()))
			if n == "" {
				return
			}
			e, _ := x.tm(x.norm(st, x.eval(fr, st, i.Val)), i.Val.Type())
			f := fieldName(fa.X.Type(), fa.Field)
			v.add(placeEvent{kind: "store", val: e, name: n + "." + f, at: p.at(i.Pos()), fn: shortFn(fr.fn)}, st)
		case *ssa.MapUpdate:
			a := x.norm(st, x.eval(fr, st, i.Value))
			if a.dyn == nil || onDiskInode(a.dyn) == "" {
				return
			}
			if onDiskInode(a.dyn) == "InodeCompact" && st.ghost["+time"] != "" {
				v.add(placeEvent{kind: "compact", name: st.ghost["+time"], at: p.at(i.Pos()), fn: shortFn(fr.fn)}, st)
			}
			delete(st.ghost, "+time")
		}
	}
	if any {
		v.sums()
		t.samples = 3000
	}
	v.fn = d.sp.Func("Create")
	v.outs = x.Entry(v.fn, nil)
	for _, e := range v.evs {
		if e.kind == "super" && e.val != nil {
			switch e.name {
			case "MetaBlockAddr":
				v.meta = e.val
			case "BlockSizeBits":
				v.bits = e.val
			}
		}
	}
	return v
}

// typeOf names the kind of inode that a value holds.
func (v *placeView) typeOf(st *EState, a AV) string {
	if a.dyn != nil {
		return onDiskInode(deref(a.dyn))
	}
	for k, f := range st.facts {
		if a.sym != "" && f.isTrue() && strings.HasPrefix(k, a.sym+".is(") {
			for _, n := range []string{"InodeCompact", "InodeExtended"} {
				if strings.HasSuffix(k, "."+n+")") {
					return n
				}
			}
		}
	}
	return ""
}

var placeCache = map[*Program]*placeView{}

func placed(p *Program) *placeView {
	if placeCache[p] == nil {
		placeCache[p] = placements(p, false)
	}
	return placeCache[p]
}

const soFar = "so far "

// sums makes every 64-bit number that a loop of the writer carries an input of its own.
func (v *placeView) sums() {
	x, t := v.x, v.t
	sum := func(ph *ssa.Phi) string {
		b, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int64 && b.Kind() != types.Uint64 || fnPkgPath(ph.Parent()) != modPath+"/erofs" {
			return ""
		}
		for k, in := range ph.Block().Instrs {
			if in == ssa.Instruction(ph) {
				return fmt.Sprintf("%s%s.%d.%d", soFar, ph.Parent().Name(), ph.Block().Index, k)
			}
		}
		return ""
	}
	x.phi = func(fr *EFrame, st *EState, ph *ssa.Phi, from *ssa.BasicBlock, a AV) (AV, bool, bool) {
		n := sum(ph)
		if n == "" {
			return AV{}, false, false
		}
		nt, _ := ntypeOf(ph.Type())
		e := t.Atom(n, nt, 0, 1<<46)
		nx, _ := x.tm(x.norm(st, a), ph.Type())
		if !ph.Block().Dominates(from) {
			v.add(placeEvent{kind: "first", val: nx, name: n, at: v.p.at(ph.Pos()), fn: shortFn(fr.fn)}, st)
			return t.AV(e), true, false
		}
		k := 0
		for i, p := range ph.Block().Preds {
			if p == from {
				k = i
			}
		}
		for _, in := range ph.Block().Instrs {
			if o, ok := in.(*ssa.Phi); ok && sum(o) != "" {
				if nx, ok := x.tm(x.norm(st, x.eval(fr, st, o.Edges[k])), o.Type()); ok {
					st.ghost["+next "+sum(o)] = nx.key
				}
			}
		}
		for _, in := range ph.Block().Instrs {
			if o, ok := in.(*ssa.Phi); ok && sum(o) > n {
				return t.AV(e), true, false // not the last one
			}
		}
		v.add(placeEvent{kind: "turn", name: n, at: v.p.at(ph.Pos()), fn: shortFn(fr.fn)}, st)
		for g := range st.ghost {
			if strings.HasPrefix(g, "+next ") || strings.HasPrefix(g, "+set") {
				delete(st.ghost, g)
			}
		}
		st.ghost[pcGhost] = "" // it was about the sums before
		g := "+turned " + n[:strings.LastIndex(n, ".")]
		end := st.ghost[g] != ""
		st.ghost[g] = "1"
		return t.AV(e), true, end
	}
	after := x.after
	x.after = func(fr *EFrame, st *EState, in ssa.Instruction) {
		after(fr, st, in)
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok && onDiskInode(deref(fa.X.Type())) != "" {
			if e, _ := x.tm(x.norm(st, x.eval(fr, st, s.Val)), s.Val.Type()); e != nil {
				st.ghost["+set "+fieldName(fa.X.Type(), fa.Field)] = e.key
				st.ghost["+set"] = onDiskInode(deref(fa.X.Type()))
			}
		}
	}
	t.pick = append(t.pick, func(r *rand.Rand, asg map[string]uint64) {
		for n := range asg {
			if strings.HasPrefix(n, soFar) {
				b := uint64(r.Intn(1 << uint(r.Intn(20))))
				if r.Intn(8) == 0 {
					b = uint64(1)<<uint(20+r.Intn(14)) - uint64(r.Intn(3))
				}
				switch r.Intn(4) {
				case 0:
					asg[n] = b << 12
				case 1:
					asg[n] = b<<12 + uint64(r.Intn(128))<<5
				case 2:
					asg[n] = b<<12 + uint64(126+r.Intn(2))<<5
				default:
					asg[n] = b << 5
				}
			}
			if strings.HasPrefix(n, srcSize) && r.Intn(4) > 0 {
				asg[n] = []uint64{0, 1, 31, 32, 33, 1000, 1023, 1024, 1025, 4064, 4095, 4096, 4097, uint64(r.Intn(1100)), uint64(r.Intn(9000))}[r.Intn(15)]
			}
		}
		if r.Intn(2) == 0 {
			return
		}
		for n, v := range asg {
			if strings.HasPrefix(n, srcSize) && v < 1200 {
				for m := range asg {
					if strings.HasPrefix(m, soFar) {
						if rem := (v+31)&^31 + uint64(r.Intn(4))<<5; rem > 0 && rem < 4096 {
							asg[m] = asg[m]&^4095 + 4096 - rem
						}
					}
				}
			}
		}
	})
}

// atomsOf lists the inputs of an expression.
func (t *Terms) atomsOf(e *Tm) map[string]bool {
	m := map[string]bool{}
	if e != nil {
		t.atoms(e, m)
	}
	return m
}

func runW08(env *Env, r *Result) {
	env.each(func(p *Program) {
		v := placed(p)
		t := v.t
		for _, e := range v.evs {
			j := &diskJudge{v.diskView, r, v.fn, e.fn}
			if espDebug == "W08" {
				s := "?"
				if e.val != nil {
					s = t.show(e.val)
				}
				fmt.Println(e.kind, e.name, s, e.at)
			}
			switch e.kind {
			case "store":
				f := e.name[strings.Index(e.name, ".")+1:]
				var want *Tm
				as := t.atomsOf(e.val)
				pick := func(pre string) {
					for _, a := range keysOf(as) {
						if strings.HasPrefix(a, pre) {
							want = t.tab[a]
							return
						}
					}
				}
				other := false
				for a := range as {
					other = other || strings.HasPrefix(a, "Inode")
				}
				switch f {
				case "UID", "GID":
					n := map[string]string{"UID": "Uid", "GID": "Gid"}[f]
					for _, a := range keysOf(as) {
						if strings.HasPrefix(a, "stat ") {
							want = t.Atom("stat "+n, u32, 0, 1<<32-1)
						} else if strings.HasPrefix(a, "header ") {
							want = t.Atom("header "+n, i64, 0, 1<<33)
						}
					}
				case "Size":
					pick(srcSize)
				case "Mtime":
					if pick(srcSec); want == nil {
						for a := range as {
							if strings.HasPrefix(a, srcNsec) {
								want = t.tab[srcSec+a[len(srcNsec):]]
							}
						}
					}
				case "MtimeNsec":
					if pick(srcNsec); want == nil {
						for a := range as {
							if strings.HasPrefix(a, srcSec) {
								want = t.tab[srcNsec+a[len(srcSec):]]
							}
						}
					}
				case "Nlink":
					if e.val != nil && e.val.op == "const" {
						want = t.Num(1, u32)
					}
				default:
					continue
				}
				if want == nil || other {
					r.Units["values that are not followed "+p.GOOS]++
					continue
				}
				j.term(e.st, "recorded", e.name, e.at, e.val, constTm(want))
			case "compact":
				bad := ""
				for _, asg := range t.consistent(e.st) {
					if asg[srcNoTime+e.name] == 0 && (asg[srcSec+e.name] != 0 || asg[srcNsec+e.name] != 0) {
						bad = fmt.Sprintf("a modification time (%d s, %d ns) is lost: a compact inode has none", asg[srcSec+e.name], asg[srcNsec+e.name])
						break
					}
				}
				c := "erofs.Create (" + p.GOOS + "): compact inode, " + e.fn
				if bad != "" {
					r.bad("compact", c, e.at, bad, e.st.path()...)
				} else {
					r.ok("compact", c, e.at)
				}
			}
		}
		r.Units["states "+p.GOOS] += v.x.steps
	})
	r.floor("recorded", 2)
}

func runW15(env *Env, r *Result) {
	env.each(func(p *Program) {
		v := placed(p)
		t := v.t
		for _, e := range v.evs {
			j := &diskJudge{v.diskView, r, v.fn, e.fn}
			if e.off == nil || v.meta == nil || v.bits == nil {
				if e.kind == "inode" || e.kind == "copy" {
					r.Units["values that are not followed "+p.GOOS]++
				}
				continue
			}
			as := t.atomsOf(e.off)
			inode := ""
			for a := range as {
				if i := strings.Index(a, "."); i > 0 && strings.HasPrefix(a, "Inode") {
					inode = a[:i]
				}
			}
			if inode == "" {
				r.Units["values that are not followed "+p.GOOS]++
				continue
			}
			bits := t.Conv(v.bits, i64)
			atom := func(f string) *Tm {
				if a := t.tab[inode+"."+f]; a != nil {
					return a
				}
				w, _ := v.width(inode, f)
				return t.Atom(inode+"."+f, w, 0, 1<<32-1)
			}
			base := t.Op("+", i64, t.Op("<<", i64, t.Conv(v.meta, i64), bits), t.Op("*", i64, atom("Ino"), t.Num(32, i64)))
			if e.kind == "inode" {
				j.term(e.st, "place", "offset of an inode", e.at, e.off, constTm(base))
				continue
			}
			if e.kind != "copy" {
				continue
			}
			size := binarySize(v.sp.Members[inode].Type())
			j.term(e.st, "place", "offset of the content", e.at, e.off, func(asg map[string]uint64) *Tm {
				f, ok := asg[inode+".Format"]
				if !ok {
					if as[inode+".RawBlockAddr"] {
						f = 0
					} else {
						f = 4
					}
				}
				if f&4 != 0 {
					return t.Op("+", i64, base, t.Num(uint64(size), i64))
				}
				return t.Op("<<", i64, atom("RawBlockAddr"), bits)
			})
		}
		r.Units["states "+p.GOOS] += v.x.steps
	})
	r.floor("place", 2)
}

func runW16(env *Env, r *Result) {
	env.each(func(p *Program) {
		v := placements(p, true)
		t := v.t
		const inodeSlot, block = 32, 4096
		up := func(n uint64) uint64 { return (n + block - 1) / block }
		where := "erofs.Create (" + p.GOOS + "): "
		say := func(e placeEvent, rule, what, bad string, judged int) {
			r.Units["inputs followed "+p.GOOS] += judged
			switch {
			case bad != "":
				r.bad(rule, where+what, e.at, bad, e.st.path()...)
			case judged > 0:
				r.ok(rule, where+what, e.at)
			}
		}
		// the sums that inode numbers and block addresses come from
		only := func(k string) string {
			n := ""
			for a := range t.atomsOf(t.tab[k]) {
				if strings.HasPrefix(a, soFar) {
					if n != "" {
						return ""
					}
					n = a
				}
			}
			return n
		}
		meta, data := map[string]bool{}, map[string]bool{}
		for _, e := range v.evs {
			if e.kind == "turn" {
				meta[only(e.st.ghost["+set Ino"])] = true
				data[only(e.st.ghost["+set RawBlockAddr"])] = true
			}
		}
		one := func(m map[string]bool) string {
			delete(m, "")
			if len(m) != 1 {
				return ""
			}
			return keysOf(m)[0]
		}
		mn, dn := one(meta), one(data)
		if mn == "" || dn == "" || mn == dn {
			r.Units["sums that were not recognised "+p.GOOS]++
			return
		}
		// what they count: bytes, or what the format counts
		unit := func(n, field string, u uint64) uint64 {
			k := uint64(0)
			for _, e := range v.evs {
				if e.kind != "turn" || only(e.st.ghost["+set "+field]) != n {
					continue
				}
				if x := t.tab[e.st.ghost["+set "+field]]; x != nil {
					if got, ok := t.eval(x, map[string]uint64{n: 5 * u}); ok {
						switch got {
						case 5:
							k = 1
						case 5 * u:
							if k == 0 {
								k = u
							}
						}
					}
				}
			}
			return k
		}
		mu, du := unit(mn, "Ino", inodeSlot), unit(dn, "RawBlockAddr", block)
		if mu == 0 || du == 0 {
			r.Units["sums that were not recognised "+p.GOOS]++
			return
		}
		// bytes(n, value) is the number of bytes the sums stand for
		valid := func(asg map[string]uint64) bool {
			return asg[mn]*mu%inodeSlot == 0 && asg[dn]*du%block == 0 && asg[mn] < 1<<46/mu && asg[dn] < 1<<46/du && 1+up(asg[mn]*mu)+up(asg[dn]*du) < 1<<32-2 // otherwise refused later on
		}
		for _, e := range v.evs {
			if espDebug == "W16" && e.kind == "store" && e.val == nil {
				fmt.Println("storenil", e.name, e.at, len(t.consistent(e.st)))
			}
			switch {
			case e.kind == "first" && (e.name == mn || e.name == dn):
				if e.val != nil && e.val.op == "const" {
					bad := ""
					if e.name == mn && e.val.val*mu%inodeSlot != 0 || e.name == dn && e.val.val*du%block != 0 {
						bad = fmt.Sprintf("the first address is misaligned: %d", e.val.val)
					}
					say(e, "start", "first address", bad, 1)
				}
			case e.kind == "turn":
				ino, f := t.tab[e.st.ghost["+set Ino"]], t.tab[e.st.ghost["+set Format"]]
				nm, nd := t.tab[e.st.ghost["+next "+mn]], t.tab[e.st.ghost["+next "+dn]]
				raw := t.tab[e.st.ghost["+set RawBlockAddr"]]
				n := e.st.ghost["+set"]
				if ino == nil || f == nil || nm == nil || nd == nil || n == "" || only(ino.key) != mn {
					r.Units["values that are not followed "+p.GOOS]++
					continue
				}
				isz := uint64(binarySize(v.sp.Members[n].Type()))
				src := ""
				for a := range t.lo {
					if strings.HasPrefix(a, srcSize) && (src == "" || t.atomsOf(nm)[a] || t.atomsOf(nd)[a]) {
						src = a
					}
				}
				bad, judged := "", 0
				for _, asg := range t.consistent(e.st) {
					if !valid(asg) || src == "" || asg[src] > 1<<40 {
						continue
					}
					i, ok := t.eval(ino, asg)
					fv, ok2 := t.eval(f, asg)
					m2, ok3 := t.eval(nm, asg)
					d2, ok4 := t.eval(nd, asg)
					if !ok || !ok2 || !ok3 || !ok4 {
						continue
					}
					inline := fv>>1&7 == 2
					size := asg[src]
					at, m0, d0 := i*inodeSlot, asg[mn]*mu, asg[dn]*du
					m2, d2 = m2*mu, d2*du
					end := at + isz
					if inline {
						end += size
					}
					if up(m2)+up(d2) > 1<<32-3 {
						continue // refused later on
					}
					judged++
					if judged == 1 && espDebug == "W16" {
						fmt.Println(n, t.show(ino), t.show(nm), t.show(nd), inline, size)
					}
					desc := fmt.Sprintf("with %d bytes of metadata and %d bytes of data before it, a file of %d bytes", m0, d0, size)
					switch {
					case at < m0:
						bad = fmt.Sprintf("%s: its inode is at %d, on top of another", desc, at)
					case m2 < end:
						bad = fmt.Sprintf("%s: its inode and inline content end at %d, but the next inode is put at %d", desc, end, m2)
					case m2%inodeSlot != 0:
						bad = fmt.Sprintf("%s: the next inode is put at %d, which is misaligned", desc, m2)
					case inline && size > 0 && (at+isz)/block != (end-1)/block:
						bad = fmt.Sprintf("%s: its inline content is at %d and crosses the end of a block", desc, at+isz)
					case inline && d2 < d0:
						bad = fmt.Sprintf("%s: the next data are put at %d, on top of others", desc, d2)
					case d2%block != 0:
						bad = fmt.Sprintf("%s: the next data are put at %d, which is misaligned", desc, d2)
					case !inline && size > 0:
						rv, ok := uint64(0), false
						if raw != nil && only(raw.key) == dn {
							rv, ok = t.eval(raw, asg)
						}
						switch {
						case !ok:
							judged--
						case rv*block < d0:
							bad = fmt.Sprintf("%s: its content is at %d, on top of other content", desc, rv*block)
						case d2 < rv*block+size:
							bad = fmt.Sprintf("%s: its content ends at %d, but the next content is put at %d", desc, rv*block+size, d2)
						}
					}
					if bad != "" {
						break
					}
				}
				say(e, "allocation", n+", "+e.fn, bad, judged)
			case e.kind == "store" && strings.HasSuffix(e.name, ".RawBlockAddr") && e.val != nil && t.atomsOf(e.val)[e.name] && t.atomsOf(e.val)[mn]:
				bad, judged := "", 0
				for _, asg := range t.consistent(e.st) {
					a, ok := t.eval(e.val, asg)
					if !valid(asg) || !ok || v.meta == nil {
						continue
					}
					first, ok := t.eval(v.meta, asg)
					need := asg[e.name] + first + up(asg[mn]*mu)
					if !ok || need > 1<<32-1 {
						continue // refused later on
					}
					judged++
					if a < need {
						bad = fmt.Sprintf("with %d bytes of metadata, data block %d is put at block %d, inside the metadata", asg[mn]*mu, asg[e.name], a)
						break
					}
				}
				say(e, "data area", e.name+", "+e.fn, bad, judged)
			case e.kind == "super" && e.name == "Blocks" && e.val != nil:
				as := t.atomsOf(e.val)
				if !as[mn] || !as[dn] || v.meta == nil {
					r.Units["values that are not followed "+p.GOOS]++
					continue
				}
				bad, judged := "", 0
				for _, asg := range t.consistent(e.st) {
					a, ok := t.eval(e.val, asg)
					first, ok2 := t.eval(v.meta, asg)
					if !ok || !ok2 || !valid(asg) {
						continue
					}
					judged++
					if need := first + up(asg[mn]*mu) + up(asg[dn]*du); a < need {
						bad = fmt.Sprintf("with %d bytes of metadata and %d bytes of data, %d blocks are recorded, but %d are used", asg[mn]*mu, asg[dn]*du, a, need)
						break
					}
				}
				say(e, "blocks", "number of blocks, "+e.fn, bad, judged)
			}
		}
		r.Units["states "+p.GOOS] += v.x.steps
	})
	r.floor("allocation", 0)
}

func init() {
	register(&Check{ID: "W16", Level: "other", Rule: "Value numbering of one arbitrary iteration of the allocation, with the sums before it as unknowns: the regions that it gives out must lie between the sums before and after it, for every input consistent with the branches taken.", Run: runW16})
	register(&Check{ID: "W08", Level: "other", Rule: "Value numbering: every value stored into a field of an on-disk inode must be the expression over the facts about the source that the format gives, for every input consistent with the branches taken.", Run: runW08})
	register(&Check{ID: "W15", Level: "other", Rule: "Value numbering: the offset of every inode and of all content that is written must be the one that the superblock and the inode say.", Run: runW15})
}
