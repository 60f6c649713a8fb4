package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where an EROFS image is read, and what is reported for it: the fields on disk are named inputs, and every
// offset, length and result is an expression over them.

var (
	u8, u16, u32, u64 = ntype{8, false}, ntype{16, false}, ntype{32, false}, ntype{64, false}
	i64               = ntype{64, true}
)

// diskView is the reader of an image with one kind of inode.
type diskView struct {
	p      *Program
	x      *Esp
	t      *Terms
	sp     *ssa.Package
	layout uint64 // 0 compact, 1 extended
	data   uint64 // 0 plain, 2 inline
	mode   uint64
	isize  int64
	ext    string // InodeCompact or InodeExtended
	calls  int
	cuts   []*EState
	again  int // how often the same access is recorded again
}

func fieldWidth(f *types.Var) (ntype, bool) { return ntypeOf(f.Type()) }

func newDiskView(p *Program, layout, data, mode uint64) *diskView {
	d := &diskView{p: p, x: newEsp(p), t: newTerms(), sp: p.SPkgs[modPath+"/erofs"], layout: layout, data: data, mode: mode, isize: 32, ext: "InodeCompact", again: 3}
	if layout == 1 {
		d.isize, d.ext = 64, "InodeExtended"
	}
	x := d.x
	x.deep, x.fold, x.terms = true, true, d.t
	x.limit = 300000
	x.mergeAt = 64
	limits := map[string][2]uint64{
		"SuperBlock.BlockSizeBits": {9, 16}, "SuperBlock.MetaBlockAddr": {0, 1<<32 - 1}, "SuperBlock.BuildTime": {0, 1 << 62}, "SuperBlock.BuildTimeNsec": {0, 999999999},
		"InodeCompact.Size": {0, 1<<32 - 1}, "InodeExtended.Size": {0, 1 << 40}, "InodeExtended.Mtime": {0, 1 << 62}, "InodeExtended.MtimeNsec": {0, 999999999},
	}
	for _, n := range []string{"Nlink", "UID", "GID", "RawBlockAddr", "Size", "Mtime", "MtimeNsec"} {
		if w, ok := d.width(d.ext, n); ok {
			d.disk(d.ext, n, w, limits)
		}
	}
	for _, n := range []string{"BlockSizeBits", "MetaBlockAddr", "BuildTime", "BuildTimeNsec", "RootNid", "Blocks"} {
		if w, ok := d.width("SuperBlock", n); ok {
			d.disk("SuperBlock", n, w, limits)
		}
	}
	d.t.Atom("nid", u64, 0, 1<<35)
	d.t.Atom("end of the name", i64, 1, 255)
	d.t.pick = append(d.t.pick, func(r *rand.Rand, asg map[string]uint64) {
		bs := uint64(1) << asg["SuperBlock.BlockSizeBits"]
		k := d.ext + ".Size"
		tail := uint64(r.Intn(int(bs) - int(d.isize)))
		switch r.Intn(4) {
		case 0:
			asg[k] = tail
		case 1:
			asg[k] = bs * uint64(r.Intn(5))
		case 2:
			asg[k] = bs*uint64(r.Intn(5)) + tail
		}
		if mode&0170000 == 0120000 {
			asg[k] = 1 + uint64(r.Intn(min(4094, int(bs)-int(d.isize))))
		}
	})
	d.t.pick = append(d.t.pick, d.pickValid)
	if mode&0170000 == 040000 {
		for b := 0; b < dirBlocks; b++ {
			for k := 0; k < dirEntries; k++ {
				d.t.Atom(direntField(b, k, "Nid"), u64, 0, 1<<40)
				d.t.Atom(direntField(b, k, "NameOff"), u16, 12, 65535)
				d.t.Atom(direntField(b, k, "FileType"), u8, 0, 7)
				d.t.Atom(direntField(b, k, "Reserved"), u8, 0, 0)
			}
		}
		d.t.pick = []func(*rand.Rand, map[string]uint64){d.pickDir, d.pickValid}
		x.peel = dirEntries
	}
	w := newWorld(fileKinds[0], 0, 0644)
	w.hook(x, nil)
	under := x.call
	x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
		n := namedOf(owner)
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/erofs" {
			return AV{}, false
		}
		tn := n.Obj().Name()
		switch tn + "." + f.Name() {
		case "InodeCompact.Format", "InodeExtended.Format":
			return avUint(d.layout | d.data<<1), true
		case "InodeCompact.XattrCount", "InodeExtended.XattrCount":
			return avUint(0), true
		case "InodeCompact.Mode", "InodeExtended.Mode":
			return avUint(d.mode), true
		}
		if tn != "SuperBlock" && tn != "InodeCompact" && tn != "InodeExtended" {
			return AV{}, false
		}
		if w, ok := fieldWidth(f); ok {
			return d.t.AV(d.disk(tn, f.Name(), w, limits)), true
		}
		return AV{}, false
	}
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		one := func(v AV) ([]EOutcome, bool) { return []EOutcome{{st, v}}, true }
		switch {
		case c.name == "bytes.IndexByte" && len(c.args) == 2:
			return one(d.t.AV(d.t.Atom("end of the name", i64, 1, 255))) // the last name is padded
		case c.name == "dynamic" && c.recv.sym == "cb":
			var typ, nid *Tm
			ps := c.sig.Params()
			for i := 0; i < ps.Len() && i < len(c.args); i++ {
				n, ok := ntypeOf(ps.At(i).Type())
				if e, ok2 := x.tm(c.args[i], ps.At(i).Type()); ok && ok2 && n == u8 {
					typ = e
				} else if ok && ok2 && n == u64 {
					nid = e
				}
			}
			if !d.event(st, "cb", nid, typ, c.in) {
				return nil, true
			}
			if errIndex(c.sig) == 0 && c.sig.Results().Len() == 1 {
				return one(AV{k: avNil})
			}
		case c.name == "encoding/binary.Size" && len(c.args) == 1 && c.args[0].dyn != nil:
			t := c.args[0].dyn
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n := binarySize(t); n > 0 {
				return one(avInt(n))
			}
		case c.method == "Uint16" && len(c.args) > 0 && byteSlice(c):
			return one(avUint(d.layout | d.data<<1))
		case c.name == "io.NewSectionReader" && len(c.args) == 3:
			off, n := d.num(c.args[1]), d.num(c.args[2])
			if off == nil || n == nil {
				d.event(st, "section", off, n, c.in)
				break
			}
			d.event(st, "section", off, n, c.in)
			v := sym("in:" + d.t.mk("f", i64, "section", 0, off, n).key)
			st.facts[v.sym] = AV{k: avNonNil}
			return one(v)
		case c.method == "ReadAt" && len(c.args) == 2 && strings.HasPrefix(c.name, "invoke "):
			l, ok := lenOf(c.args[0])
			var n *Tm
			if ok {
				n = d.num(x.norm(st, l))
			}
			if !d.event(st, "read", d.num(c.args[1]), n, c.in) {
				return nil, true
			}
			if ok && errIndex(c.sig) == 1 {
				havocArgs(x, st, c, fr.pre+callTag(c.in))
				return one(AV{k: avTuple, el: []AV{x.norm(st, l), {k: avNil}}})
			}
		case c.name == "encoding/binary.Read" && len(c.args) == 3:
			e, _ := x.tm(c.args[0], types.Typ[types.Int])
			t := c.args[2].dyn
			if t == nil {
				break
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			n := namedOf(t)
			if n == nil {
				break
			}
			var off *Tm
			if e != nil && e.op == "f" && e.name == "section" {
				off = e.a[0]
			}
			if !d.event(st, "struct "+n.Obj().Name(), off, nil, c.in) {
				return nil, true
			}
			cell, ok := x.cellOf(c.args[2])
			if !ok {
				break
			}
			x.havoc(st, cell, fr.pre+callTag(c.in))
			if b, k, ok := d.direntIndex(st, off); ok && n.Obj().Name() == "Dirent" {
				s := n.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if a := d.at(direntField(b, k, s.Field(i).Name())); a != nil {
						st.mem[sub(cell, s.Field(i).Name())] = d.t.AV(a)
					}
				}
			}
			return one(AV{k: avNil})
		}
		return under(x, fr, st, c)
	}
	return d
}

func byteSlice(c *ECall) bool {
	return strings.Contains(c.name, "encoding/binary") && c.sig.Params().Len() == 1
}

// Directories of the samples have up to three blocks, and the entries of the first two are named.
const (
	dirBlocks  = 2
	dirEntries = 3
)

func direntField(b, k int, f string) string { return fmt.Sprintf("Dirent%d.%d.%s", b, k, f) }

// direntIndex tells which directory entry is at an offset.
func (d *diskView) direntIndex(st *EState, off *Tm) (int, int, bool) {
	if off == nil {
		return 0, 0, false
	}
	for b := 0; b < dirBlocks; b++ {
		for k := 0; k < dirEntries; k++ {
			if v, _ := d.t.compare(st, off, func(asg map[string]uint64) *Tm { return d.direntAt(asg, b, k) }); v == vProved || v == vSampled {
				return b, k, true
			}
		}
	}
	return 0, 0, false
}

func (d *diskView) direntAt(asg map[string]uint64, b, k int) *Tm {
	a := d.blockOff(asg, b)
	if a == nil || uint64(k) >= d.entriesIn(asg, b) {
		return nil
	}
	return d.t.Op("+", i64, a, d.t.Num(uint64(12*k), i64))
}

// entriesIn is the number of entries in a block.
func (d *diskView) entriesIn(asg map[string]uint64, b int) uint64 {
	return asg[direntField(b, 0, "NameOff")] / 12
}

// blocksIn is the number of blocks with content.
func (d *diskView) blocksIn(asg map[string]uint64) int {
	bs := uint64(1) << asg["SuperBlock.BlockSizeBits"]
	return int((asg[d.ext+".Size"] + bs - 1) / bs)
}

// blockOff is the offset of a block of the content.
func (d *diskView) blockOff(asg map[string]uint64, b int) *Tm {
	n := d.blocksIn(asg)
	switch {
	case b >= n:
		return nil
	case d.data == 2 && b == n-1:
		return d.inlineAt()
	case b == 0:
		return d.dataAt()
	}
	return d.t.Op("+", i64, d.dataAt(), d.t.Op("*", i64, d.t.Num(uint64(b), i64), d.bsize()))
}

// blockLen is how much content there is in a block.
func (d *diskView) blockLen(asg map[string]uint64, b int) uint64 {
	bs := uint64(1) << asg["SuperBlock.BlockSizeBits"]
	if r := asg[d.ext+".Size"] % bs; r != 0 && b == d.blocksIn(asg)-1 {
		return r
	}
	return bs
}

// entry finds the nth entry of a directory.
func (d *diskView) entry(asg map[string]uint64, n int) (b, k int, ok bool) {
	for b := 0; b < dirBlocks && b < d.blocksIn(asg); b++ {
		e := int(d.entriesIn(asg, b))
		if n < e {
			return b, n, n < dirEntries
		}
		n -= e
	}
	return 0, 0, false
}

// anyEntry accepts the offset of any entry of a directory, or of any first entry of a block.
func (d *diskView) anyEntry(off *Tm, head, loose bool) func(asg map[string]uint64) *Tm {
	return func(asg map[string]uint64) *Tm {
		g, ok := d.t.eval(off, asg)
		if !ok || d.blocksIn(asg) > dirBlocks {
			return off
		}
		for b := 0; b < d.blocksIn(asg); b++ {
			a, _ := d.t.eval(d.blockOff(asg, b), asg)
			if g >= a && (g-a)%12 == 0 && (g == a || !head && ((g-a)/12 < d.entriesIn(asg, b) || loose && g-a < d.blockLen(asg, b))) {
				return off
			}
		}
		return d.direntAt(asg, 0, 0)
	}
}

// pickValid makes a sample fit the format.
func (d *diskView) pickValid(r *rand.Rand, asg map[string]uint64) {
	bs := uint64(1) << asg["SuperBlock.BlockSizeBits"]
	k := d.ext + ".Size"
	if d.data == 2 {
		if t := asg[k] % bs; t == 0 || t > bs-uint64(d.isize) {
			asg[k] += 1 + uint64(r.Intn(int(bs)-int(d.isize))) - t
		}
		// the inode and its data are in one block
		room := bs - uint64(d.isize) - asg[k]%bs
		asg["nid"] = asg["nid"]&^(bs/32-1) + uint64(r.Intn(int(room/32+1)))
	}
	// everything is inside the image
	asg["SuperBlock.Blocks"] = 1<<32 - 1
	for asg[d.ext+".RawBlockAddr"]+(asg[k]+bs-1)/bs > 1<<32-1 {
		asg[d.ext+".RawBlockAddr"] /= 2
	}
	for asg["SuperBlock.MetaBlockAddr"]+asg["nid"]*32/bs+2 > 1<<32-1 {
		asg["SuperBlock.MetaBlockAddr"] /= 2
	}
}

// pickDir gives the entries of a sample directory places that fit.
func (d *diskView) pickDir(r *rand.Rand, asg map[string]uint64) {
	bs := uint64(1) << asg["SuperBlock.BlockSizeBits"]
	end := uint64(0)
	for b := 0; b < dirBlocks; b++ {
		n := 1 + r.Intn(dirEntries)
		off := uint64(12 * n)
		for k := 0; k < dirEntries; k++ {
			asg[direntField(b, k, "NameOff")] = off
			off += 1 + uint64(r.Intn(30))
		}
		end = max(end, off)
	}
	last := end + uint64(r.Intn(int(bs-uint64(d.isize)-end)))
	if d.data == 0 && r.Intn(3) == 0 {
		last = bs
	}
	asg[d.ext+".Size"] = bs*uint64(r.Intn(3)) + last
}

func (d *diskView) width(tn, f string) (ntype, bool) {
	t, ok := d.sp.Members[tn].(*ssa.Type)
	if !ok {
		return ntype{}, false
	}
	s, ok := t.Type().Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return ntypeOf(s.Field(i).Type())
		}
	}
	return ntype{}, false
}

func (d *diskView) disk(tn, f string, w ntype, limits map[string][2]uint64) *Tm {
	k := tn + "." + f
	l, ok := limits[k]
	if !ok {
		l = [2]uint64{0, 1<<(w.bits-1)<<1 - 1}
	}
	return d.t.Atom(k, w, l[0], l[1])
}

func (d *diskView) num(a AV) *Tm {
	e, ok := d.x.tm(a, types.Typ[types.Int64])
	if !ok || e.op == "f" {
		return nil
	}
	return e
}

const evGhost = "+ev"

// event records an access of the image.
func (d *diskView) event(st *EState, kind string, off, n *Tm, in ssa.Instruction) bool {
	k := func(e *Tm) string {
		if e == nil {
			return "?"
		}
		return e.key
	}
	l := st.ghost[evGhost]
	line := kind + ";" + k(off) + ";" + k(n) + ";" + d.p.at(in.Pos()) + "\n"
	if strings.Count(l, line) > d.again {
		if d.x.peel > 0 && kind != "section" {
			d.cuts = append(d.cuts, st.clone())
		}
		return d.x.peel == 0 || kind == "section"
	}
	l += line
	st.ghost[evGhost] = l
	if d.x.peel > 0 && off == nil && kind != "section" {
		d.cuts = append(d.cuts, st.clone()) // not followed further
		return false
	}
	return true
}

type diskEvent struct {
	kind   string
	off, n *Tm
	at     string
}

func (d *diskView) events(st *EState) []diskEvent {
	var out []diskEvent
	for _, l := range strings.Split(st.ghost[evGhost], "\n") {
		f := strings.Split(l, ";")
		if len(f) == 4 {
			out = append(out, diskEvent{f[0], d.t.tab[f[1]], d.t.tab[f[2]], f[3]})
		}
	}
	return out
}

// invoke calls a function in a state.
func (d *diskView) invoke(st *EState, fn *ssa.Function, args ...AV) []EOutcome {
	d.calls++
	fr := &EFrame{fn: fn, pre: fmt.Sprintf("c%d/", d.calls), keep: map[string]bool{}}
	s := st.clone()
	s.env = map[ssa.Value]AV{}
	for i, a := range args {
		s.env[fn.Params[i]] = a
		symsOf(a, func(k string) { fr.keep[k] = true }, func(c string) { fr.keep["c:"+c] = true })
	}
	return d.x.Run(fr, s)
}

// expressions of the format
func (d *diskView) at(f string) *Tm { return d.t.tab[f] }
func (d *diskView) bits() *Tm       { return d.at("SuperBlock.BlockSizeBits") }
func (d *diskView) bsize() *Tm      { return d.t.Op("<<", i64, d.t.Num(1, i64), d.bits()) }
func (d *diskView) tail() *Tm       { return d.t.Op("%", i64, d.at(d.ext+".Size"), d.bsize()) }
func (d *diskView) blockAt(a *Tm) *Tm {
	return d.t.Op("<<", i64, a, d.bits())
}
func (d *diskView) base() *Tm {
	return d.t.Op("+", i64, d.blockAt(d.at("SuperBlock.MetaBlockAddr")), d.t.Op("<<", i64, d.at("nid"), d.t.Num(5, u64)))
}
func (d *diskView) inlineAt() *Tm {
	return d.t.Op("+", i64, d.base(), d.t.Num(uint64(d.isize), i64))
}
func (d *diskView) dataAt() *Tm { return d.blockAt(d.at(d.ext + ".RawBlockAddr")) }

// single says whether the content has (part of) one block only.
func (d *diskView) single(asg map[string]uint64) bool {
	return asg[d.ext+".Size"] <= 1<<asg["SuperBlock.BlockSizeBits"]
}

// block0 is where the first block of the content is.
func (d *diskView) block0(asg map[string]uint64) *Tm {
	if d.data == 2 && d.single(asg) {
		return d.inlineAt()
	}
	return d.dataAt()
}

// block0Size is how much of the content is in its first block.
func (d *diskView) block0Size(asg map[string]uint64) *Tm {
	bs := uint64(1) << asg["SuperBlock.BlockSizeBits"]
	if asg[d.ext+".Size"] < bs {
		return d.at(d.ext + ".Size")
	}
	return d.bsize()
}

type diskJudge struct {
	d   *diskView
	r   *Result
	fn  *ssa.Function
	tag string
}

func (j *diskJudge) term(st *EState, rule, what, at string, got *Tm, want func(asg map[string]uint64) *Tm) {
	c := shortFn(j.fn) + " (" + j.d.p.GOOS + "): " + what + ", " + j.tag
	if got == nil {
		j.r.Units["values that are not followed "+j.d.p.GOOS]++
		return
	}
	v, why := j.d.t.compare(st, got, want)
	switch v {
	case vDiffer:
		j.r.bad(rule, c, at, what+": "+why, st.path()...)
	case vProved:
		j.r.ok(rule, c, at)
		j.r.Units["equal for every input "+j.d.p.GOOS]++
	case vSampled:
		j.r.ok(rule, c, at)
		j.r.Units["equal for every sampled input "+j.d.p.GOOS]++
		if len(j.r.Notes) < 40 {
			j.r.Notes = append(j.r.Notes, "not rearranged: "+c+": "+j.d.t.show(got))
		}
	default:
		j.r.Units["paths no input was found for "+j.d.p.GOOS]++
	}
}

// refused judges a path to a certain error: if every branch on it was decided by the named inputs and one of the
// samples, which are all well formed, takes it, valid data are refused.
func (j *diskJudge) refused(st *EState, rule, what string) {
	if st.ghost[fuzzyGhost] != "" {
		j.r.Units["errors that depend on other things "+j.d.p.GOOS]++
		return
	}
	asgs := j.d.t.consistent(st)
	if len(asgs) == 0 {
		return
	}
	var in []string
	for n, v := range asgs[0] {
		if strings.Contains(n, "Block") || strings.Contains(n, "Size") || strings.HasSuffix(n, "NameOff") || n == "nid" {
			in = append(in, fmt.Sprintf("%s=%d", n, v))
		}
	}
	sort.Strings(in)
	j.r.bad(rule, shortFn(j.fn)+" ("+j.d.p.GOOS+"): "+what+" is refused, "+j.tag, j.d.p.at(j.fn.Pos()), what+" is refused: "+strings.Join(in, ", "), st.path()...)
}

func constTm(e *Tm) func(map[string]uint64) *Tm { return func(map[string]uint64) *Tm { return e } }

// readInode simulates the reading of an inode and returns the successful outcomes.
func (d *diskView) readInode(bad func(*ssa.Function, *EState)) (*ssa.Function, []EOutcome) {
	it, ok := d.sp.Members["Image"].(*ssa.Type)
	if !ok {
		return nil, nil
	}
	fn := d.p.method(it.Type().(*types.Named), "Inode")
	if fn == nil || fn.Blocks == nil || len(fn.Params) != 2 || fn.Signature.Results().Len() != 2 {
		return nil, nil
	}
	var outs []EOutcome
	for _, o := range d.x.Entry(fn, func(fr *EFrame, st *EState) {
		st.env[fn.Params[1]] = d.t.AV(d.at("nid"))
	}) {
		switch {
		case o.res.k != avTuple:
		case certainError(d.x, o.st, d.x.norm(o.st, o.res.el[1])):
			bad(fn, o.st)
		default:
			outs = append(outs, o)
		}
	}
	return fn, outs
}

func (d *diskView) inodeMethod(name string) *ssa.Function {
	it, ok := d.sp.Members["Inode"].(*ssa.Type)
	if !ok {
		return nil
	}
	fn := d.p.method(it.Type().(*types.Named), name)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	return fn
}

// place puts an inode into memory and returns its address.
func (d *diskView) place(o EOutcome) AV {
	it := d.sp.Members["Inode"].(*ssa.Type)
	cell := "a:inode"
	o.st.roots[cell] = ""
	d.x.storeCell(o.st, cell, o.res.el[0], it.Type())
	delete(o.st.ghost, evGhost)
	return AV{k: avPtr, cell: cell}
}

func runR18(env *Env, r *Result) {
	env.each(func(p *Program) {
		for layout := uint64(0); layout < 2; layout++ {
			for _, data := range []uint64{0, 2} {
				tag := map[uint64]string{0: "compact", 1: "extended"}[layout] + " inode, " + map[uint64]string{0: "plain", 2: "inline"}[data] + " data"
				for _, mode := range []uint64{0100644, 0120777, 040755} {
					d := newDiskView(p, layout, data, mode)
					d.judgeReads(r, tag)
					r.Units["states "+p.GOOS] += d.x.steps
				}
			}
		}
	})
	r.floor("inode offset", 1)
}

func (d *diskView) judgeReads(r *Result, tag string) {
	fn, outs := d.readInode(func(fn *ssa.Function, st *EState) {
		(&diskJudge{d, r, fn, tag}).refused(st, "inode offset", "an inode that fits the format")
	})
	if fn == nil {
		r.Units["entry points not found"]++
		return
	}
	j := &diskJudge{d, r, fn, tag}
	for _, o := range outs {
		for _, e := range d.events(o.st) {
			if e.kind == "section" {
				continue // judged where it is used
			}
			j.term(o.st, "inode offset", "offset of the inode", e.at, e.off, constTm(d.base()))
			if e.kind == "struct InodeCompact" && d.layout == 1 || e.kind == "struct InodeExtended" && d.layout == 0 {
				r.bad("inode form", shortFn(fn)+" ("+d.p.GOOS+"): "+tag, e.at, "an inode of the other form is read", o.st.path()...)
			}
		}
		switch d.mode & 0170000 {
		case 0100000:
			d.judgeData(r, tag, o)
		case 0120000:
			d.judgeLink(r, tag, o)
		case 040000:
			d.judgeDir(r, tag, o)
		}
	}
}

// judgeData checks which parts of the image make up the content of a file.
func (d *diskView) judgeData(r *Result, tag string, o EOutcome) {
	fn := d.inodeMethod("Data")
	if fn == nil || fn.Signature.Results().Len() != 2 {
		r.Units["entry points not found"]++
		return
	}
	j := &diskJudge{d, r, fn, tag}
	s := EOutcome{o.st.clone(), o.res}
	ptr := d.place(s)
	for _, o := range d.invoke(s.st, fn, ptr) {
		if o.res.k == avTuple && certainError(d.x, o.st, d.x.norm(o.st, o.res.el[1])) {
			j.refused(o.st, "content", "a file that fits the format")
			continue
		}
		evs := d.events(o.st)
		known := len(evs) > 0
		for _, e := range evs {
			known = known && e.kind == "section" && e.off != nil && e.n != nil
		}
		if !known {
			r.Units["values that are not followed "+d.p.GOOS]++
			continue
		}
		size, tail := d.at(d.ext+".Size"), d.tail()
		parts := func(asg map[string]uint64) [][2]*Tm {
			if d.data == 0 {
				return [][2]*Tm{{d.dataAt(), size}}
			}
			bs := uint64(1) << asg["SuperBlock.BlockSizeBits"]
			if asg[d.ext+".Size"] < bs {
				return [][2]*Tm{{d.inlineAt(), size}}
			}
			return [][2]*Tm{{d.dataAt(), d.t.Op("-", i64, size, tail)}, {d.inlineAt(), tail}}
		}
		c := shortFn(fn) + " (" + d.p.GOOS + "): " + tag
		// parts without content do not matter
		for _, asg := range d.t.consistent(o.st) {
			var got, want [][2]uint64
			for _, e := range evs {
				a, ok := d.t.eval(e.off, asg)
				n, ok2 := d.t.eval(e.n, asg)
				if !ok || !ok2 {
					got = nil
					break
				}
				if n != 0 {
					got = append(got, [2]uint64{a, n})
				}
			}
			for _, w := range parts(asg) {
				a, _ := d.t.eval(w[0], asg)
				n, _ := d.t.eval(w[1], asg)
				if n != 0 {
					want = append(want, [2]uint64{a, n})
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.bad("content", c, evs[0].at, fmt.Sprintf("parts (offset, length) %v are read, %v expected, for block size 2^%d, block address %d, size %d", got, want, asg["SuperBlock.BlockSizeBits"], asg[d.ext+".RawBlockAddr"], asg[d.ext+".Size"]), o.st.path()...)
				break
			}
		}
		r.ok("content", c, evs[0].at)
		for i, e := range evs {
			i := i
			j.term(o.st, "content", fmt.Sprintf("offset of part %d of %d", i+1, len(evs)), e.at, e.off, func(asg map[string]uint64) *Tm {
				if w := parts(asg); i < len(w) && len(w) == len(evs) {
					return w[i][0]
				}
				return e.off
			})
			j.term(o.st, "content", fmt.Sprintf("length of part %d of %d", i+1, len(evs)), e.at, e.n, func(asg map[string]uint64) *Tm {
				if w := parts(asg); i < len(w) && len(w) == len(evs) {
					return w[i][1]
				}
				return e.n
			})
		}
	}
}

// judgeLink checks where the target of a link is read.
func (d *diskView) judgeLink(r *Result, tag string, o EOutcome) {
	fn := d.inodeMethod("Readlink")
	if fn == nil || fn.Signature.Results().Len() != 2 {
		r.Units["entry points not found"]++
		return
	}
	ptr := d.place(o)
	j := &diskJudge{d, r, fn, tag}
	seen := false
	for _, o := range d.invoke(o.st, fn, ptr) {
		if certainError(d.x, o.st, errorOf(d.x, fn, o)) {
			j.refused(o.st, "link target", "a link that fits the format")
			continue
		}
		for _, e := range d.events(o.st) {
			if e.kind != "read" {
				continue
			}
			seen = true
			j.term(o.st, "link target", "offset of the target", e.at, e.off, d.block0)
			j.term(o.st, "link target", "length of the target", e.at, e.n, func(asg map[string]uint64) *Tm {
				if d.data == 0 && asg[d.ext+".Size"] >= 1<<asg["SuperBlock.BlockSizeBits"] {
					return e.n // never a whole block
				}
				return d.at(d.ext + ".Size")
			})
		}
	}
	if !seen {
		r.Units["content not seen read "+d.p.GOOS]++
	}
}

// judgeDir checks where the entries of a directory and their names are read, and what is reported for them.
func (d *diskView) judgeDir(r *Result, tag string, o EOutcome) {
	fn := d.inodeMethod("IterDirents")
	if fn == nil || len(fn.Params) != 2 {
		r.Units["entry points not found"]++
		return
	}
	before := EOutcome{o.st.clone(), o.res}
	ptr := d.place(o)
	j := &diskJudge{d, r, fn, tag}
	seen := 0
	outs := d.invoke(o.st, fn, ptr, sym("cb"))
	for _, st := range d.cuts {
		outs = append(outs, EOutcome{st, AV{k: avTuple, el: []AV{sym("cut")}}})
	}
	d.cuts = nil
	d.judgeLookup(r, tag, before)
	for _, o := range outs {
		if len(d.t.consistent(o.st)) == 0 {
			r.Units["paths without a sample input "+d.p.GOOS]++
			continue
		}
		if certainError(d.x, o.st, errorOf(d.x, fn, o)) {
			j.refused(o.st, "directory", "a directory that fits the format")
		}
		n := 0 // entries reported
		entry := func(f func(asg map[string]uint64, b, k int) *Tm) func(asg map[string]uint64) *Tm {
			c := n
			return func(asg map[string]uint64) *Tm {
				b, k, ok := d.entry(asg, c)
				if !ok {
					return nil
				}
				return f(asg, b, k)
			}
		}
		evs := d.events(o.st)
		for i, e := range evs {
			nth := fmt.Sprintf("entry %d", n+1)
			switch e.kind {
			case "struct Dirent":
				if i == 0 || i == 1 && evs[0].kind == "section" {
					j.term(o.st, "directory", "offset of the first entry", e.at, e.off, func(asg map[string]uint64) *Tm { return d.direntAt(asg, 0, 0) })
				} else if e.off != nil {
					j.term(o.st, "directory", "offset of an entry", e.at, e.off, d.anyEntry(e.off, false, false))
				}
			case "read":
				if e.off == nil || e.n == nil {
					break
				}
				j.term(o.st, "directory", "offset of the name of "+nth, e.at, e.off, entry(func(asg map[string]uint64, b, k int) *Tm {
					return d.t.Op("+", i64, d.blockOff(asg, b), d.at(direntField(b, k, "NameOff")))
				}))
				j.term(o.st, "directory", "length of the name of "+nth, e.at, e.n, entry(func(asg map[string]uint64, b, k int) *Tm {
					if uint64(k)+1 < d.entriesIn(asg, b) {
						return d.t.Op("-", i64, d.at(direntField(b, k+1, "NameOff")), d.at(direntField(b, k, "NameOff")))
					}
					room := d.blockLen(asg, b) - asg[direntField(b, k, "NameOff")]
					if g, ok := d.t.eval(e.n, asg); ok && g <= room && g >= min(room, 255) {
						return e.n // up to the end of the block, or the longest name
					}
					return d.t.Num(room, i64)
				}))
				seen++
			case "cb":
				j.term(o.st, "directory", "inode number of "+nth, e.at, e.off, entry(func(asg map[string]uint64, b, k int) *Tm {
					return d.at(direntField(b, k, "Nid"))
				}))
				j.term(o.st, "directory", "type of "+nth, e.at, e.n, entry(func(asg map[string]uint64, b, k int) *Tm {
					return d.at(direntField(b, k, "FileType"))
				}))
				n++
			}
		}
	}
	if seen == 0 {
		r.Units["content not seen read "+d.p.GOOS]++
	}
}

// judgeLookup checks where the look-up of a name reads: the first entry of some block, entries of a block,
// and the names of the entries it has read.
func (d *diskView) judgeLookup(r *Result, tag string, o EOutcome) {
	fn := d.inodeMethod("Lookup")
	if fn == nil || len(fn.Params) != 2 {
		r.Units["entry points not found"]++
		return
	}
	ptr := d.place(o)
	j := &diskJudge{d, r, fn, tag}
	d.x.peel, d.again = 1, 0
	outs := d.invoke(o.st, fn, ptr, sym("wanted"))
	for _, st := range d.cuts {
		outs = append(outs, EOutcome{st, AV{k: avTuple, el: []AV{sym("cut"), sym("cut")}}})
	}
	d.cuts = nil
	for _, o := range outs {
		if len(d.t.consistent(o.st)) == 0 {
			r.Units["paths without a sample input "+d.p.GOOS]++
			continue
		}
		first := true
		for _, e := range d.events(o.st) {
			if e.kind != "struct Dirent" || e.off == nil {
				continue
			}
			head := first
			first = false
			j.term(o.st, "look-up", map[bool]string{true: "offset of the first entry looked at", false: "offset of an entry looked at"}[head], e.at, e.off, d.anyEntry(e.off, head, true))
		}
	}
}

func init() {
	register(&Check{ID: "R18", Level: "other", Rule: "Value numbering over the fields of an EROFS image: every offset and length that is read is an expression over superblock and inode fields, which must equal the one the format gives, by normal form; a difference counts only with an input consistent with the branches taken that shows it.", Run: runR18})
}
