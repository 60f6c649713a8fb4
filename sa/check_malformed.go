package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Archives with one malformed or unsupported header field: the field is a constant, everything else is fine.

type badHeader struct {
	name  string
	pkg   string
	recv  string // "" for a function
	fns   []string
	rule  string
	kind  fileKind
	field map[string]uint64 // "Type.Field" of structures read from the archive
	bad   string            // the field that is wrong: it must be looked at
	bytes map[int]uint64    // bytes of an ar entry header
	wrong string            // constant that text of the archive is compared with, and differs from
	slash bool              // names contain a slash
	num   string            // what numbers of an ar header are
	bits  uint64            // what a 16 bit number read on its own is
	right bool              // not malformed: must be accepted
}

func sbFields(over map[string]uint64) map[string]uint64 {
	m := map[string]uint64{"SuperBlock.Magic": 0xe0f5e1e2, "SuperBlock.BlockSizeBits": 12, "SuperBlock.FeatureCompat": 0, "SuperBlock.FeatureIncompat": 0, "SuperBlock.Checksum": 0x12345678, "SuperBlock.MetaBlockAddr": 1}
	for k, v := range over {
		m[k] = v
	}
	return m
}

func badHeaders() []badHeader {
	var out []badHeader
	sb := func(name, f string, v uint64, right bool) {
		over := map[string]uint64{f: v}
		out = append(out, badHeader{name: "EROFS superblock: " + name, pkg: "erofs", fns: []string{"Open", "OpenImage"}, rule: "superblock", kind: fileKinds[1], field: sbFields(over), bad: f, right: right})
	}
	for _, m := range []uint64{0, 0xe0f5e1e3, 0xe2e1f5e0, 0x60f5e1e2, 0xffffffff} {
		sb(fmt.Sprintf("magic %#x", m), "SuperBlock.Magic", m, false)
	}
	for b := uint64(0); b < 256; b++ {
		if b < 20 || b == 31 || b == 32 || b == 63 || b == 64 || b == 255 {
			sb(fmt.Sprintf("block size 2^%d", b), "SuperBlock.BlockSizeBits", b, b >= 9 && b <= 16)
		}
	}
	for b := uint64(0); b < 32; b++ {
		sb(fmt.Sprintf("incompatible feature %#x", 1<<b), "SuperBlock.FeatureIncompat", 1<<b, false)
	}
	sb("incompatible features 0xffffffff", "SuperBlock.FeatureIncompat", 0xffffffff, false)
	for _, c := range []uint64{1, 3, 0xffffffff} {
		sb(fmt.Sprintf("compatible features %#x, wrong checksum", c), "SuperBlock.FeatureCompat", c, false)
	}
	for _, c := range []uint64{0, 2, 0xfffffffe} {
		sb(fmt.Sprintf("compatible features %#x", c), "SuperBlock.FeatureCompat", c, true)
	}
	inode := func(name, bad string, layout, data uint64, xattr, size uint64, right bool) {
		f := sbFields(nil)
		format := layout | data<<1
		t := map[uint64]string{0: "InodeCompact", 1: "InodeExtended"}[layout]
		f[t+".Format"], f[t+".XattrCount"], f[t+".Size"] = format, xattr, size
		f["Inode.format"] = format
		f[t+".Mode"] = 0100644
		out = append(out, badHeader{name: "EROFS " + strings.ToLower(strings.TrimPrefix(t, "Inode")) + " inode: " + name, pkg: "erofs", recv: "Image", fns: []string{"Inode"}, rule: "inode", kind: fileKinds[0], field: f, bits: format, bad: t + "." + bad, right: right})
	}
	for l := uint64(0); l < 2; l++ {
		isize := []uint64{32, 64}[l]
		for _, x := range []uint64{1, 2, 0x8000, 0xffff} {
			inode(fmt.Sprintf("%d xattrs", x), "XattrCount", l, 0, x, 100, false)
		}
		for d := uint64(0); d < 8; d++ {
			inode(fmt.Sprintf("data layout %d", d), "", l, d, 0, 100, d == 0 || d == 2)
		}
		for _, s := range []uint64{0, 4096, 8192, 4096 - isize + 1, 4095, 2*4096 - isize + 1} {
			inode(fmt.Sprintf("inline data of size %d", s), "Size", l, 2, 0, s, false)
		}
		for _, s := range []uint64{1, 4096 - isize, 4097, 2*4096 - isize} {
			inode(fmt.Sprintf("inline data of size %d", s), "Size", l, 2, 0, s, true)
		}
	}
	dir := func(name string, nameOff, size uint64) {
		f := sbFields(map[string]uint64{"Dirent.NameOff": nameOff, "Inode.size": size, "Inode.mode": 040755, "Inode.blocks": (size + 4095) / 4096, "Inode.format": 0})
		out = append(out, badHeader{name: "EROFS directory: " + name, pkg: "erofs", recv: "Inode", fns: []string{"IterDirents", "Lookup"}, rule: "directory", kind: fileKinds[1], field: f, bad: "Dirent.NameOff"})
	}
	for _, n := range []uint64{0, 1, 11} {
		dir(fmt.Sprintf("first name at %d, inside the entry", n), n, 4096)
	}
	for _, n := range []uint64{4096, 4097, 65535} {
		dir(fmt.Sprintf("first name at %d, outside the block", n), n, 4096)
	}
	for _, n := range []uint64{100, 101, 4095} {
		dir(fmt.Sprintf("first name at %d of 100 bytes", n), n, 100)
	}
	for _, k := range fileKinds {
		if k.name == "directory" {
			continue
		}
		f := sbFields(map[string]uint64{"Dirent.NameOff": 12, "Inode.size": 4096, "Inode.mode": k.sif | 0644, "Inode.blocks": 1, "Inode.format": 0})
		out = append(out, badHeader{name: "EROFS: entries of a " + k.name, pkg: "erofs", recv: "Inode", fns: []string{"IterDirents", "Lookup"}, rule: "directory", kind: k, field: f, bad: "Inode.mode"})
	}
	link := func(name string, size, blocks, inline, format uint64, right bool) {
		f := sbFields(map[string]uint64{"Inode.size": size, "Inode.blocks": blocks, "Inode.idataOff": inline, "Inode.mode": 0120777, "Inode.format": format})
		out = append(out, badHeader{name: "EROFS: " + name, pkg: "erofs", recv: "Inode", fns: []string{"Readlink"}, rule: "symbolic link", kind: fileKinds[6], field: f, bad: "Inode.size", right: right})
	}
	link("inline target of two blocks", 5000, 2, 0x2040, 4, false)
	link("target of 2^63 bytes", 1<<63, 0, 0, 0, false)
	link("target of 2^63+100 bytes", 1<<63+100, 0, 0, 0, false)
	link("inline target of 100 bytes", 100, 1, 0x2040, 4, true)
	link("target of 100 bytes", 100, 1, 0, 0, true)
	ar := func(h badHeader) {
		h.name, h.pkg, h.fns, h.rule, h.kind = "ar: "+h.name, "arfs", []string{"Open"}, "ar header", fileKinds[0]
		out = append(out, h)
	}
	for i, want := range map[int]uint64{58: '`', 59: '\n'} {
		for _, c := range []uint64{0, ' ', '`' + '\n' - want, 0xff} {
			ar(badHeader{name: fmt.Sprintf("byte %d of an entry header is %#x", i, c), bytes: map[int]uint64{58: '`', 59: '\n', i: c}})
		}
	}
	ar(badHeader{name: "wrong magic", wrong: "!<arch>\n"})
	ar(badHeader{name: "wrong end of an entry header", wrong: "`\n"})
	ar(badHeader{name: "slash in a name", slash: true})
	for _, n := range []string{"-1", "-9223372036854775808"} {
		v := ^uint64(0)
		if n != "-1" {
			v = 1 << 63
		}
		ar(badHeader{name: "numbers are " + n, num: n, field: map[string]uint64{"Entry.FileSize": v}})
	}
	for c := uint64(1); c < 256; c++ {
		switch {
		case strings.ContainsRune("0125Sg", rune(c)):
			out = append(out, badHeader{name: fmt.Sprintf("tar: entry of type %q", rune(c)), pkg: "tarfs", fns: []string{"Open"}, rule: "tar entry type", kind: fileKinds[0], field: map[string]uint64{"Header.Typeflag": c}, bad: "Header.Typeflag", right: true})
		case c < 128 || c == 255:
			out = append(out, badHeader{name: fmt.Sprintf("tar: entry of type %q", rune(c)), pkg: "tarfs", fns: []string{"Open"}, rule: "tar entry type", kind: fileKinds[0], field: map[string]uint64{"Header.Typeflag": c}, bad: "Header.Typeflag"})
		}
	}
	return out
}

// simulate runs a function on a malformed header; asked reports whether anything looked at it.
func (h *badHeader) simulate(p *Program, fn *ssa.Function) (asked bool, bad []string, accepted bool, steps int) {
	x := newEsp(p)
	x.limit = 400000
	x.mergeAt = 24
	x.fold = true
	w := newWorld(h.kind, 0, 0644)
	w.hook(x, nil)
	hit := func(st *EState) { st.ghost["+looked"] = "1" }
	if h.bad == "" && h.bits == 0 && h.bytes == nil && h.wrong == "" && !h.slash && h.num == "" {
		hit = func(st *EState) {}
	}
	x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
		n := namedOf(owner)
		if n == nil {
			return AV{}, false
		}
		k := n.Obj().Name() + "." + f.Name()
		if v, ok := h.field[k]; ok {
			if k == h.bad && st.ghost["+end"] == "" {
				hit(st)
			}
			if k == "Inode.format" && h.recv == "Image" || k == "Inode.mode" && h.recv == "Image" {
				return AV{}, false
			}
			return truncAV(avUint(v), f.Type()), true
		}
		if isErrorType(f.Type()) && inModuleType(owner) {
			return AV{k: avNil}, true
		}
		return AV{}, false
	}
	call := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		switch {
		case c.name == "hash/crc32.Update" || c.name == "hash/crc32.Checksum" || c.method == "Sum32":
			return []EOutcome{{st, truncAV(avUint(0x0badcafe), types.Typ[types.Uint32])}}, true
		case c.method == "Uint16" && h.bits != 0 || c.method == "Uint16" && h.recv == "Image":
			hit(st)
			return []EOutcome{{st, avUint(h.bits)}}, true
		case c.method == "Next" && errIndex(c.sig) >= 0:
			end := st.clone()
			end.ghost["+end"] = "1"
			ei, n := errIndex(c.sig), c.sig.Results().Len()
			last := setRes(x.results(fr, end, c), ei, n, AV{k: avNonNil, tags: "io.EOF", sym: "io.EOF"})
			return []EOutcome{{end, last}, {st, setRes(x.results(fr, st, c), ei, n, AV{k: avNil})}}, true
		case c.name == "bytes.Equal" && h.wrong != "":
			for _, a := range c.args {
				if a.k == avStr && a.str == h.wrong {
					hit(st)
					return []EOutcome{{st, avFalse}}, true
				}
			}
		case len(c.args) == 2 && c.args[0].k == avStr && (c.name == "strings.ContainsRune" || c.name == "strings.IndexByte" || c.name == "strings.IndexRune"):
			if n, ok := intOf(c.args[1]); ok {
				i := strings.IndexRune(c.args[0].str, rune(n))
				if c.method == "ContainsRune" {
					return []EOutcome{{st, avBool(i >= 0)}}, true
				}
				return []EOutcome{{st, avInt(int64(i))}}, true
			}
		case h.slash && len(c.args) == 2 && strings.HasPrefix(c.name, "strings."):
			b := c.args[1]
			if !(b.k == avStr && b.str == "/" || b.k == avBits && b.mask == ^uint64(0) && b.val == '/') {
				break
			}
			switch c.method {
			case "Contains", "ContainsRune", "ContainsAny":
				hit(st)
				return []EOutcome{{st, avTrue}}, true
			case "Index", "IndexByte", "IndexRune", "LastIndex", "LastIndexByte", "IndexAny":
				hit(st)
				return []EOutcome{{st, avInt(3)}}, true
			}
		case h.num != "" && (c.name == "strconv.Atoi" || c.name == "strconv.ParseInt"):
			n := constant.MakeFromLiteral(strings.TrimPrefix(h.num, "-"), token.INT, 0)
			v, _ := constant.Uint64Val(n)
			hit(st)
			return []EOutcome{{st, AV{k: avTuple, el: []AV{avUint(-v), {k: avNil}}}}}, true
		case c.name == "binary.Size" || c.name == "encoding/binary.Size":
			if len(c.args) == 1 && c.args[0].dyn != nil {
				t := c.args[0].dyn
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if n := binarySize(t); n > 0 {
					return []EOutcome{{st, avInt(n)}}, true
				}
			}
		}
		return call(x, fr, st, c)
	}
	x.bin = func(x *Esp, fr *EFrame, st *EState, in *ssa.BinOp, a, b AV) (AV, bool) {
		if h.num != "" && a.k == avStr != (b.k == avStr) && (a.k == avStr && a.str == "" || b.k == avStr && b.str == "") {
			return avBool(in.Op == token.NEQ), in.Op == token.EQL || in.Op == token.NEQ
		}
		if h.num != "" && (in.Op == token.EQL || in.Op == token.NEQ) {
			// a table of the numbers of the header: the size is being read
			for f := range h.field {
				_, f, _ = strings.Cut(f, ".")
				if a.k == avPtr && strings.HasSuffix(a.cell, "\x01"+f) && b.k != avNil || b.k == avPtr && strings.HasSuffix(b.cell, "\x01"+f) && a.k != avNil {
					return avBool(in.Op == token.EQL), true
				}
			}
		}
		if h.wrong == "" || in.Op != token.EQL && in.Op != token.NEQ {
			return AV{}, false
		}
		if b.k != avStr {
			a, b = b, a
		}
		if b.k == avStr && b.str == h.wrong && a.k != avStr {
			hit(st)
			return avBool(in.Op == token.NEQ), true
		}
		return AV{}, false
	}
	if h.bytes != nil {
		x.load = func(x *Esp, fr *EFrame, st *EState, in *ssa.UnOp, cell string) (AV, bool) {
			for i, v := range h.bytes {
				if strings.HasSuffix(cell, fmt.Sprintf("\x01[%d]", i)) && isBasic(in.Type(), types.Uint8) {
					if v != map[int]uint64{58: '`', 59: '\n'}[i] {
						hit(st)
					}
					return avUint(v), true
				}
			}
			return AV{}, false
		}
	}
	for _, o := range x.Entry(fn, nil) {
		e := errorOf(x, fn, o)
		sure := certainError(x, o.st, e)
		if !sure {
			accepted = true
		}
		if o.st.ghost["+looked"] == "" {
			continue
		}
		asked = true
		if !sure && !h.right {
			bad = append(o.st.path(), "no error")
		}
	}
	return asked, bad, accepted, x.steps
}

// known says whether the fields of the module's own types exist.
func (h *badHeader) known(sp *ssa.Package) bool {
	for k := range h.field {
		tn, fn, _ := strings.Cut(k, ".")
		if tn == "Header" {
			continue
		}
		t, ok := sp.Members[tn].(*ssa.Type)
		if !ok {
			return false
		}
		s, ok := t.Type().Underlying().(*types.Struct)
		found := false
		for i := 0; ok && i < s.NumFields(); i++ {
			found = found || s.Field(i).Name() == fn
		}
		if !found {
			return false
		}
	}
	return true
}

func runR05(env *Env, r *Result) {
	env.each(func(p *Program) {
		for _, h := range badHeaders() {
			sp := p.SPkgs[modPath+"/"+h.pkg]
			if !h.known(sp) {
				r.Units["headers with unknown fields"]++
				continue
			}
			for _, name := range h.fns {
				var fn *ssa.Function
				if h.recv == "" {
					fn = sp.Func(name)
				} else if t, ok := sp.Members[h.recv].(*ssa.Type); ok {
					fn = p.method(t.Type().(*types.Named), name)
				}
				if fn == nil || fn.Blocks == nil {
					r.Units["entry points not found"]++
					continue
				}
				asked, bad, accepted, steps := h.simulate(p, fn)
				r.Units["states "+h.pkg+" "+p.GOOS] += steps
				c := shortFn(fn) + " (" + p.GOOS + "): " + h.name
				switch {
				case h.right:
					r.check(accepted, h.rule+", valid", c, p.at(fn.Pos()), "a valid header is always refused")
				case len(bad) > 0:
					r.bad(h.rule, c, p.at(fn.Pos()), "the header is accepted", bad...)
				case asked:
					r.ok(h.rule, c, p.at(fn.Pos()))
				default:
					r.Units["headers nothing was seen to look at "+p.GOOS]++
					r.Notes = append(r.Notes, "not looked at: "+c)
				}
			}
		}
	})
	r.floor("superblock", 40)
	r.floor("inode", 10)
}

func init() {
	register(&Check{ID: "R05", Level: "other", Rule: "Constant propagation of malformed headers: one field of an otherwise valid header is a wrong constant, every operation succeeds, and every way out of the function that reads it, after it was looked at, must be an error; valid constants must leave a way to success.", Run: runR05})
}
