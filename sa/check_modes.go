package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant propagation of file modes: every entry type, and every combination of permission and
// special bits that the conversions treat apart, is sent through the code as a constant.

const (
	fmDir       = 1 << 31
	fmSymlink   = 1 << 27
	fmDevice    = 1 << 26
	fmNamedPipe = 1 << 25
	fmSocket    = 1 << 24
	fmSetuid    = 1 << 23
	fmSetgid    = 1 << 22
	fmChar      = 1 << 21
	fmSticky    = 1 << 20
	fmIrregular = 1 << 19
)

type fileKind struct {
	name string
	mode uint64 // type bits of fs.FileMode
	sif  uint64 // S_IFMT bits, 0: none
	ft   uint64 // EROFS directory entry type
	flag uint64 // tar type flag, 0: none
}

var fileKinds = []fileKind{
	{"regular file", 0, 0100000, 1, '0'},
	{"directory", fmDir, 040000, 2, '5'},
	{"character device", fmDevice | fmChar, 020000, 3, '3'},
	{"block device", fmDevice, 060000, 4, '4'},
	{"named pipe", fmNamedPipe, 010000, 5, '6'},
	{"socket", fmSocket, 0140000, 6, 0},
	{"symbolic link", fmSymlink, 0120000, 7, '2'},
}

var specialBits = []struct{ mode, unix uint64 }{{fmSetuid, 04000}, {fmSetgid, 02000}, {fmSticky, 01000}}

// world answers every question about the type of an entry consistently.
type world struct {
	kind fileKind
	mode uint64 // full fs.FileMode
	unix uint64 // full mode_t
	used bool
}

func newWorld(k fileKind, special int, perm uint64) *world {
	w := &world{kind: k, mode: k.mode | perm, unix: k.sif | perm}
	for i, s := range specialBits {
		if special>>i&1 == 1 {
			w.mode |= s.mode
			w.unix |= s.unix
		}
	}
	return w
}

func avUint(n uint64) AV { return AV{k: avBits, mask: ^uint64(0), val: n} }

func isFileMode(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "FileMode" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io/fs"
}

func isBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// hook makes the simulation see the world. The mode is asked of file infos and directory entries; it is
// also what the fields of an opened archive hold: the mode of an ar entry, the type flag of a tar header,
// the mode of an EROFS inode, the type of an EROFS directory entry.
func (w *world) hook(x *Esp, st *EState) {
	x.deep = true
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		one := func(v AV) ([]EOutcome, bool) {
			st.ghost["+asked"] = "1"
			w.used = true
			return []EOutcome{{st, v}}, true
		}
		switch c.name {
		case "invoke FileInfo.Mode", "(*archive/tar.headerFileInfo).Mode", "(archive/tar.headerFileInfo).Mode":
			return one(avUint(w.mode))
		case "invoke DirEntry.Type":
			return one(avUint(w.kind.mode))
		case "invoke DirEntry.IsDir", "invoke FileInfo.IsDir":
			return one(avBool(w.kind.mode == fmDir))
		case "archive/tar.FileInfoHeader":
			ei := errIndex(c.sig)
			if ei >= 0 && (w.kind.mode&(fmSocket|fmIrregular) != 0) {
				st.ghost["+asked"] = "1"
				return []EOutcome{{st, setRes(x.results(fr, st, c), ei, c.sig.Results().Len(), AV{k: avNonNil})}}, true
			}
		case "errors.New", "fmt.Errorf", "errors.Is", "errors.Join", "errors.Unwrap", "errors.As", "io/fs.WalkDir", "(*sync.Once).Do":
			return nil, false
		}
		if strings.HasPrefix(c.name, "recursive ") {
			return nil, false
		}
		// nothing fails
		if ei := errIndex(c.sig); ei >= 0 && !strings.HasPrefix(c.name, "errors.") {
			for _, a := range c.args {
				if (a.k == avPtr || a.k == avSlice && strings.Contains(c.method, "Read")) && !strings.HasPrefix(a.cell, "g:") {
					x.havoc(st, a.cell, fr.pre+callTag(c.in))
				}
			}
			r := x.results(fr, st, c)
			return []EOutcome{{st, setRes(r, ei, c.sig.Results().Len(), AV{k: avNil})}}, true
		}
		return nil, false
	}
	x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
		n := namedOf(owner)
		if n == nil || n.Obj().Pkg() == nil {
			return AV{}, false
		}
		one := func(v AV) (AV, bool) {
			st.ghost["+asked"] = "1"
			w.used = true
			return v, true
		}
		pkg := n.Obj().Pkg().Path()
		switch {
		case pkg == "archive/tar" && f.Name() == "Typeflag" && w.kind.flag != 0:
			return one(avUint(w.kind.flag))
		case pkg == modPath+"/arfs" && isFileMode(f.Type()):
			return one(avUint(w.mode))
		case pkg == modPath+"/erofs" && isBasic(f.Type(), types.Uint16) && strings.EqualFold(f.Name(), "mode"):
			st.ghost["+ondisk"] = "1"
			return one(avUint(w.unix))
		case pkg == modPath+"/erofs" && isBasic(f.Type(), types.Uint8) && (n.Obj().Name() == "Dirent" && f.Name() == "FileType" || implementsDirEntry(n)):
			return one(avUint(w.kind.ft))
		case inModulePath(pkg) && isErrorType(f.Type()):
			return AV{k: avNil}, true
		}
		return AV{}, false
	}
}

func implementsDirEntry(n *types.Named) bool { return hasMethods(n, "Name", "IsDir", "Type", "Info") }
func implementsInfo(n *types.Named) bool {
	return hasMethods(n, "Name", "Size", "Mode", "ModTime", "IsDir", "Sys")
}

func hasMethods(n *types.Named, names ...string) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	for _, m := range names {
		if ms.Lookup(n.Obj().Pkg(), m) == nil {
			return false
		}
	}
	return true
}

// method finds the function behind an exported method of a named type.
func (p *Program) method(n *types.Named, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(n))
	sel := ms.Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	fn := p.Prog.MethodValue(sel)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	return fn
}

// moduleTypes lists the named types of the library with the given methods.
func moduleTypes(p *Program, want func(n *types.Named) bool) []*types.Named {
	var out []*types.Named
	for _, path := range keysOf(p.SPkgs) {
		sp := p.SPkgs[path]
		if !inModulePath(path) || strings.Contains(path, "/internal/") {
			continue
		}
		for _, m := range keysOf(sp.Members) {
			t, ok := sp.Members[m].(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
				continue
			}
			if want(n) {
				out = append(out, n)
			}
		}
	}
	return out
}

// first is the first result of an outcome.
func (x *Esp) first(o EOutcome) AV {
	v := o.res
	if v.k == avTuple && len(v.el) > 0 {
		v = v.el[0]
	}
	return x.norm(o.st, v)
}

// asked runs a function in a world and returns the known values of its first result.
func (w *world) results(p *Program, fn *ssa.Function, r *Result) (vals []AV) {
	x := newEsp(p)
	x.limit = 300000
	w.hook(x, nil)
	cmp := w.comparisons(x)
	for _, o := range x.Entry(fn, nil) {
		v := x.first(o)
		if v.k == avSym && o.st.ghost["+asked"] != "" && cmp[v.sym] {
			// the type was asked for, and something else decides
			vals = append(vals, avTrue, avFalse)
		}
		vals = append(vals, v)
	}
	return vals
}

// comparisons records the results of comparing other fields of the receiver with constants.
func (w *world) comparisons(x *Esp) map[string]bool {
	cmp := map[string]bool{}
	x.after = func(fr *EFrame, st *EState, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || !isBoolType(b.Type()) {
			return
		}
		r := x.rawEval(fr, st, b)
		if r.k != avSym {
			return
		}
		own := func(v AV) bool {
			return v.k != avSym && v.k != avNonNil || strings.Contains(v.sym, "->") && !strings.HasPrefix(v.sym, "g:")
		}
		if own(x.eval(fr, st, b.X)) && own(x.eval(fr, st, b.Y)) {
			cmp[r.sym] = true
		}
	}
	return cmp
}

// infoMode runs a function that returns a file info and then asks that for its mode and whether it is a directory.
func (w *world) ofInfo(p *Program, fn *ssa.Function, ask string) (vals []AV) {
	x := newEsp(p)
	x.limit = 300000
	w.hook(x, nil)
	for _, o := range x.Entry(fn, nil) {
		fi := x.first(o)
		if ei := errIndex(fn.Signature); ei >= 0 && o.res.k == avTuple {
			if e := x.norm(o.st, o.res.el[ei]); certainError(x, o.st, e) {
				continue
			}
		}
		vals = append(vals, x.callMethod(o.st, fi, ask, w)...)
	}
	return vals
}

// callMethod calls a method of an interface value after a simulation.
func (x *Esp) callMethod(st *EState, recv AV, name string, w *world) []AV {
	if recv.dyn == nil {
		// a file info made by someone else tells the truth
		if name == "IsDir" {
			return []AV{avBool(w.kind.mode == fmDir)}
		}
		return []AV{avUint(w.mode)}
	}
	sel := x.p.Prog.MethodSets.MethodSet(recv.dyn).Lookup(nil, name)
	if sel == nil {
		return []AV{{}}
	}
	fn := x.p.Prog.MethodValue(sel)
	if fn == nil || fn.Blocks == nil || !(inModule(fn) || x.p.wrapsModule(fn)) {
		return []AV{{}}
	}
	fr := &EFrame{fn: fn, pre: "then/", keep: map[string]bool{}}
	s := st.clone()
	s.env = map[ssa.Value]AV{}
	r := recv
	r.dyn = nil
	s.env[fn.Params[0]] = r
	var out []AV
	for _, o := range x.Run(fr, s) {
		out = append(out, x.first(o))
	}
	return out
}

func kindsFor(pkg string) []fileKind {
	var out []fileKind
	for _, k := range fileKinds {
		switch {
		case strings.HasSuffix(pkg, "/tarfs") && k.name != "regular file" && k.name != "directory" && k.name != "symbolic link":
			continue // refused when the archive is opened
		case strings.HasSuffix(pkg, "/memfs") && k.name != "regular file" && k.name != "directory":
			continue
		}
		out = append(out, k)
	}
	return out
}

func runR12(env *Env, r *Result) {
	env.each(func(p *Program) {
		judge := func(n *types.Named, what, where string, k fileKind, vals []AV, mask, want uint64) {
			name := relName(n.Obj().Pkg()) + "." + n.Obj().Name() + ": " + what + " of a " + k.name
			if len(vals) == 0 {
				return
			}
			bad := ""
			known := false
			for _, v := range vals {
				if v.k != avBits || v.mask&mask == 0 {
					continue
				}
				known = true
				if (v.val^want)&v.mask&mask != 0 {
					bad = fmt.Sprintf("gives %#o instead of %#o", v.val&v.mask&mask, want&v.mask&mask)
				}
			}
			if !known {
				r.Units["answers that do not follow from the stored type ("+p.GOOS+")"]++
				return
			}
			r.check(bad == "", "same type everywhere", name, where, what+" "+bad)
		}
		for _, n := range moduleTypes(p, func(n *types.Named) bool { return implementsDirEntry(n) || implementsInfo(n) }) {
			for _, k := range kindsFor(n.Obj().Pkg().Path()) {
				for _, flag := range flagsOf(n.Obj().Pkg().Path(), k) {
					k.flag = flag
					mk := func() *world { return newWorld(k, 0, 0640) }
					if implementsDirEntry(n) {
						if fn := p.method(n, "Type"); fn != nil {
							judge(n, "Type", p.at(fn.Pos()), k, mk().results(p, fn, r), espModeType, k.mode)
						}
						if fn := p.method(n, "Info"); fn != nil {
							judge(n, "Info, then Mode", p.at(fn.Pos()), k, mk().ofInfo(p, fn, "Mode"), espModeType, k.mode)
							judge(n, "Info, then IsDir", p.at(fn.Pos()), k, mk().ofInfo(p, fn, "IsDir"), ^uint64(0), b2u(k.mode == fmDir))
						}
					} else if fn := p.method(n, "Mode"); fn != nil && !strings.HasSuffix(n.Obj().Pkg().Path(), "/memfs") {
						judge(n, "Mode", p.at(fn.Pos()), k, mk().results(p, fn, r), espModeType, k.mode)
					}
					if fn := p.method(n, "IsDir"); fn != nil && !(strings.HasSuffix(n.Obj().Pkg().Path(), "/memfs") && !implementsDirEntry(n)) {
						judge(n, "IsDir", p.at(fn.Pos()), k, mk().results(p, fn, r), ^uint64(0), b2u(k.mode == fmDir))
					}
				}
			}
		}
		// an open file that can list entries describes itself as a directory
		for _, n := range moduleTypes(p, func(n *types.Named) bool { return hasMethods(n, "Stat", "Read", "Close", "ReadDir") }) {
			fn := p.method(n, "Stat")
			if fn == nil || fn.Signature.Params().Len() != 0 {
				continue // a file system
			}
			dir := fileKinds[1]
			judge(n, "Stat, then Mode", p.at(fn.Pos()), dir, newWorld(dir, 0, 0).ofInfo(p, fn, "Mode"), fmDir|fmSymlink, fmDir)
			judge(n, "Stat, then IsDir", p.at(fn.Pos()), dir, newWorld(dir, 0, 0).ofInfo(p, fn, "IsDir"), ^uint64(0), 1)
		}
		r.Units["types "+p.GOOS] = len(moduleTypes(p, func(n *types.Named) bool { return implementsDirEntry(n) || implementsInfo(n) }))
	})
	r.floor("same type everywhere", 20)
}

// flagsOf lists the tar type flags of a kind of entry.
func flagsOf(pkg string, k fileKind) []uint64 {
	if strings.HasSuffix(pkg, "/tarfs") && k.name == "regular file" {
		return []uint64{'0', 'S'}
	}
	return []uint64{k.flag}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var permPatterns = []uint64{0, 0777, 0400, 0200, 0100, 040, 020, 010, 04, 02, 01, 0644, 0755}

func runW09(env *Env, r *Result) {
	env.each(func(p *Program) {
		sp := p.SPkgs[modPath+"/erofs"]
		t, ok := sp.Members["Inode"].(*ssa.Type)
		if !ok {
			panic("no type erofs.Inode")
		}
		inode := t.Type().(*types.Named)
		mode := p.method(inode, "Mode")
		if mode == nil {
			panic("no method (*erofs.Inode).Mode")
		}
		preds := map[string]string{"IsRegular": "regular file", "IsDir": "directory", "IsCharDev": "character device", "IsBlockDev": "block device", "IsFIFO": "named pipe", "IsSocket": "socket", "IsSymlink": "symbolic link"}
		n := 0
		for _, k := range fileKinds {
			for s := 0; s < 8; s++ {
				bad := ""
				for _, perm := range permPatterns {
					w := newWorld(k, s, perm)
					n++
					for _, v := range w.results(p, mode, r) {
						if v.k == avBits && (v.val^w.mode)&v.mask&0xffffffff != 0 {
							bad = fmt.Sprintf("stored mode %#o is read as %#o, want %#o", w.unix, v.val, w.mode)
						}
					}
				}
				r.check(bad == "", "mode read", fmt.Sprintf("%s, special bits %03b (%s)", k.name, s, p.GOOS), p.at(mode.Pos()), bad)
			}
			for _, m := range keysOf(preds) {
				fn := p.method(inode, m)
				if fn == nil {
					continue
				}
				bad := ""
				for _, s := range []int{0, 7} {
					for _, v := range newWorld(k, s, 0777).results(p, fn, r) {
						if v.k == avBits && v.mask == ^uint64(0) && (v.val == 1) != (preds[m] == k.name) {
							bad = fmt.Sprintf("%s answers %v for a %s", m, v.val == 1, k.name)
						}
					}
				}
				r.check(bad == "", "type test", m+" of a "+k.name+" ("+p.GOOS+")", p.at(fn.Pos()), bad)
			}
		}
		// writing
		writers, entryWriters := modeWriters(p, "Mode"), modeWriters(p, "FileType")
		r.Units["functions that make inodes or directory entries "+p.GOOS] = len(writers) + len(entryWriters)
		for _, k := range fileKinds {
			for s := 0; s < 8; s++ {
				bad, where, seen := "", "", 0
				for _, perm := range permPatterns {
					w := newWorld(k, s, perm)
					for _, fn := range writers {
						obs := w.observe(p, fn)
						n++
						for _, o := range obs {
							if o.field != "Mode" {
								continue
							}
							seen++
							if o.val != w.unix {
								bad, where = fmt.Sprintf("mode %#o is stored as %#o, want %#o", w.mode, o.val, w.unix), o.where
							}
						}
					}
				}
				if seen > 0 {
					r.check(bad == "", "mode written", fmt.Sprintf("%s, special bits %03b (%s)", k.name, s, p.GOOS), where, bad)
				} else {
					r.Units["modes whose way into the inode was not recognised "+p.GOOS]++
				}
			}
			w := newWorld(k, 0, 0)
			bad, where, seen, right := "", "", 0, false
			for _, fn := range entryWriters {
				for _, o := range w.observe(p, fn) {
					if o.field != "FileType" {
						continue
					}
					seen++
					if o.val == k.ft {
						right = true
					} else if o.val != 2 {
						bad, where = fmt.Sprintf("the directory entry of a %s is given type %d, want %d", k.name, o.val, k.ft), o.where
					}
				}
			}
			if seen > 0 {
				if bad == "" && !right {
					bad = fmt.Sprintf("no directory entry of a %s is given type %d", k.name, k.ft)
				}
				r.check(bad == "", "entry type written", k.name+" ("+p.GOOS+")", where, bad)
			}
		}
		r.Units["conversions simulated "+p.GOOS] = n
	})
	r.floor("mode read", 100)
	r.floor("type test", 40)
}

// modeWriters lists the functions that learn the mode of a source entry from a parameter or by asking, and
// that reach a place where an on-disk inode or directory entry is made.
func modeWriters(p *Program, field string) []*ssa.Function {
	makes := map[*ssa.Function]bool{}
	asks := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) != modPath+"/erofs" || fn.Synthetic != "" {
			continue
		}
		fns = append(fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && onDiskModeField(fa.X.Type(), fa.Field) == field {
					for _, ref := range *fa.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == fa {
							makes[fn] = true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					switch "invoke " + recvTypeName(ci.Common().Value.Type()) + "." + ci.Common().Method.Name() {
					case "invoke FileInfo.Mode", "invoke DirEntry.Type", "invoke FileInfo.IsDir", "invoke DirEntry.IsDir":
						asks[fn] = true
					}
				}
			}
		}
	}
	reach := func(seed map[*ssa.Function]bool) map[*ssa.Function]bool {
		out := map[*ssa.Function]bool{}
		for f := range seed {
			out[f] = true
		}
		for ch := true; ch; {
			ch = false
			for _, fn := range fns {
				if out[fn] {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						ci, ok := in.(ssa.CallInstruction)
						if !ok {
							continue
						}
						if g := ci.Common().StaticCallee(); g != nil && out[g] && !out[fn] {
							out[fn] = true
							ch = true
						}
					}
				}
			}
		}
		return out
	}
	m, a := reach(makes), reach(asks)
	var out []*ssa.Function
	for _, fn := range fns {
		if !m[fn] || !a[fn] {
			continue
		}
		// the innermost function that sees both: a caller adds nothing
		inner := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g != fn && m[g] && a[g] {
						inner = true
					}
				}
			}
		}
		if inner && !makes[fn] {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// onDiskModeField names the field of an on-disk structure that holds a type.
func onDiskModeField(t types.Type, i int) string {
	n := namedOf(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		n = namedOf(p.Elem())
	}
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/erofs" {
		return ""
	}
	f := fieldVar(t, i)
	switch {
	case n.Obj().Name() == "Dirent" && f.Name() == "FileType":
		return "FileType"
	case (n.Obj().Name() == "InodeCompact" || n.Obj().Name() == "InodeExtended") && f.Name() == "Mode":
		return "Mode"
	}
	return ""
}

type modeObs struct {
	field string
	val   uint64
	where string
}

var obsCache = map[string][]modeObs{}

// observe runs a function in a world and returns what it stores as a type into on-disk structures.
func (w *world) observe(p *Program, fn *ssa.Function) []modeObs {
	key := fmt.Sprintf("%s %p %x", p.GOOS, fn, w.mode)
	if o, ok := obsCache[key]; ok {
		return o
	}
	x := newEsp(p)
	x.limit = 200000
	x.mergeAt = 24
	w.hook(x, nil)
	field := x.field
	x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
		n := namedOf(owner)
		if n != nil && (n.Obj().Name() == "InodeCompact" || n.Obj().Name() == "InodeExtended" || n.Obj().Name() == "Dirent") {
			return AV{}, false
		}
		return field(st, owner, f)
	}
	seen := map[modeObs]bool{}
	x.after = func(fr *EFrame, st *EState, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		f := onDiskModeField(fa.X.Type(), fa.Field)
		if f == "" || st.ghost["+asked"] == "" {
			return
		}
		if v := x.eval(fr, st, s.Val); v.k == avBits && v.mask&0xffff == 0xffff {
			seen[modeObs{f, v.val & 0xffff, p.at(s.Pos())}] = true
		}
	}
	func() {
		defer func() { recover() }()
		x.Entry(fn, nil)
	}()
	var out []modeObs
	for o := range seen {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].field+out[i].where < out[j].field+out[j].where || out[i].field+out[i].where == out[j].field+out[j].where && out[i].val < out[j].val
	})
	obsCache[key] = out
	return out
}

func runW13(env *Env, r *Result) {
	supported := map[string]map[string]bool{
		"arfs":  {"regular file": true},
		"tarfs": {"regular file": true, "directory": true, "symbolic link": true, "character device": true, "block device": true, "named pipe": true},
		"erofs": {"regular file": true, "directory": true, "symbolic link": true},
	}
	env.each(func(p *Program) {
		for _, pkg := range creators {
			fn := p.SPkgs[modPath+"/"+pkg].Func("Create")
			if fn == nil || fn.Blocks == nil {
				panic("package " + pkg + " has no function Create")
			}
			kinds := append([]fileKind(nil), fileKinds...)
			if pkg != "erofs" {
				kinds = append(kinds, fileKind{"irregular file", fmIrregular, 0, 0, 0})
			}
			for _, k := range kinds {
				if supported[pkg][k.name] && espDebug != "W13" {
					continue
				}
				w := newWorld(k, 0, 0644)
				x := newEsp(p)
				x.limit = 1500000
				x.mergeAt = 24
				w.hook(x, nil)
				x.effect = func(fr *EFrame, st *EState, kind string) {
					if kind == "map" || kind == "append" {
						st.ghost["+stored"] = "1"
					}
				}
				var path []string
				bad := false
				asked := false
				for _, o := range x.Entry(fn, nil) {
					if espDebug == "W13" {
						fmt.Println(pkg, k.name, o.st.ghost, o.res.key())
					}
					if o.st.ghost["+asked"] == "" {
						continue
					}
					asked = true
					if pkg == "erofs" && o.st.ghost["+stored"] != "" && o.st.ghost["+ondisk"] == "" {
						continue // the entry was recorded, and not one of the loops over the recorded entries has run
					}
					e := errorOf(x, fn, o)
					if !certainError(x, o.st, e) {
						bad = true
						path = o.st.path()
					}
				}
				r.Units["states "+pkg+" "+p.GOOS] += x.steps
				name := pkg + ": " + k.name + " (" + p.GOOS + ")"
				if !asked {
					// Create does not even look
					r.bad("refused", name, p.at(fn.Pos()), "Create never asks for the type of an entry")
					continue
				}
				if bad {
					r.bad("refused", name, p.at(fn.Pos()), "Create can report success although the source has an entry of this type", path...)
				} else {
					r.ok("refused", name, p.at(fn.Pos()))
				}
			}
		}
	})
	r.floor("refused", 10)
}

func init() {
	register(&Check{ID: "R12", Level: "other", Rule: "Constant propagation: for every type of entry that an archive can hold, the value that stores it (the mode of an ar entry, the type flag of a tar header, the mode and entry type of EROFS) is a constant, and Type, IsDir, Info().Mode and Info().IsDir of every directory entry and file info of the library are evaluated; their type bits must be those of that type.", Run: runR12})
	register(&Check{ID: "W09", Level: "other", Rule: "Constant propagation of every entry type with every combination of set-uid, set-gid and sticky and each permission bit through the conversions of the EROFS reader and writer; the result must be the same mode, and the directory entry must get the type of its inode.", Run: runW09})
	register(&Check{ID: "W13", Level: "other", Rule: "Constant propagation of every entry type that a format cannot hold through the function that writes it, with nothing failing: every way out after the type of an entry was asked for must be an error.", Run: runW13})
}
