package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The creation functions, simulated for a source whose entries all have one type: what happens to each
// entry, in every iteration of every loop over the entries.
//
// Ghosts: "+loops" the loops that are running, "+ev L" what has happened in the current iteration of L,
// "+broke L" the loop was left from within, "+srcread" content of a source file was read in this iteration.

type storeLoop struct {
	name, where string
	all         map[string]bool // what has happened in all completed iterations (nil: none completed)
	some        map[string]bool // in some
	missing     map[string][]string
	broke       []string
	outer       bool
	entries     bool // over directory entries
}

type storeFacts struct {
	p     *Program
	x     *Esp
	loops map[string]*storeLoop
	bad   map[string][]string
	okay  int // outcomes without an error
}

// overEntries reports whether a loop looks at the elements of a list of directory entries.
func overEntries(l *espLoop) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if s, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					if n := namedOf(s.Elem()); n != nil && n.Obj().Name() == "DirEntry" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io/fs" {
						return true
					}
				}
			}
		}
	}
	return false
}

// overLiteral reports whether a loop looks at the elements of an array literal: a list of steps, not of entries.
func overLiteral(l *espLoop) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if _, fixed := ia.Index.(*ssa.Const); fixed {
					continue // an argument list
				}
				base := ia.X
				if s, ok := base.(*ssa.Slice); ok {
					base = s.X
				}
				if a, ok := base.(*ssa.Alloc); ok {
					if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func (f *storeFacts) active(st *EState) []string {
	if st.ghost["+loops"] == "" {
		return nil
	}
	return strings.Split(st.ghost["+loops"], "|")
}

func (f *storeFacts) event(st *EState, ev string) {
	for _, l := range f.active(st) {
		st.ghost["+ev "+l] = unionList(st.ghost["+ev "+l], ev)
	}
}

// judge looks at an iteration of a loop that is complete.
func (f *storeFacts) judge(st *EState, l string) {
	lp := f.loops[l]
	evs := map[string]bool{}
	for _, e := range strings.Split(st.ghost["+ev "+l], "|") {
		if e != "" {
			evs[e] = true
			lp.some[e] = true
		}
	}
	if lp.all == nil {
		lp.all = map[string]bool{}
		for e := range evs {
			lp.all[e] = true
		}
	}
	for e := range evs {
		if _, ok := lp.all[e]; !ok {
			lp.all[e] = false // not in the earlier iterations
			if lp.missing[e] == nil {
				lp.missing[e] = []string{}
			}
		}
	}
	for e := range lp.all {
		if !evs[e] && lp.all[e] {
			lp.all[e] = false
			lp.missing[e] = st.path()
		}
	}
}

func (f *storeFacts) begin(st *EState, l string) {
	act := f.active(st)
	if !inList(st.ghost["+loops"], l) {
		act = append(act, l)
		st.ghost["+loops"] = strings.Join(act, "|")
	}
	delete(st.ghost, "+ev "+l)
	delete(st.ghost, "+srcread")
}

func (f *storeFacts) end(st *EState, l string) {
	var rest []string
	for _, o := range f.active(st) {
		if o != l {
			rest = append(rest, o)
		}
	}
	delete(st.ghost, "+ev "+l)
	st.ghost["+loops"] = strings.Join(rest, "|")
	if len(rest) == 0 {
		delete(st.ghost, "+loops")
	}
}

func (f *storeFacts) loop(name, where string, outer, entries bool) *storeLoop {
	lp := f.loops[name]
	if lp == nil {
		lp = &storeLoop{name: name, where: where, some: map[string]bool{}, missing: map[string][]string{}, outer: outer, entries: entries}
		f.loops[name] = lp
	}
	return lp
}

// simulateStore runs Create of a package for a source of entries of one type.
func simulateStore(p *Program, pkg string, k fileKind, inline bool) *storeFacts {
	fn := p.SPkgs[modPath+"/"+pkg].Func("Create")
	if fn == nil || fn.Blocks == nil {
		panic("package " + pkg + " has no function Create")
	}
	f := &storeFacts{p: p, loops: map[string]*storeLoop{}, bad: map[string][]string{}}
	w := newWorld(k, 0, 0644)
	x := newEsp(p)
	f.x = x
	x.limit = 3000000
	x.mergeAt = 24
	w.hook(x, nil)
	call := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		switch {
		case c.name == "io.ReadAll", c.name == "io.ReadFull", c.name == "io/fs.ReadFile", c.method == "Read", c.method == "ReadFile":
			st.ghost["+srcread"] = "1"
		}
		if wr, ok := isDataWrite(c); ok && !memoryWriter(wr) {
			ev := "header"
			switch {
			case c.name == "io.Copy" || c.name == "io.CopyN" || c.name == "io.CopyBuffer" || c.method == "ReadFrom":
				ev = "content"
			case c.name == "encoding/binary.Write":
			case st.ghost["+srcread"] != "":
				ev = "content"
			}
			f.event(st, ev)
		}
		if c.name == "(*archive/tar.Writer).WriteHeader" {
			f.event(st, "header")
			if len(c.args) == 2 {
				if cell, ok := x.cellOf(c.args[1]); ok && c.args[1].sym != "" {
					n := x.loadCell(st, sub(cell, "Name"), types.Typ[types.String])
					if n.k == avSym && n.sym == strings.TrimPrefix(cell, "s:")+"->Name" && st.ghost["+hdr "+c.args[1].sym] != "" {
						f.bad["name"] = append(st.path(), "the header has the name that archive/tar gave it: the last element of the path only")
					}
				}
			}
		}
		if c.name == "archive/tar.FileInfoHeader" && len(c.args) == 2 {
			if k.mode == fmSymlink && c.args[1].k == avStr && c.args[1].str == "" {
				f.bad["link target"] = append(st.path(), "the header of a symbolic link is made without its target")
			}
			outs, ok := call(x, fr, st, c)
			for _, o := range outs {
				if v := o.res; v.k == avTuple && len(v.el) == 2 && v.el[0].sym != "" {
					o.st.ghost["+hdr "+v.el[0].sym] = "1"
				}
			}
			return outs, ok
		}
		return call(x, fr, st, c)
	}
	x.instr = func(x *Esp, fr *EFrame, st *EState, in ssa.Instruction) {
		switch u := in.(type) {
		case *ssa.MapUpdate:
			f.event(st, "map:"+u.Map.Type().String())
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				f.event(st, "append:"+u.Type().String())
			}
		}
	}
	field := x.field
	x.field = func(st *EState, owner types.Type, fv *types.Var) (AV, bool) {
		if n := namedOf(owner); pkg == "erofs" && n != nil && inModuleType(owner) && isBasic(fv.Type(), types.Uint16) && strings.EqualFold(fv.Name(), "format") {
			if inline {
				return avUint(2 << 1), true
			}
			return avUint(0), true
		}
		return field(st, owner, fv)
	}
	x.loop = func(fr *EFrame, st *EState, l *espLoop, ev string) {
		if overLiteral(l) {
			return
		}
		name := fr.pre + l.name()
		switch ev {
		case "iter":
			lp := f.loop(name, p.at(l.head.Instrs[0].Pos()), len(f.active(st)) == 0 || inList(st.ghost["+loops"], name) && f.active(st)[0] == name, overEntries(l))
			if lp.where == "" {
				lp.where = shortFn(l.fn)
			}
			if inList(st.ghost["+loops"], name) {
				f.judge(st, name)
			}
			f.begin(st, name)
		case "exit":
			if inList(st.ghost["+loops"], name) {
				f.judge(st, name)
				f.end(st, name)
			}
		case "break":
			if inList(st.ghost["+loops"], name) {
				f.end(st, name)
				st.ghost["+broke "+name] = "1"
			}
		}
	}
	const walk = "the walk over the source"
	x.entry = func(s *EState) []walkCall {
		f.loop(walk, "", true, true)
		f.begin(s, walk)
		delete(s.ghost, "+root")
		return []walkCall{{s, []AV{sym("walk.path"), {k: avNonNil, sym: "walk.entry"}, {k: avNil}}}}
	}
	x.eq = func(st *EState, a, b AV) {
		if a.k == avStr {
			a, b = b, a
		}
		if strings.HasPrefix(a.sym, "walk.") && b.k == avStr && b.str == "." {
			st.ghost["+root"] = "1" // the root itself
		}
	}
	isSize := func(v AV) bool {
		low := strings.ToLower(v.sym)
		return strings.HasSuffix(low, "size") || strings.HasSuffix(low, "size()")
	}
	x.learned = func(st *EState, a, b AV, r int) {
		if isSize(b) {
			a, b, r = b, a, flipRel(r)
		}
		if n, ok := intOf(b); ok && isSize(a) && (n == 0 && r&4 == 0 || n == 1 && r == 1) {
			f.event(st, "content") // there is nothing to copy
		}
	}
	x.walked = func(st *EState, args []AV) {
		if pkg == "erofs" || st.ghost["+root"] == "" {
			f.judge(st, walk)
		}
		f.end(st, walk)
	}
	for _, o := range x.Entry(fn, nil) {
		if certainError(x, o.st, errorOf(x, fn, o)) {
			continue
		}
		f.okay++
		for g := range o.st.ghost {
			if strings.HasPrefix(g, "+broke ") {
				if lp := f.loops[strings.TrimPrefix(g, "+broke ")]; lp != nil {
					lp.broke = o.st.path()
				}
			}
		}
		if o.st.ghost["+skipped"] != "" {
			if lp := f.loops[walk]; lp != nil {
				lp.broke = append(o.st.path(), "the walk is told to skip")
			}
		}
	}
	return f
}

func runW02(env *Env, r *Result) {
	stored := map[string][]string{
		"arfs":  {"regular file"},
		"tarfs": {"regular file", "directory", "symbolic link", "character device", "block device", "named pipe"},
		"erofs": {"regular file", "directory", "symbolic link"},
	}
	kinds := map[string]fileKind{}
	for _, k := range fileKinds {
		kinds[k.name] = k
	}
	env.each(func(p *Program) {
		for _, pkg := range creators {
			for _, kn := range stored[pkg] {
				for _, inline := range []bool{false, true} {
					if inline && pkg != "erofs" {
						continue
					}
					f := simulateStore(p, pkg, kinds[kn], inline)
					name := pkg + ": " + kn
					if pkg == "erofs" {
						name += map[bool]string{false: ", data in blocks", true: ", data inline"}[inline]
					}
					name += " (" + p.GOOS + ")"
					r.Units["states "+pkg+" "+p.GOOS] += f.x.steps
					need := []string{"header"}
					if kn == "regular file" || pkg == "erofs" {
						need = append(need, "content")
					}
					var names []string
					for n := range f.loops {
						names = append(names, n)
					}
					sort.Strings(names)
					if espDebug == "W02" {
						for _, n := range names {
							lp := f.loops[n]
							fmt.Println(name, n, "outer", lp.outer, "entries", lp.entries, "all", lp.all, "broke", lp.broke != nil)
						}
					}
					for _, ev := range need {
						found, seen := false, false
						var path []string
						at := ""
						for _, n := range names {
							lp := f.loops[n]
							if !lp.outer || lp.all == nil {
								continue
							}
							if lp.all[ev] && lp.broke == nil {
								found = true
							}
							if lp.some[ev] {
								seen = true
								at = lp.where
								path = lp.missing[ev]
								if lp.broke != nil {
									path = lp.broke
								}
							}
						}
						msg := "no loop over the entries writes the " + ev + " of every entry: one can be left out"
						if !seen {
							msg = "the " + ev + " of an entry is never written"
						}
						if found {
							r.ok(ev+" of every entry", name, "")
						} else {
							r.bad(ev+" of every entry", name, at, msg, path...)
						}
					}
					for _, rule := range []string{"name", "link target"} {
						if path, bad := f.bad[rule]; bad {
							r.bad(rule, name, "", path[len(path)-1], path...)
						} else if pkg == "tarfs" {
							r.ok(rule, name, "")
						}
					}
					for _, n := range names {
						lp := f.loops[n]
						if lp.all == nil || !lp.outer && !lp.entries {
							continue
						}
						for _, ev := range keysOf(lp.some) {
							if !strings.HasPrefix(ev, "map:") && !(strings.HasPrefix(ev, "append:") && lp.entries) {
								continue
							}
							c := name + ": " + shortLoop(n) + ": " + relType(ev)
							if lp.all[ev] {
								r.ok("every entry recorded", c, lp.where)
							} else {
								r.bad("every entry recorded", c, lp.where, "what is recorded for one entry can be left out for another of the same type", lp.missing[ev]...)
							}
						}
						if lp.entries && lp.broke != nil {
							r.bad("no early end", name+": "+shortLoop(n), lp.where, "the loop over the entries can end early although no error is reported", lp.broke...)
						} else if lp.entries {
							r.ok("no early end", name+": "+shortLoop(n), lp.where)
						}
					}
				}
			}
		}
	})
	r.floor("header of every entry", 8)
	r.floor("content of every entry", 4)
}

func shortLoop(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 && !strings.Contains(n[i:], ")") {
		n = n[i+1:]
	}
	if i := strings.LastIndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	return n
}

func relType(ev string) string { return strings.ReplaceAll(ev, modPath+"/", "") }

func init() {
	register(&Check{ID: "W02", Level: "other", Rule: "Property simulation of the creation functions for a source whose entries all have one type, with every operation succeeding: for every loop over the entries, what is written and recorded is collected per iteration. " +
		"There must be a loop that writes the header (inode) in every completed iteration, and one that copies the content; what a loop over the entries records for one entry it records for all, and no such loop is left early on a path to success.", Run: runW02})
}

// intOf is the value of a known number.
func intOf(v AV) (int64, bool) {
	if v.k == avBits && v.mask == ^uint64(0) {
		return int64(v.val), true
	}
	return 0, false
}
