package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which inode an entry of a written directory leads to: the code that makes the entries is followed for the directory
// at a constant path and an entry with a constant name and type. The inode numbers are looked up in tables of paths; each
// number is named after the path it was looked up with, and must be the one that belongs to the name.

type pointFacts struct {
	bad   map[string][]string // by what is wrong: a path
	good  int
	vague int
}

const inodeOf = "inode of <"

// entryMakers are the functions below Create that list a directory of the source and make entries.
func entryMakers(p *Program, rel map[*ssa.Function]bool) []*ssa.Function {
	makes := func(fn *ssa.Function) bool {
		for g := range reached(p, fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok {
						t := a.Type().Underlying().(*types.Pointer).Elem()
						if at, ok := t.Underlying().(*types.Array); ok {
							t = at.Elem()
						}
						if isDirentOrHas(t) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	lists := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && extName(f) == "io/fs.ReadDir" {
						return true
					}
					if c.Call.IsInvoke() && c.Call.Method.Name() == "ReadDir" {
						return true
					}
				}
			}
		}
		return false
	}
	var out []*ssa.Function
	for fn := range rel {
		if fn.Parent() == nil && lists(fn) && makes(fn) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// simulateEntries follows a function that makes the entries of the directory at dir, which has entries of one name and type.
func simulateEntries(p *Program, fn *ssa.Function, dir, name string, mode uint64, wantType int) *pointFacts {
	f := &pointFacts{bad: map[string][]string{}}
	x := newEsp(p)
	x.deep = true
	x.limit = 400000
	x.mergeAt = 24
	want := map[string]string{".": dir, "..": path.Dir(dir), name: path.Join(dir, name)}
	type entry struct{ nid, typ string }
	record := func(st *EState, what, v string) {
		g := "+list " + what
		l := st.ghost[g]
		if inList(l, v) {
			return
		}
		if l != "" {
			l += "|"
		}
		st.ghost[g] = l + v
		ns, es := strings.Split(st.ghost["+list n"], "|"), strings.Split(st.ghost["+list e"], "|")
		if len(ns) != len(es) || ns[0] == "" || es[0] == "" {
			return
		}
		k := len(ns) - 1
		parts := strings.SplitN(es[k], "\x00", 2)
		n, nid, typ := ns[k], parts[0], parts[1]
		exp := inodeOf + want[n] + ">"
		switch {
		case n == ".." && dir == ".":
			f.good++ // the parent of the root may be anything that exists
		case strings.Contains(nid, exp):
			f.good++
		case strings.Contains(nid, inodeOf):
			got := nid[strings.Index(nid, inodeOf)+len(inodeOf):]
			got = got[:strings.Index(got, ">")]
			f.bad[fmt.Sprintf("in the directory \"%s\" the entry \"%s\" leads to the inode of \"%s\"", dir, n, got)] = append(st.path(), "the entry is made")
		case strings.HasPrefix(nid, "number "):
			f.bad[fmt.Sprintf("in the directory \"%s\" the entry \"%s\" always has the inode %s", dir, n, nid)] = append(st.path(), "the entry is made")
		default:
			f.vague++
		}
		wt := fmt.Sprintf("number %d", wantType)
		if n == "." || n == ".." {
			wt = "number 2"
		}
		switch {
		case typ == wt:
			f.good++
		case strings.HasPrefix(typ, "number "):
			f.bad[fmt.Sprintf("in the directory \"%s\" the entry \"%s\", whose type has the %s, is given %s", dir, n, wt, typ)] = append(st.path(), "the entry is made")
		default:
			f.vague++
		}
	}
	show := func(v AV) string {
		if n, ok := intOf(v); ok && !isTerm(v) {
			return fmt.Sprintf("number %d", n)
		}
		if v.sym != "" {
			return "the value " + v.sym
		}
		return "something"
	}
	x.look = func(x *Esp, fr *EFrame, st *EState, in *ssa.Lookup, m AV) []EOutcome {
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok || !isText(mt.Key()) {
			return nil
		}
		k := x.eval(fr, st, in.Index)
		if k.k != avStr {
			return nil
		}
		v := sym(inodeOf + k.str + ">")
		if types.IsInterface(mt.Elem()) || pointerLike(mt.Elem()) {
			v = AV{k: avNonNil, sym: v.sym}
		}
		if in.CommaOk {
			v = AV{k: avTuple, el: []AV{v, avTrue}}
		}
		return []EOutcome{{st, v}}
	}
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		one := func(v AV) ([]EOutcome, bool) { return []EOutcome{{st, v}}, true }
		switch c.name {
		case "invoke DirEntry.Name", "invoke FileInfo.Name":
			return one(AV{k: avStr, str: name})
		case "invoke DirEntry.Type", "invoke FileInfo.Mode":
			return one(avUint(mode))
		case "invoke DirEntry.IsDir", "invoke FileInfo.IsDir":
			return one(avBool(mode == 1<<31))
		case "(io/fs.FileMode).Type", "(io/fs.FileMode).IsDir", "(io/fs.FileMode).IsRegular", "(io/fs.FileMode).Perm":
			if n, ok := intOf(c.recv); ok {
				c.args = []AV{avUint(uint64(n))}
			}
			if len(c.args) == 1 {
				if n, ok := intOf(c.args[0]); ok {
					const typeBits = 0x8f280000
					switch c.name {
					case "(io/fs.FileMode).Type":
						return one(avUint(uint64(n) & typeBits))
					case "(io/fs.FileMode).IsDir":
						return one(avBool(n&(1<<31) != 0))
					case "(io/fs.FileMode).IsRegular":
						return one(avBool(n&typeBits == 0))
					default:
						return one(avUint(uint64(n) & 0777))
					}
				}
			}
		case "path.Join", "path/filepath.Join":
			if len(c.args) == 1 && c.args[0].k == avSlice && c.args[0].mask == ^uint64(0) {
				var parts []string
				for i := uint64(0); i < c.args[0].val; i++ {
					v := x.loadCell(st, sub(c.args[0].cell, fmt.Sprintf("[%d]", i)), types.Typ[types.String])
					if v.k != avStr {
						return nil, false
					}
					parts = append(parts, v.str)
				}
				return one(AV{k: avStr, str: path.Join(parts...)})
			}
		case "errors.New", "fmt.Errorf", "errors.Is", "errors.Join", "errors.Unwrap", "errors.As":
			return nil, false
		}
		if v, ok := foldText(c); ok {
			return one(v)
		}
		if ei := errIndex(c.sig); ei >= 0 && !strings.HasPrefix(c.name, "recursive ") {
			for _, a := range c.args {
				if a.k == avPtr && !strings.HasPrefix(a.cell, "g:") {
					x.havoc(st, a.cell, fr.pre+callTag(c.in))
				}
			}
			return []EOutcome{{st, setRes(x.results(fr, st, c), ei, c.sig.Results().Len(), AV{k: avNil})}}, true
		}
		return nil, false
	}
	var entryAt func(st *EState, cell string, t types.Type)
	entryAt = func(st *EState, cell string, t types.Type) {
		if isDirent(t) {
			nid := x.loadCell(st, sub(cell, "Nid"), types.Typ[types.Uint64])
			typ := x.loadCell(st, sub(cell, "FileType"), types.Typ[types.Uint8])
			record(st, "e", show(nid)+"\x00"+show(typ))
			return
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			if isText(fd.Type()) {
				if v := x.loadCell(st, sub(cell, fd.Name()), types.Typ[types.String]); v.k == avStr {
					if _, ok := want[v.str]; ok {
						record(st, "n", v.str)
					}
				}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if isDirent(s.Field(i).Type()) {
				entryAt(st, sub(cell, s.Field(i).Name()), s.Field(i).Type())
			}
		}
	}
	x.instr = func(x *Esp, fr *EFrame, st *EState, in ssa.Instruction) {
		s, ok := in.(*ssa.Slice)
		if !ok {
			return
		}
		pt, ok := s.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		at, ok := pt.Elem().Underlying().(*types.Array)
		if !ok || at.Len() > 4 {
			return
		}
		a := x.eval(fr, st, s.X)
		if a.k != avPtr {
			return
		}
		for i := int64(0); i < at.Len(); i++ {
			cell := sub(a.cell, fmt.Sprintf("[%d]", i))
			switch {
			case isText(at.Elem()):
				if v := x.loadCell(st, cell, types.Typ[types.String]); v.k == avStr {
					if _, ok := want[v.str]; ok && onlyAppended(s) {
						record(st, "n", v.str)
					}
				}
			case isDirentOrHas(at.Elem()):
				entryAt(st, cell, at.Elem())
			}
		}
	}
	x.Entry(fn, func(fr *EFrame, st *EState) {
		for _, p := range fn.Params {
			if isText(p.Type()) {
				st.env[p] = AV{k: avStr, str: dir}
			}
		}
	})
	return f
}

// onlyAppended: a list of names, rather than the arguments of something else.
func onlyAppended(s *ssa.Slice) bool {
	for _, r := range *s.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if b, isB := c.Call.Value.(*ssa.Builtin); !isB || b.Name() != "append" {
				if f := c.Call.StaticCallee(); f == nil || !inModule(f) {
					return false
				}
			}
		}
	}
	return true
}

func runW07(env *Env, r *Result) {
	env.each(func(p *Program) {
		if p.GOOS == "windows" {
			return // names are joined with path/filepath, see DESIGN.md
		}
		pkg := p.SPkgs[modPath+"/erofs"]
		if pkg == nil || pkg.Func("Create") == nil {
			return
		}
		fns := entryMakers(p, reached(p, pkg.Func("Create")))
		if len(fns) == 0 {
			r.Units["functions that make entries are not recognised "+p.GOOS]++
			return
		}
		types := []struct {
			what string
			mode uint64
			ft   int
		}{{"regular file", 0, 1}, {"directory", 1 << 31, 2}, {"symbolic link", 1 << 27, 7}}
		for _, fn := range fns {
			for i, at := range []struct{ dir, name string }{{".", "c"}, {"a", "c"}, {"a/b", "c"}, {".", ".c"}, {"a", " c"}, {"a", "c "}, {"a", "..c"}, {"a", "C.TXT"}, {"a", "a"}, {"a", "c-d_e"}} {
				dir := at.dir
				for _, k := range types {
					if i > 2 && k.ft != 1 {
						continue
					}
					func() {
						what := fmt.Sprintf("%s: %s in \"%s\"", shortFn(fn), k.what, dir)
						if at.name != "c" {
							what += fmt.Sprintf(", \"%s\"", at.name)
						}
						defer func() {
							if x := recover(); x != nil {
								env.gaveUp(what, x)
							}
						}()
						f := simulateEntries(p, fn, dir, at.name, k.mode, k.ft)
						for _, m := range keysOf2(f.bad) {
							r.bad("entries", what, p.at(fn.Pos()), m, f.bad[m]...)
						}
						if len(f.bad) == 0 && f.good > 0 {
							r.ok("entries", what, p.at(fn.Pos()))
						}
						if f.vague > 0 || f.good == 0 {
							r.Units["entries that are not followed "+p.GOOS] += 1
						}
					}()
				}
			}
		}
	})
}

func keysOf2(m map[string][]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() {
	register(&Check{ID: "W07", Level: "other", Rule: "Entries of images: in a property simulation of the functions that make directory entries, for directories at constant paths, the number of each entry is the one looked up for the path that its name has " +
		"(\".\": the directory, \"..\": its parent), and its type is that of the entry of the source.", Run: runW07})
}
