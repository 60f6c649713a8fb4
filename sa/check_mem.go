package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The operations of the in-memory file system, simulated with every answer a directory can give.

type memWorld struct {
	p       *Program
	fs      *types.Named
	dirType types.Type   // what a directory map holds for a directory
	files   []types.Type // and for everything else
}

// newMemWorld finds out what the directory maps of the package hold.
func newMemWorld(p *Program) *memWorld {
	sp := p.SPkgs[modPath+"/memfs"]
	t, ok := sp.Members["FS"].(*ssa.Type)
	if !ok {
		panic("no type memfs.FS")
	}
	w := &memWorld{p: p, fs: t.Type().(*types.Named)}
	held := map[string]types.Type{}
	maps := map[string]types.Type{}
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) != modPath+"/memfs" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				v := u.Value
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if !types.IsInterface(v.Type()) {
					held[v.Type().String()] = v.Type()
					maps[u.Map.Type().String()] = u.Map.Type()
				}
			}
		}
	}
	for _, k := range keysOf(held) {
		t := held[k]
		isDir := false
		if n := namedOf(t); n != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok && types.IsInterface(m.Elem()) {
							isDir = true
						}
					}
				}
			}
		}
		if isDir && w.dirType == nil {
			w.dirType = t
		} else {
			w.files = append(w.files, t)
		}
	}
	return w
}

func (w *memWorld) known() bool { return w.dirType != nil && len(w.files) > 0 }

// simulation prepares an interpreter in which every directory lookup can find nothing, a directory, or a file.
// Ghosts: "+found" the kinds found so far, "+look" the last lookup, "+valid"/"+invalid" the answer of ValidPath,
// "+put" a directory was changed.
func (w *memWorld) simulation(put func(fr *EFrame, st *EState, in *ssa.MapUpdate, look []string)) *Esp {
	x := newEsp(w.p)
	x.limit = 1000000
	x.deep = true
	x.mergeAt = 64
	x.look = func(x *Esp, fr *EFrame, st *EState, in *ssa.Lookup, m AV) []EOutcome {
		mt := in.X.Type().Underlying().(*types.Map)
		if !types.IsInterface(mt.Elem()) {
			return nil
		}
		key := x.eval(fr, st, in.Index)
		id := fr.pre + in.Name()
		var outs []EOutcome
		add := func(kind string, v AV) {
			s := st.clone()
			s.ghost["+look"] = strings.Join([]string{kind, m.sym, key.key(), id}, "\x00")
			s.ghost["+found"] = unionList(s.ghost["+found"], kind)
			if in.CommaOk {
				v = AV{k: avTuple, el: []AV{v, avBool(kind != "nothing")}}
			}
			outs = append(outs, EOutcome{s, v})
		}
		add("nothing", AV{k: avNil})
		for i, t := range append([]types.Type{w.dirType}, w.files...) {
			kind := "directory"
			if i > 0 {
				kind = "file"
			}
			add(kind, AV{k: avNonNil, sym: id, dyn: t})
		}
		return outs
	}
	x.instr = func(x *Esp, fr *EFrame, st *EState, in ssa.Instruction) {
		u, ok := in.(*ssa.MapUpdate)
		if !ok || !types.IsInterface(u.Map.Type().Underlying().(*types.Map).Elem()) {
			return
		}
		st.ghost["+put"] = "1"
		if put == nil {
			return
		}
		m, key := x.eval(fr, st, u.Map), x.eval(fr, st, u.Key)
		l := strings.Split(st.ghost["+look"], "\x00")
		if len(l) == 4 && m.sym != "" && l[1] == m.sym && l[2] == key.key() {
			put(fr, st, u, l)
		} else if m.sym != "" && !strings.HasPrefix(m.sym, "old") {
			put(fr, st, u, nil)
		}
	}
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		if c.name == "delete" {
			st.ghost["+put"] = "1"
		}
		if c.name == "io/fs.ValidPath" {
			bad := st.clone()
			if c.args[0].sym != "" {
				if st.ghost["+valid "+c.args[0].sym] != "" {
					return []EOutcome{{st, avTrue}}, true
				}
				st.ghost["+valid "+c.args[0].sym] = "1"
				bad.ghost["+invalid "+c.args[0].sym] = "1"
			}
			return []EOutcome{{st, avTrue}, {bad, avFalse}}, true
		}
		return nil, false
	}
	return x
}

// modeField is the value of the field of the given type in the object v points to.
func (x *Esp) fieldOfType(st *EState, v AV, want func(t types.Type) bool) (AV, bool) {
	t := v.dyn
	if t == nil {
		return AV{}, false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return AV{}, false
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return AV{}, false
	}
	cell, ok := x.cellOf(v)
	if !ok {
		return AV{}, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if want(s.Field(i).Type()) {
			return x.loadCell(st, sub(cell, s.Field(i).Name()), s.Field(i).Type()), true
		}
	}
	return AV{}, false
}

func fieldNameOfType(t types.Type, want func(t types.Type) bool) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if want(s.Field(i).Type()) {
					return s.Field(i).Name()
				}
			}
		}
	}
	return ""
}

func paramOf(fn *ssa.Function, want func(t types.Type) bool) *ssa.Parameter {
	for i, q := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if want(q.Type()) {
			return q
		}
	}
	return nil
}

func runM04(env *Env, r *Result) {
	env.each(func(p *Program) {
		w := newMemWorld(p)
		for i := 0; i < w.fs.NumMethods(); i++ {
			m := w.fs.Method(i)
			if !m.Exported() {
				continue
			}
			fn := p.method(w.fs, m.Name())
			if fn == nil || errIndex(fn.Signature) < 0 {
				continue
			}
			q := paramOf(fn, isString)
			if q == nil {
				continue
			}
			if !w.known() {
				r.Units["operations not recognised"]++
				continue
			}
			x := w.simulation(nil)
			name, at := "FS."+m.Name()+" ("+p.GOOS+")", p.at(fn.Pos())
			var accepted, kind, changed []string
			okA, okK, okC, refused := true, true, true, 0
			for _, o := range x.Entry(fn, nil) {
				e := errorOf(x, fn, o)
				bad := o.st.ghost["+invalid "+q.Name()] != ""
				if bad {
					refused++
					tags, _ := x.wraps(o.st, e)
					if !certainError(x, o.st, e) {
						okA, accepted = false, o.st.path()
					} else if !inList(tags, "io/fs.ErrInvalid") {
						okK, kind = false, o.st.path()
					}
				}
				if !certainError(x, o.st, e) && o.st.ghost["+valid "+q.Name()] == "" {
					okA, accepted = false, append(o.st.path(), "the name was not checked with fs.ValidPath")
				}
				if o.st.ghost["+put"] != "" && o.st.ghost["+valid "+q.Name()] == "" {
					okC, changed = false, append(o.st.path(), "the name was not checked with fs.ValidPath")
				}
			}
			rep := func(ok bool, rule, msg string, path []string) {
				if ok {
					r.ok(rule, name, at)
				} else {
					r.bad(rule, name, at, msg, path...)
				}
			}
			rep(okA, "invalid name refused", "a name that is not a valid path can be accepted", accepted)
			rep(okK, "invalid name error", "the error for an invalid name does not wrap fs.ErrInvalid", kind)
			rep(okC, "no change", "the tree can be changed for an invalid name", changed)
			r.Units["states "+p.GOOS] += x.steps
			r.Units["outcomes for invalid names "+p.GOOS] += refused
		}
	})
	r.floor("invalid name refused", 4)
}

func runM05(env *Env, r *Result) {
	env.each(func(p *Program) {
		w := newMemWorld(p)
		if !w.known() {
			r.Units["directory maps not recognised"]++
			return
		}
		type verdict struct {
			ok   bool
			msg  string
			path []string
			at   string
		}
		judge := func(name string, rules map[string]string, put func(x *Esp, fr *EFrame, st *EState, u *ssa.MapUpdate, look []string, fail func(rule, msg string)), end func(x *Esp, fn *ssa.Function, o EOutcome, fail func(rule, msg string))) {
			fn := p.method(w.fs, name)
			if fn == nil {
				panic("no method (*memfs.FS)." + name)
			}
			v := map[string]*verdict{}
			for rule := range rules {
				v[rule] = &verdict{ok: true}
			}
			puts := 0
			var x *Esp
			x = w.simulation(func(fr *EFrame, st *EState, u *ssa.MapUpdate, look []string) {
				puts++
				if put != nil {
					put(x, fr, st, u, look, func(rule, msg string) {
						if v[rule].ok {
							*v[rule] = verdict{false, msg, st.path(), p.at(u.Pos())}
						}
					})
				}
			})
			for _, o := range x.Entry(fn, nil) {
				if end != nil {
					end(x, fn, o, func(rule, msg string) {
						if v[rule].ok {
							*v[rule] = verdict{false, msg, o.st.path(), p.at(fn.Pos())}
						}
					})
				}
			}
			for rule := range rules {
				c := "FS." + name + " (" + p.GOOS + ")"
				if v[rule].ok {
					r.ok(rule, c, p.at(fn.Pos()))
				} else {
					r.bad(rule, c, v[rule].at, v[rule].msg, v[rule].path...)
				}
			}
			r.Units["states "+p.GOOS] += x.steps
			r.Units["directory updates "+p.GOOS] += puts
		}
		value := func(x *Esp, fr *EFrame, st *EState, u *ssa.MapUpdate) AV { return x.eval(fr, st, u.Value) }
		isDir := func(v AV) bool { return v.dyn != nil && types.Identical(v.dyn, w.dirType) }
		// writing a file
		judge("WriteFile", map[string]string{"directory kept": "", "permissions": "", "success means written": "", "one change": ""},
			func(x *Esp, fr *EFrame, st *EState, u *ssa.MapUpdate, look []string, fail func(rule, msg string)) {
				if st.ghost["+puts"] != "" {
					fail("one change", "more than one directory entry is changed")
				}
				st.ghost["+puts"] = "1"
				if look == nil {
					fail("directory kept", "an entry is replaced without looking at what is there: it may be a directory")
					return
				}
				if look[0] == "directory" {
					fail("directory kept", "an existing directory is replaced")
				}
				v := value(x, fr, st, u)
				mode, ok := x.fieldOfType(st, v, isFileMode)
				if !ok {
					return
				}
				perm := paramOf(x.top(fr).fn, isFileMode)
				if perm == nil {
					return
				}
				want := perm.Name()
				if look[0] == "file" {
					f := fieldNameOfType(w.files[0], isFileMode)
					if f == "" {
						return
					}
					want = look[3] + "->" + f
				}
				got := mode.sym
				if got == want || strings.HasPrefix(got, want+".") || mode.k == avBits && got == "" && mode.mask != ^uint64(0) {
					return
				}
				if mode.k == avSym && got != perm.Name() && !strings.Contains(got, "->") {
					return // computed: not judged
				}
				if look[0] == "file" {
					fail("permissions", "overwriting a file changes its permissions")
				} else {
					fail("permissions", "a new file does not get the permissions that were asked for")
				}
			},
			func(x *Esp, fn *ssa.Function, o EOutcome, fail func(rule, msg string)) {
				if !certainError(x, o.st, errorOf(x, fn, o)) && o.st.ghost["+put"] == "" {
					fail("success means written", "success is reported although nothing was stored")
				}
			})
		// making directories
		judge("MkdirAll", map[string]string{"nothing replaced": "", "file in the way": "", "new directory": ""},
			func(x *Esp, fr *EFrame, st *EState, u *ssa.MapUpdate, look []string, fail func(rule, msg string)) {
				if look == nil {
					fail("nothing replaced", "an entry is stored without looking at what is there")
				} else if look[0] != "nothing" {
					fail("nothing replaced", "an existing "+look[0]+" is replaced")
				}
				v := value(x, fr, st, u)
				if v.dyn != nil && !isDir(v) {
					fail("new directory", "something other than a directory is stored")
				}
				if m, ok := x.fieldOfType(st, v, func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }); ok && m.k == avNil {
					fail("new directory", "the new directory has no map for its entries: the next write panics")
				}
				if mode, ok := x.fieldOfType(st, v, isFileMode); ok {
					if perm := paramOf(x.top(fr).fn, isFileMode); perm != nil && mode.k == avBits && mode.mask == ^uint64(0) {
						fail("new directory", fmt.Sprintf("the new directory gets mode %#o, not the permissions that were asked for", mode.val))
					}
				}
			},
			func(x *Esp, fn *ssa.Function, o EOutcome, fail func(rule, msg string)) {
				if !certainError(x, o.st, errorOf(x, fn, o)) && inList(o.st.ghost["+found"], "file") {
					fail("file in the way", "success is reported although a file is in the way")
				}
			})
		// looking at the tree does not change it
		for _, n := range []string{"Open", "Sub"} {
			judge(n, map[string]string{"reads only": "", "missing": ""}, func(x *Esp, fr *EFrame, st *EState, u *ssa.MapUpdate, look []string, fail func(rule, msg string)) {
				fail("reads only", "looking at the tree changes it")
			}, func(x *Esp, fn *ssa.Function, o EOutcome, fail func(rule, msg string)) {
				e := errorOf(x, fn, o)
				if inList(o.st.ghost["+found"], "nothing") {
					if !certainError(x, o.st, e) {
						fail("missing", "success is reported although a name does not exist")
					} else if t, _ := x.wraps(o.st, e); !inList(t, "io/fs.ErrNotExist") {
						fail("missing", "the error for a name that does not exist does not wrap fs.ErrNotExist")
					}
				}
			})
		}
	})
	r.floor("directory kept", 1)
	r.floor("nothing replaced", 1)
	r.floor("missing", 1)
}

// top is the outermost frame.
func (x *Esp) top(fr *EFrame) *EFrame {
	for fr.up != nil {
		fr = fr.up
	}
	return fr
}

func runM06(env *Env, r *Result) {
	env.each(func(p *Program) {
		w := newMemWorld(p)
		open := p.method(w.fs, "Open")
		if open == nil {
			panic("no method (*memfs.FS).Open")
		}
		if !w.known() {
			r.Units["directory maps not recognised"]++
			return
		}
		x := w.simulation(nil)
		handles := 0
		seen := map[string]bool{}
		for _, o := range x.Entry(open, nil) {
			if certainError(x, o.st, errorOf(x, open, o)) {
				continue
			}
			h := x.first(o)
			if h.dyn == nil {
				continue
			}
			if p.Prog.MethodSets.MethodSet(h.dyn).Lookup(nil, "ReadDir") != nil {
				continue // a directory
			}
			handles++
			var judge func(st *EState, before string, depth int)
			judge = func(st *EState, before string, depth int) {
				for _, m := range []string{"Read", "Stat", "Close"} {
					bad := ""
					var path []string
					outs := x.method(st, h, m)
					for _, o2 := range outs {
						e := x.norm(o2.st, o2.res.el2())
						t, _ := x.wraps(o2.st, e)
						if !certainError(x, o2.st, e) {
							bad, path = m+" succeeds, or may succeed, on a closed file"+before, o2.st.path()
						} else if !inList(t, "io/fs.ErrClosed") {
							bad, path = "the error of "+m+" on a closed file does not wrap fs.ErrClosed"+before, o2.st.path()
						}
					}
					name := relName(h.dynPkg()) + types.TypeString(h.dyn, func(*types.Package) string { return "" }) + "." + m + before + " (" + p.GOOS + ")"
					if bad != "" {
						r.bad("closed", name, "", bad, path...)
						continue
					} else if !seen[name] {
						r.ok("closed", name, "")
					}
					seen[name] = true
					if depth > 0 {
						for _, o2 := range outs {
							judge(o2.st, before+" after "+m, depth-1)
						}
					}
				}
			}
			for _, st := range x.after1(o.st, h, "Close") {
				judge(st, "", 2)
			}
		}
		r.Units["handles "+p.GOOS] = handles
		r.Units["states "+p.GOOS] = x.steps
	})
	r.floor("closed", 3)
}

// el2 is the last result of a call.
func (v AV) el2() AV {
	if v.k == avTuple && len(v.el) > 0 {
		return v.el[len(v.el)-1]
	}
	return v
}

func (v AV) dynPkg() *types.Package {
	if n := namedOf(v.dyn); n != nil {
		return n.Obj().Pkg()
	}
	if p, ok := v.dyn.Underlying().(*types.Pointer); ok {
		if n := namedOf(p.Elem()); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

// method runs a method of an interface value in a state.
func (x *Esp) method(st *EState, recv AV, name string) []EOutcome {
	sel := x.p.Prog.MethodSets.MethodSet(recv.dyn).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	fn := x.p.Prog.MethodValue(sel)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	fr := &EFrame{fn: fn, pre: "then " + name + "/", keep: map[string]bool{}}
	s := st.clone()
	s.env = map[ssa.Value]AV{}
	r := recv
	r.dyn = nil
	s.env[fn.Params[0]] = r
	for _, q := range fn.Params[1:] {
		s.env[q] = sym(fr.pre + q.Name())
	}
	symsOf(r, func(y string) { fr.keep[y] = true }, func(c string) { fr.keep["c:"+c] = true })
	return x.Run(fr, s)
}

// after1 runs a method that has to succeed and returns the states after it.
func (x *Esp) after1(st *EState, recv AV, name string) []*EState {
	var out []*EState
	for _, o := range x.method(st, recv, name) {
		e := AV{k: avNil}
		if o.res.k == avTuple && len(o.res.el) > 0 {
			e = x.norm(o.st, o.res.el2())
		}
		if !certainError(x, o.st, e) {
			out = append(out, o.st)
		}
	}
	return out
}

func init() {
	register(&Check{ID: "M04", Level: "other", Rule: "Property simulation of every exported operation of the in-memory file system that takes a name, with fs.ValidPath answering false: each such path ends in an error wrapping fs.ErrInvalid with no directory changed, and no path succeeds or changes a directory unless fs.ValidPath has accepted the name.", Run: runM04})
	register(&Check{ID: "M05", Level: "other", Rule: "Property simulation of the operations of the in-memory file system in which every directory lookup can find nothing, a directory or a file: what a directory map is changed to is compared with what was found there, along every path.", Run: runM05})
	register(&Check{ID: "M06", Level: "other", Rule: "Typestate (open, closed) of file handles of the in-memory file system: Open, Close and then Read, Stat or Close are simulated one after the other; each path must end in an error wrapping fs.ErrClosed.", Run: runM06})
}
