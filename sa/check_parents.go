package main

// R14: directories that a tar archive has an entry for keep that entry.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// headerOf is the type of the entries that carry a tar header, and the index of the field with it.
func headerField(t types.Type) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Type()
		if p, ok := f.(*types.Pointer); ok {
			f = p.Elem()
		}
		if f.String() == "archive/tar.Header" {
			return i
		}
	}
	return -1
}

// entryOrigin says where the header of an entry comes from: "own" (copied as a whole), "made up" (a literal whose type is constant) or "".
func entryOrigin(p *Program, v ssa.Value, depth int) string {
	if depth == 0 {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Phi:
		out := ""
		for i, e := range v.Edges {
			if o := entryOrigin(p, e, depth-1); i > 0 && o != out {
				return ""
			} else {
				out = o
			}
		}
		return out
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || !inModule(g) || g.Blocks == nil {
			return ""
		}
		out := ""
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				o := entryOrigin(p, r.Results[0], depth-1)
				if out != "" && o != out {
					return ""
				}
				out = o
			}
		}
		return out
	case *ssa.Alloc:
		hi := headerField(v.Type())
		if hi < 0 {
			return ""
		}
		out := ""
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == v {
					out = "own" // a copy of another entry
				}
			case *ssa.FieldAddr:
				if u.Field != hi {
					continue
				}
				out = headerOrigin(u, 4)
			}
		}
		return out
	}
	return ""
}

// headerOrigin is how the header at an address is filled in.
func headerOrigin(a ssa.Value, depth int) (res string) {
	if depth == 0 {
		return ""
	}
	out := ""
	set := map[string]bool{}
	copied := false
	defer func() {
		// a header that is put together from the one that was read
		if out == "" && copied && res == "" && set["Typeflag"] && (!set["Mode"] || !set["Uid"] || !set["Gid"] || !set["ModTime"]) {
			res = "partial"
		}
	}()
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != a {
				continue
			}
			switch val := u.Val.(type) {
			case *ssa.Alloc: // a pointer to a header
				return headerOrigin(val, depth-1)
			case *ssa.UnOp:
				if val.Op != token.MUL {
					return ""
				}
				if src, ok := val.X.(*ssa.Alloc); ok {
					return headerOrigin(src, depth-1)
				}
				return "own"
			case *ssa.Const:
			case *ssa.Parameter, *ssa.Extract:
				return "own"
			default:
				return ""
			}
		case *ssa.FieldAddr:
			for _, w := range *u.Referrers() {
				s, ok := w.(*ssa.Store)
				if ok && s.Addr == u {
					_, f, _ := strings.Cut(fieldKey(u), "tar.Header.")
					set[f] = true
					if _, isC := s.Val.(*ssa.Const); !isC && f == "Typeflag" {
						copied = true
					}
				}
				if !ok || s.Addr != u || fieldKey(u) != "archive/tar.Header.Typeflag" {
					continue
				}
				if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					out = "made up"
				}
			}
		}
	}
	return out
}

func tarEntryMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isEntryMap(t) && headerField(m.Elem()) >= 0
}

func runR14(env *Env, r *Result) {
	env.each(func(p *Program) {
		for _, fn := range readerEntries(p, "tarfs", func(fn *ssa.Function) bool {
			return fn.Signature.Recv() == nil && hasErrorResult(fn)
		}) {
			name := shortFn(fn) + " (" + p.GOOS + ")"
			madeUp, own, nexts, shown := 0, 0, 0, map[string]bool{}
			bad := func(rule, at, msg string, st *EState) {
				if !shown[rule+at] {
					shown[rule+at] = true
					var path []string
					if st != nil {
						path = st.path()
					}
					r.bad(rule, name, at, msg, path...)
				}
			}
			x := newEsp(p)
			x.deep = true
			x.limit = 400000
			x.mergeAt = 24
			x.look = func(x *Esp, fr *EFrame, st *EState, in *ssa.Lookup, m AV) []EOutcome {
				mt, ok := in.X.Type().Underlying().(*types.Map)
				if !ok || !isBasic(mt.Key(), types.String) {
					return nil
				}
				if st.ghost["+entry"] == "" {
					return nil
				}
				v := x.fresh(fr, st, in)
				if pointerLike(mt.Elem()) {
					v = AV{k: avNonNil, sym: v.sym}
				} else if isBasic(mt.Elem(), types.Bool) {
					v = avTrue
				}
				if in.CommaOk {
					v = AV{k: avTuple, el: []AV{v, avTrue}}
				}
				return []EOutcome{{st, v}}
			}
			x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
				if owner.String() == "archive/tar.Header" && f.Name() == "Typeflag" {
					return truncAV(avUint('5'), f.Type()), true
				}
				return AV{}, false
			}
			x.bin = func(x *Esp, fr *EFrame, st *EState, in *ssa.BinOp, a, b AV) (AV, bool) {
				if in.Op != token.EQL && in.Op != token.NEQ {
					if l := lenOfText(in.X); l && b.k == avBits && b.val == 0 {
						return avBool(in.Op == token.GTR), in.Op == token.GTR || in.Op == token.LEQ
					}
					return AV{}, false
				}
				// no junk entries
				if b.k == avStr && b.str == "" && a.k != avStr || a.k == avStr && a.str == "" && b.k != avStr || lenOfText(in.X) && b.k == avBits && b.val == 0 && b.mask == ^uint64(0) {
					return avBool(in.Op == token.NEQ), true
				}
				return AV{}, false
			}
			call := x.call
			x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
				if c.name == "(*archive/tar.Reader).Next" {
					nexts++
					if st.ghost["+entry"] != "" && st.ghost["+stored"] == "" {
						bad("own entry", p.at(c.in.Pos()), "the entry of a directory is passed over: its metadata is lost", st)
					}
					end := st.clone()
					delete(end.ghost, "+entry")
					end.ghost["+end"] = "1"
					ei, n := errIndex(c.sig), c.sig.Results().Len()
					last := setRes(x.results(fr, end, c), ei, n, AV{k: avNonNil, tags: "io.EOF", sym: "io.EOF"})
					st.ghost["+entry"] = "1"
					delete(st.ghost, "+stored")
					return []EOutcome{{end, last}, {st, setRes(x.results(fr, st, c), ei, n, AV{k: avNil})}}, true
				}
				if call != nil {
					return call(x, fr, st, c)
				}
				return nil, false
			}
			x.instr = func(x *Esp, fr *EFrame, st *EState, in ssa.Instruction) {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !tarEntryMap(mu.Map.Type()) || st.ghost["+entry"] == "" {
					return
				}
				switch entryOrigin(p, mu.Value, 6) {
				case "made up":
					madeUp++
					bad("made up entry", p.at(mu.Pos()), "an entry that was made up for a parent directory replaces the one that the archive has for it", st)
				case "partial":
					bad("own entry", p.at(mu.Pos()), "only a part of the metadata that the archive has for an entry is kept", st)
					fallthrough
				default:
					own++
					st.ghost["+stored"] = "1"
				}
			}
			x.Entry(fn, nil)
			if nexts > 0 {
				for g := range p.below(fn) {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							s, ok := in.(*ssa.Store)
							if !ok || !keptFields[fieldKey(s.Addr)] {
								continue
							}
							base := s.Addr.(*ssa.FieldAddr).X
							if fa, ok := base.(*ssa.FieldAddr); ok {
								base = fa.X
							}
							if _, fresh := base.(*ssa.Alloc); !fresh {
								bad("own entry", p.at(s.Pos()), "metadata of an entry is changed after it was read: "+strings.TrimPrefix(fieldKey(s.Addr), "archive/tar.Header."), nil)
							}
						}
					}
				}
			}
			if nexts == 0 {
				continue
			}
			r.Units["states "+p.GOOS] += x.steps
			if own == 0 {
				r.Notes = append(r.Notes, name+": how entries are stored was not recognised")
				continue
			}
			if len(shown) == 0 {
				r.ok("made up entry", name, p.at(fn.Pos()))
				r.ok("own entry", name, p.at(fn.Pos()))
			}
		}
	})
}

func lenOfText(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && isBasic(c.Call.Args[0].Type(), types.String)
}

func init() {
	register(&Check{ID: "R14", Level: "other", Rule: "Path-sensitive typestate over the function that opens a tar archive, in the world where the archive has entries of its own for all directories: no entry that is made up for a parent directory (a literal header) is stored under a name that is already there, and every header that was read is stored before the next one is.", Run: runR14})
}

var keptFields = set("archive/tar.Header.Mode", "archive/tar.Header.Uid", "archive/tar.Header.Gid", "archive/tar.Header.ModTime", "archive/tar.Header.Uname", "archive/tar.Header.Gname", "archive/tar.Header.AccessTime", "archive/tar.Header.ChangeTime")

// below are the functions of the module that fn calls, directly or not.
func (p *Program) below(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || out[g] || !inModule(g) {
			return
		}
		out[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case ssa.CallInstruction:
					walk(i.Common().StaticCallee())
				case *ssa.MakeClosure:
					walk(i.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(fn)
	return out
}
