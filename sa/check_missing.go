package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the readers answer about names: lookups that find nothing, links that are none, failures that are
// something else.

// fsMethods lists the operations of the file systems of a package that take a name.
func fsMethods(p *Program, pkg string) []*ssa.Function {
	return readerEntries(p, pkg, func(fn *ssa.Function) bool {
		recv := fn.Signature.Recv()
		if recv == nil || !hasErrorResult(fn) || fn.Signature.Params().Len() != 1 || !isBasic(fn.Signature.Params().At(0).Type(), types.String) {
			return false
		}
		n := namedOf(recv.Type())
		return n != nil && hasMethods(n, "Open")
	})
}

// isEntryMap reports whether a map leads from names to entries.
func isEntryMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isBasic(m.Key(), types.String) {
		return false
	}
	return inModuleType(m.Elem())
}

// missing makes every lookup find nothing (or something).
func missing(x *Esp, find bool) {
	ev := "+missed"
	if find {
		ev = "+found"
	}
	x.look = func(x *Esp, fr *EFrame, st *EState, in *ssa.Lookup, m AV) []EOutcome {
		if !isEntryMap(in.X.Type()) {
			return nil
		}
		st.ghost[ev] = "1"
		et := in.X.Type().Underlying().(*types.Map).Elem()
		v := zeroAV(et)
		if find {
			v = x.fresh(fr, st, in)
			if pointerLike(et) {
				v = AV{k: avNonNil, sym: v.sym}
			}
		}
		if in.CommaOk {
			v = AV{k: avTuple, el: []AV{v, avBool(find)}}
		}
		return []EOutcome{{st, v}}
	}
	call := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		switch c.name {
		case "bytes.Compare", "strings.Compare", "cmp.Compare":
			if fr.fn != nil && fr.fn.Parent() == nil {
				st.ghost[ev] = "1"
				if find {
					return []EOutcome{{st, avInt(0)}}, true
				}
				s2 := st.clone()
				return []EOutcome{{st, avInt(1)}, {s2, AV{k: avBits, mask: ^uint64(0), val: ^uint64(0)}}}, true
			}
		case "bytes.Equal", "strings.EqualFold":
			st.ghost[ev] = "1"
			return []EOutcome{{st, avBool(find)}}, true
		}
		return call(x, fr, st, c)
	}
}

// lookupFuncs are the functions in which, or below which, names are looked up.
func lookupFuncs(p *Program) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			if out[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch i := in.(type) {
					case *ssa.Lookup:
						if isEntryMap(i.X.Type()) {
							out[fn] = true
						}
					case *ssa.MakeClosure:
						if out[i.Fn.(*ssa.Function)] {
							out[fn] = true
						}
					case ssa.CallInstruction:
						if g := i.Common().StaticCallee(); g != nil {
							if out[g] || compares[extName(g)] {
								out[fn] = true
							}
						}
					}
				}
			}
			if out[fn] {
				ch = true
			}
		}
	}
	return out
}

// failing makes one of the calls that can fail do so.
func failing(x *Esp) {
	call := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		s2 := st.clone()
		outs, ok := call(x, fr, st, c)
		ei := errIndex(c.sig)
		if !ok || ei < 0 || len(outs) == 0 || st.ghost["+failed"] != "" || strings.HasPrefix(c.name, "errors.") || strings.HasPrefix(c.name, "fmt.") || strings.HasPrefix(c.name, "recursive ") {
			return outs, ok
		}
		s2.ghost["+failed"] = "failing: " + c.name + " at " + x.p.at(c.in.Pos())
		n := c.sig.Results().Len()
		outs = append(outs, EOutcome{s2, setRes(x.results(fr, s2, c), ei, n, AV{k: avNonNil, not: "io/fs.ErrNotExist"})})
		return outs, true
	}
}

var compares = map[string]bool{"bytes.Compare": true, "strings.Compare": true, "cmp.Compare": true, "bytes.Equal": true, "strings.EqualFold": true}

func runR13(env *Env, r *Result) {
	env.each(func(p *Program) {
		looks := lookupFuncs(p)
		// what has nothing to do with names succeeds
		opaque := func(fn *ssa.Function) bool { return modular(fn) && !looks[fn] }
		for _, pkg := range readerPkgs {
			for _, fn := range fsMethods(p, pkg) {
				name := shortFn(fn) + " (" + p.GOOS + ")"
				kinds := []fileKind{fileKinds[1]}
				asked := false
				for _, k := range kinds {
					x := newEsp(p)
					x.limit = 600000
					x.mergeAt = 24
					newWorld(k, 0, 0755).hook(x, nil)
					missing(x, false)
					x.opaque = opaque
					for _, o := range x.Entry(fn, nil) {
						if o.st.ghost["+missed"] == "" {
							continue
						}
						asked = true
						e := errorOf(x, fn, o)
						tags, _ := x.wraps(o.st, e)
						switch {
						case !certainError(x, o.st, e):
							r.bad("missing name", name, p.at(fn.Pos()), "success although a part of the name does not exist", o.st.path()...)
						case !inList(tags, "io/fs.ErrNotExist"):
							r.bad("missing name", name, p.at(fn.Pos()), "a part of the name does not exist, and the error does not wrap fs.ErrNotExist", o.st.path()...)
						}
					}
					r.Units["states "+pkg+" "+p.GOOS] += x.steps
				}
				if asked {
					r.ok("missing name", name, p.at(fn.Pos()))
				} else {
					r.Units["operations without a recognised lookup "+p.GOOS]++
				}
				for _, k := range kindsFor(fnPkgPath(fn)) {
					if pkg == "arfs" && k.mode != 0 {
						continue // holds nothing else
					}
					x := newEsp(p)
					x.limit = 600000
					x.mergeAt = 24
					newWorld(k, 0, 0644).hook(x, nil)
					missing(x, true)
					x.opaque = opaque
					failing(x)
					found, failed := false, false
					for _, o := range x.Entry(fn, nil) {
						e := errorOf(x, fn, o)
						tags, _ := x.wraps(o.st, e)
						lost := inList(tags, "io/fs.ErrNotExist")
						if o.st.ghost["+failed"] != "" {
							failed = true
							if lost {
								r.bad("other failure", name+": "+k.name, p.at(fn.Pos()), "something failed, and what is reported is that the name does not exist", append(o.st.path(), o.st.ghost["+failed"])...)
							}
						} else if o.st.ghost["+found"] != "" && pkg != "erofs" {
							found = true
							if lost {
								r.bad("existing name", name+": "+k.name, p.at(fn.Pos()), "every part of the name was found, and what is reported is that it does not exist", o.st.path()...)
							}
						}
					}
					if failed {
						r.ok("other failure", name+": "+k.name, p.at(fn.Pos()))
					}
					if found {
						r.ok("existing name", name+": "+k.name, p.at(fn.Pos()))
					}
				}
			}
			links := readerEntries(p, pkg, func(fn *ssa.Function) bool {
				return fn.Signature.Recv() != nil && strings.EqualFold(fn.Name(), "readlink") && hasErrorResult(fn)
			})
			for _, fn := range links {
				for _, k := range kindsFor(fnPkgPath(fn)) {
					if k.mode == fmSymlink {
						continue
					}
					for _, flag := range flagsOf(fnPkgPath(fn), k) {
						k.flag = flag
						x := newEsp(p)
						x.limit = 600000
						x.mergeAt = 24
						newWorld(k, 0, 0644).hook(x, nil)
						missing(x, true)
						named := fn.Signature.Params().Len() > 0
						name := shortFn(fn) + " (" + p.GOOS + "): " + k.name
						asked := false
						for _, o := range x.Entry(fn, nil) {
							if o.st.ghost["+asked"] == "" || named && o.st.ghost["+found"] == "" {
								continue
							}
							asked = true
							if e := errorOf(x, fn, o); !certainError(x, o.st, e) {
								r.bad("not a link", name, p.at(fn.Pos()), "a target is reported for an entry that is no symbolic link", o.st.path()...)
							}
						}
						if asked {
							r.ok("not a link", name, p.at(fn.Pos()))
						}
					}
				}
			}
		}
	})
	r.floor("missing name", 6)
}

func init() {
	register(&Check{ID: "R13", Level: "other", Rule: "Property simulation of every operation that takes a name, with every lookup finding nothing and every other operation succeeding: each way out after a lookup must be an error that wraps fs.ErrNotExist. " +
		"With lookups finding something, no way out says so, and neither does one on which another call failed. With lookups finding entries of each type other than a symbolic link, ReadLink must fail.", Run: runR13})
}
