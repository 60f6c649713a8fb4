package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedModel is what the shared-state checks have in common for one package.
type sharedModel struct {
	pt      *PT
	la      *lockAnalysis
	entries []*PInst
	openers map[string]bool
	shared  map[*Obj]bool
}

func isOpener(fn *ssa.Function, pkg string) bool {
	if fn.Signature.Recv() != nil {
		return false
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	p, ok := res.At(0).Type().Underlying().(*types.Pointer)
	return ok && inModuleType(p.Elem())
}

func buildShared(p *Program, pkg string) *sharedModel {
	m := &sharedModel{pt: newPT(p, 2), openers: map[string]bool{}}
	m.entries = m.pt.entries(pkg)
	m.la = newLockAnalysis(m.pt)
	var roots []Loc
	for _, pi := range m.entries {
		if isOpener(pi.fn, pkg) {
			m.openers[pi.ctx.entry] = true
			for l := range pi.ret.nodes["#0"] {
				roots = append(roots, l)
			}
		}
	}
	for g, o := range m.pt.globals {
		if inModulePath(g.Pkg.Pkg.Path()) {
			roots = append(roots, Loc{o, ""})
		}
	}
	m.shared = m.pt.reach(roots, func(l Loc) bool { return l.o.kind != "func" && l.o.label != "error" })
	for _, pi := range m.entries {
		m.la.run(pi)
	}
	return m
}

func (m *sharedModel) sharedLocs(a Access) []Loc {
	var out []Loc
	for _, l := range a.locs {
		if m.shared[l.o] && l.o.kind != "func" {
			out = append(out, l)
		}
	}
	return out
}

func overlap(a, b Loc) bool {
	return a.o == b.o && (strings.HasPrefix(a.p, b.p) || strings.HasPrefix(b.p, a.p))
}

// conflicts decides the data-race freedom and immutability of what is shared.
func (m *sharedModel) conflicts(r *Result, rule string) {
	type use struct {
		a    Access
		locs []Loc
	}
	byObj := map[*Obj][]use{}
	for _, a := range m.la.acc {
		if m.openers[a.entry] || a.entry == "init" {
			continue
		}
		ls := m.sharedLocs(a)
		if len(ls) == 0 {
			continue
		}
		if t := lockType(ls[0]); t {
			continue
		}
		seen := map[*Obj]bool{}
		for _, l := range ls {
			if !seen[l.o] {
				seen[l.o] = true
				byObj[l.o] = append(byObj[l.o], use{a, ls})
			}
		}
		r.Units["accesses to shared memory"]++
	}
	p := m.pt.p
	desc := func(u use) string {
		w := "reads"
		if u.a.write {
			w = "writes"
		}
		s := fmt.Sprintf("%s %s at %s", shortFn(u.a.fn), w, p.at(instrPos(u.a.in)))
		if u.a.ext != "" {
			s += " (through " + u.a.ext + ")"
		}
		return s
	}
	var objs []*Obj
	for o := range byObj {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	verdict := map[string]*Obligation{}
	for _, o := range objs {
		us := byObj[o]
		for _, u := range us {
			k := fmt.Sprintf("%s %s%s", shortFn(u.a.fn), memName(o, u.locs), map[bool]string{true: " write", false: " read"}[u.a.write])
			ob := verdict[k]
			if ob == nil {
				ob = &Obligation{Rule: rule, Construct: k, Where: p.at(instrPos(u.a.in)), OK: true}
				verdict[k] = ob
			}
			if !u.a.write {
				continue
			}
			for _, v := range us {
				hit := false
				for _, x := range u.locs {
					for _, y := range v.locs {
						if x.o == o && overlap(x, y) {
							hit = true
						}
					}
				}
				if !hit {
					continue
				}
				common := false
				for l := range u.a.locks {
					if v.a.locks[l] {
						common = true
					}
				}
				if common || u.a.once && v.a.once && u.a.ext == "" {
					continue
				}
				if ob.OK {
					ob.OK = false
					ob.Detail = fmt.Sprintf("%s memory that every user of the file system shares (%s); nothing orders this with %s, called from %s", desc(u), o.label, desc(v), v.a.entry)
					ob.Path = []string{"entry point " + u.a.entry, desc(u), "conflicts with", "entry point " + v.a.entry, desc(v)}
				}
			}
		}
	}
	var ks []string
	for k := range verdict {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.add(*verdict[k])
	}
}

func memName(o *Obj, ls []Loc) string {
	for _, l := range ls {
		if l.o == o {
			n := "memory"
			if o.kind == "global" {
				return "global " + o.label
			}
			if o.typ != nil {
				n = types.TypeString(o.typ, relName)
			}
			return n + l.p
		}
	}
	return "memory"
}

func lockType(l Loc) bool {
	t := typeAt(l.o, l.p)
	if t == nil {
		return false
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func init() {
	register(&Check{ID: "R07", Level: "other", Rule: "Points-to analysis (inclusion based, field sensitive, two call sites plus entry point of context) gives the objects reachable from an opened archive; " +
		"an interprocedural flow-sensitive effect analysis then classifies every read and write of them by every function a user can call after Open: writes must be ordered with all other accesses " +
		"by a lock of the same object or be the initialisation run by a sync.Once of the same object (and be read only after it ran). Calls of stateful methods of shared external objects (readers with a position, for instance) count as writes.",
		Run: func(env *Env, r *Result) {
			env.each(func(p *Program) {
				for _, pkg := range []string{"arfs", "tarfs", "erofs"} {
					m := buildShared(p, pkg)
					r.Units["entry points "+p.GOOS] += len(m.entries)
					r.Units["function instances "+p.GOOS] += len(m.pt.order)
					r.Units["shared objects "+p.GOOS] += len(m.shared)
					if len(m.openers) == 0 {
						r.bad("shared", "openers "+pkg, "", "no function of package "+pkg+" opens an archive")
					}
					m.conflicts(r, "shared")
				}
			})
			r.floor("shared", 20)
		}})
	register(&Check{ID: "M02", Level: "other", Rule: "Points-to analysis gives the objects reachable from an in-memory file system; a flow-sensitive lockset analysis over every function a user can call, with callees in place, " +
		"classifies every read and write of them. Accesses to objects that only the current call knows are exempt; for the others, memory that is ever written after it became visible must only be accessed with the lock of its own directory held.",
		Run: func(env *Env, r *Result) {
			m := buildShared(env.prog("linux"), "memfs")
			r.Units["entry points"] = len(m.entries)
			r.Units["shared objects"] = len(m.shared)
			m.conflicts(r, "lockset")
			r.floor("lockset", 15)
		}})
	register(&Check{ID: "M01", Level: "other", Rule: "Typestate of every mutex along all paths of every function a user can call, callees, closures and deferred calls in place: each lock taken is released on every way out, " +
		"never released when it may not be held, never taken twice by the same call chain, a second lock is only taken below the directory whose lock is held, and no code of the caller runs under a lock.",
		Run: func(env *Env, r *Result) {
			for _, pkg := range []string{"memfs", "arfs", "tarfs", "erofs"} {
				m := buildShared(env.prog("linux"), pkg)
				for _, pi := range m.entries {
					r.Units["entry points"]++
					r.ok("paths", pi.ctx.entry, m.pt.p.at(pi.fn.Pos()))
				}
				for op := range m.la.ops {
					r.ok("lock operation", op, op)
				}
				for _, e := range m.la.ev {
					r.bad("paths", e.construct+" "+e.kind, e.where, e.msg, "entry point "+e.entry)
				}
			}
			r.floor("paths", 40)
			r.floor("lock operation", 4)
		}})
	register(&Check{ID: "M03", Level: "other", Rule: "Points-to (alias) analysis: no byte slice supplied by a caller may be reachable from the file system after the call, and no byte slice reachable from the file system may be handed to a caller.",
		Run: func(env *Env, r *Result) {
			m := buildShared(env.prog("linux"), "memfs")
			n := 0
			for o := range m.shared {
				n++
				if o.kind == "user" && strings.HasPrefix(o.label, "param ") {
					if sl, ok := o.typ.Underlying().(*types.Slice); ok {
						if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
							r.bad("alias", o.label, "", "the buffer the caller passes as "+strings.TrimPrefix(o.label, "param ")+" stays reachable from the file system: changing it later changes the stored file", m.holders(o)...)
						}
					}
				}
			}
			for _, pi := range m.entries {
				for j, prm := range pi.fn.Params {
					if sl, ok := prm.Type().Underlying().(*types.Slice); ok && j > 0 {
						if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
							r.ok("alias", "param "+pi.ctx.entry+":"+prm.Name(), m.pt.p.at(prm.Pos()))
						}
					}
				}
				for j := 0; j < pi.fn.Signature.Results().Len(); j++ {
					sl, ok := pi.fn.Signature.Results().At(j).Type().Underlying().(*types.Slice)
					if !ok {
						continue
					}
					if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
						continue
					}
					r.ok("alias", fmt.Sprintf("result %d of %s", j, pi.ctx.entry), m.pt.p.at(pi.fn.Pos()))
					for l := range pi.ret.nodes[fmt.Sprintf("#%d", j)] {
						if m.shared[l.o] {
							r.bad("alias", fmt.Sprintf("result %d of %s", j, pi.ctx.entry), m.pt.p.at(pi.fn.Pos()), "the caller receives a slice of the stored bytes ("+l.o.label+") and can change the file through it")
						}
					}
				}
			}
			// bytes may only be handed over by copying: no caller buffer is stored, no stored array is the target of a caller-visible write
			for _, a := range m.la.acc {
				if !a.write {
					continue
				}
				for _, l := range m.sharedLocs(a) {
					if t := l.o.typ; t != nil {
						if sl, ok := t.Underlying().(*types.Slice); ok {
							if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
								r.bad("alias", shortFn(a.fn)+" writes stored bytes", m.pt.p.at(instrPos(a.in)), shortFn(a.fn)+" writes into the stored bytes of a visible file ("+l.o.label+")", "entry point "+a.entry)
							}
						}
					}
				}
			}
			r.Units["shared objects"] = n
			r.floor("alias", 3)
		}})
}

// holders lists the objects that hold a reference to o.
func (m *sharedModel) holders(o *Obj) []string {
	var out []string
	for h := range m.shared {
		for p, ls := range h.base.nodes {
			for l := range ls {
				if l.o == o {
					out = append(out, "held by "+h.label+p)
				}
			}
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}
