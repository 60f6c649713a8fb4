package main

// R21: trouble is reported as an error. Explicit panics and exits, calls of function values
// that an entry may lack, and type assertions that can fail.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func nilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// sameExpr: two values computed by the same expression over the same operands (calls of accessors included).
func sameExpr(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth == 0 {
		return false
	}
	switch a := a.(type) {
	case *ssa.UnOp:
		b, ok := b.(*ssa.UnOp)
		return ok && a.Op == b.Op && sameExpr(a.X, b.X, depth-1)
	case *ssa.FieldAddr:
		b, ok := b.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && sameExpr(a.X, b.X, depth-1)
	case *ssa.Field:
		b, ok := b.(*ssa.Field)
		return ok && a.Field == b.Field && sameExpr(a.X, b.X, depth-1)
	case *ssa.Lookup:
		b, ok := b.(*ssa.Lookup)
		return ok && sameExpr(a.X, b.X, depth-1) && sameExpr(a.Index, b.Index, depth-1)
	case *ssa.Extract:
		b, ok := b.(*ssa.Extract)
		return ok && a.Index == b.Index && sameExpr(a.Tuple, b.Tuple, depth-1)
	case *ssa.Call:
		b, ok := b.(*ssa.Call)
		if !ok || a.Call.Method != b.Call.Method || len(a.Call.Args) != len(b.Call.Args) || !sameExpr(a.Call.Value, b.Call.Value, depth-1) {
			return false
		}
		for i := range a.Call.Args {
			if !sameExpr(a.Call.Args[i], b.Call.Args[i], depth-1) {
				return false
			}
		}
		return true
	}
	return false
}

// branchesAt calls f for every branch that is known to have been taken when a block is entered.
func branchesAt(at *ssa.BasicBlock, f func(cond ssa.Value, taken bool)) {
	for _, b := range at.Parent().Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range b.Succs {
			if len(s.Preds) == 1 && s.Dominates(at) {
				cond, taken := i.Cond, k == 0
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, taken = u.X, !taken
				}
				f(cond, taken)
			}
		}
	}
}

// assertHolds: a type assertion is only reached when it succeeds.
func assertHolds(p *Program, ta *ssa.TypeAssert) bool {
	if types.IsInterface(ta.AssertedType) && types.Implements(ta.X.Type(), ta.AssertedType.Underlying().(*types.Interface)) {
		return true
	}
	if m, ok := ta.X.(*ssa.MakeInterface); ok {
		return types.Identical(m.X.Type(), ta.AssertedType)
	}
	holds := false
	not := map[string]bool{}
	branchesAt(ta.Block(), func(cond ssa.Value, taken bool) {
		e, ok := cond.(*ssa.Extract)
		if !ok || e.Index != 1 {
			return
		}
		o, ok := e.Tuple.(*ssa.TypeAssert)
		if !ok || !o.CommaOk || !sameExpr(o.X, ta.X, 6) {
			return
		}
		if taken && types.Identical(o.AssertedType, ta.AssertedType) {
			holds = true
		}
		if !taken {
			not[o.AssertedType.String()] = true
		}
	})
	if holds {
		return true
	}
	all := p.dynTypes(ta.X.Type())
	left := 0
	for _, t := range all {
		if !not[t.String()] {
			left++
			if !types.Identical(t, ta.AssertedType) {
				return false
			}
		}
	}
	return left == 1
}

var exits = set("os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit", "syscall.Exit", "syscall.Kill",
	"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln")

func runR21(env *Env, r *Result) {
	env.each(func(p *Program) {
		for _, fn := range p.Funcs {
			if fn.Blocks == nil || strings.HasPrefix(fn.Name(), "init") {
				continue
			}
			name := shortFn(fn) + " (" + p.GOOS + ")"
			bad := 0
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch i := in.(type) {
					case *ssa.Panic:
						if i.Pos() == token.NoPos || impossibleType(p, i) {
							continue
						}
						bad++
						r.bad("no panic", name, p.at(i.Pos()), "a panic takes the place of an error")
					case ssa.CallInstruction:
						if g := i.Common().StaticCallee(); g != nil && exits[extName(g)] {
							bad++
							r.bad("no panic", name, p.at(instrPos(in)), "the program is ended ("+extName(g)+") where an error should be returned")
						}
					case *ssa.TypeAssert:
						if i.CommaOk {
							continue
						}
						at := p.at(i.Pos())
						if assertHolds(p, i) {
							r.ok("type assertion", name, at)
						} else {
							bad++
							r.bad("type assertion", name, at, "this conversion of the dynamic type can fail: nothing on the way establishes that the value is a "+types.TypeString(i.AssertedType, nil))
						}
					}
				}
			}
			if bad == 0 {
				r.ok("no panic", name, p.at(fn.Pos()))
			}
		}
		for _, pkg := range append([]string{"memfs"}, readerPkgs...) {
			m := buildShared(p, pkg)
			m.la.byFn = map[*ssa.Function][]*PInst{}
			for _, x := range m.pt.order {
				m.la.byFn[x.fn] = append(m.la.byFn[x.fn], x)
			}
			for fn := range m.la.byFn {
				if !inModule(fn) {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(ssa.CallInstruction)
						if !ok || c.Common().IsInvoke() {
							continue
						}
						ld, ok := c.Common().Value.(*ssa.UnOp)
						if !ok || ld.Op != token.MUL {
							continue
						}
						fa, ok := ld.X.(*ssa.FieldAddr)
						if !ok || !inModuleType(fa.X.Type().Underlying().(*types.Pointer).Elem()) {
							continue
						}
						lacks := ""
						for _, l := range m.la.locs(fn, fa) {
							if l.o.kind == "alloc" && len(l.o.base.nodes[l.p]) == 0 {
								lacks = l.o.label
							}
						}
						looked := false
						branchesAt(b, func(cond ssa.Value, taken bool) {
							if e, ok := cond.(*ssa.BinOp); ok && (e.Op == token.NEQ && taken || e.Op == token.EQL && !taken) {
								x, y := e.X, e.Y
								if nilConst(x) {
									x, y = y, x
								}
								looked = looked || nilConst(y) && sameExpr(x, ld, 8)
							}
						})
						name := shortFn(fn) + " calls " + fieldKey(fa) + " (" + p.GOOS + ")"
						if lacks != "" && !looked {
							r.bad("function may be missing", name, p.at(instrPos(in)), "the function that is called here is missing in some of the values that get here ("+lacks+"), and nothing on the way looks whether it is there")
						} else {
							r.ok("function may be missing", name, p.at(instrPos(in)))
						}
					}
				}
			}
		}
	})
}

// impossibleType: the panic stands where a value would have to be of a type that no such value has.
func impossibleType(p *Program, i *ssa.Panic) bool {
	not := map[ssa.Value]map[string]bool{}
	branchesAt(i.Block(), func(cond ssa.Value, taken bool) {
		if e, ok := cond.(*ssa.Extract); ok && e.Index == 1 && !taken {
			if o, ok := e.Tuple.(*ssa.TypeAssert); ok && o.CommaOk {
				if not[o.X] == nil {
					not[o.X] = map[string]bool{}
				}
				not[o.X][o.AssertedType.String()] = true
			}
		}
	})
	for v, ts := range not {
		all := p.dynTypes(v.Type())
		left := len(all)
		for _, t := range all {
			if ts[t.String()] {
				left--
			}
		}
		if len(all) > 0 && left == 0 {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "R21", Level: "other", Rule: "All functions of the module: no explicit panic, process exit or fatal log; every type assertion without a second result is only reached after a check of the same type on the same expression, or when it is the only dynamic type left (dominance over type-checked SSA); points-to analysis: every call of a function stored in a field is only reached by values that have it, or after looking whether it is there.", Run: runR21})
}
