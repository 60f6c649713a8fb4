package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// globalInt is the value of a package variable that is set once, by its initialiser, to a number known at
// compile time.
func (p *Program) globalInt(name string) (uint64, bool) {
	if p.globals == nil {
		p.globals = map[string]*uint64{}
		for _, sp := range p.SPkgs {
			stores := map[*ssa.Global][]ssa.Value{}
			spoiled := map[*ssa.Global]bool{}
			fns := []*ssa.Function{sp.Func("init")}
			for _, fn := range p.Funcs {
				if fn != fns[0] {
					fns = append(fns, fn)
				}
			}
			for _, fn := range fns {
				if fn == nil {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							g, ok := (*op).(*ssa.Global)
							if !ok || g.Pkg != sp {
								continue
							}
							switch i := in.(type) {
							case *ssa.Store:
								if i.Addr == g && fn == sp.Func("init") {
									stores[g] = append(stores[g], i.Val)
								} else {
									spoiled[g] = true
								}
							case *ssa.UnOp:
							default:
								spoiled[g] = true
							}
						}
					}
				}
			}
			for g, vs := range stores {
				if len(vs) == 1 && !spoiled[g] {
					if n, ok := initInt(vs[0]); ok {
						p.globals[g.String()] = &n
					}
				}
			}
		}
	}
	if n := p.globals[name]; n != nil {
		return *n, true
	}
	return 0, false
}

func initInt(v ssa.Value) (uint64, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			return uint64(v.Int64()), true
		}
	case *ssa.Convert:
		if n, ok := initInt(v.X); ok && isNumber(v.Type()) {
			a := truncAV(avUint(n), v.Type())
			return a.val, a.mask == ^uint64(0)
		}
	case *ssa.ChangeType:
		return initInt(v.X)
	case *ssa.BinOp:
		a, ok := initInt(v.X)
		b, ok2 := initInt(v.Y)
		if ok && ok2 {
			if r, ok := foldNumbers(v, avUint(a), avUint(b)); ok {
				return r.val, true
			}
			if v.Op == token.SHL && b < 64 {
				r := truncAV(avUint(a<<b), v.Type())
				return r.val, r.mask == ^uint64(0)
			}
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.String() != "encoding/binary.Size" || len(v.Call.Args) != 1 {
			return 0, false
		}
		if m, ok := v.Call.Args[0].(*ssa.MakeInterface); ok {
			t := m.X.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n := binarySize(t); n > 0 {
				return uint64(n), true
			}
		}
	}
	return 0, false
}
