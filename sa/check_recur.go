package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callees lists the functions of the module that a function may call directly, or through a closure it makes.
func callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Blocks != nil {
					out = append(out, f)
				}
			}
			if m, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, m.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// recursive lists the functions of the module that can reach themselves.
func (p *Program) recursive() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		seen := map[*ssa.Function]bool{}
		todo := callees(fn)
		for len(todo) > 0 {
			f := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if seen[f] || !inModule(f) {
				continue
			}
			seen[f] = true
			todo = append(todo, callees(f)...)
		}
		if seen[fn] {
			out = append(out, fn)
		}
	}
	return out
}

type recurCall struct {
	at, why string
	path    []string
	ok      bool
}

// recurDepth follows a recursive function from arbitrary arguments to its recursive calls. At each, an integer
// argument, or an integer that a pointer argument (or a field of one) holds, must be larger (or smaller) than
// before, and bounded by the branches taken.
func (p *Program) recurDepth(fn *ssa.Function) (calls map[string]*recurCall, steps int) {
	calls = map[string]*recurCall{}
	x := newEsp(p)
	x.deep = true
	x.limit = 300000
	x.peel = 1
	t := newTerms()
	t.samples = 3000
	x.terms = t
	atom := func(name string, typ types.Type) (AV, bool) {
		n, ok := ntypeOf(typ)
		if !ok || n.bits < 8 {
			return AV{}, false
		}
		hi := uint64(1) << uint(n.bits-1)
		if n.bits == 64 {
			hi = 1 << 62
		} else if !n.signed {
			hi *= 2
		}
		return t.AV(t.Atom(name, n, 0, hi-1)), true
	}
	x.load = func(x *Esp, fr *EFrame, st *EState, in *ssa.UnOp, cell string) (AV, bool) {
		if b, ok := in.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return AV{}, false
		}
		v := x.loadCell(st, cell, in.Type())
		if v.k != avSym || isTerm(v) || v.sym == "" {
			return AV{}, false
		}
		a, ok := atom("at "+v.sym, in.Type())
		if ok {
			st.mem[cell] = a
		}
		return a, ok
	}
	// counters: cells and values that only ever grow from what they were
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		if c.name != "recursive "+fn.String() {
			return nil, false
		}
		key := p.at(c.in.Pos())
		rc := calls[key]
		if rc == nil {
			rc = &recurCall{at: key, ok: true}
			calls[key] = rc
		}
		if espDebug == "R02" {
			fmt.Println("recursive call", key, len(t.consistent(st)))
			for j, a := range c.args {
				fmt.Println("  arg", j, a.key())
				if cell, ok := x.cellOf(x.norm(st, a)); ok {
					fmt.Println("    cell", cell, x.loadCell(st, cell, types.Typ[types.Int]).key())
				}
			}
		}
		if len(t.consistent(st)) == 0 {
			return nil, false
		}
		why := "no number among the arguments gets closer to a limit that is tested on the way"
		good := false
		test := func(v AV, typ types.Type, base string) {
			e, ok := x.tm(x.norm(st, v), typ)
			if !ok || good {
				return
			}
			ats := map[string]bool{}
			t.atoms(e, ats)
			pc := t.pc(st)
			for a := range ats {
				if base != "" && a != base || base == "" && !strings.HasPrefix(a, "at ") {
					continue
				}
				d, n := t.diff(e, t.tab[a], pc)
				if len(d) != 0 || n.Sign() == 0 {
					continue
				}
				// bounded?
				lim := false
				for _, k := range pc {
					if k.op != "<" && k.op != "<=" && k.op != "!=" {
						continue
					}
					kd, _ := t.diff(k.a, k.b, nil)
					co := kd[a]
					if len(kd) != 1 || co == nil {
						continue
					}
					switch {
					case k.op == "!=":
						lim = lim || n.IsInt64() && (n.Int64() == 1 || n.Int64() == -1)
					default: // co * a < constant
						lim = lim || co.Sign() == n.Sign()
					}
				}
				if lim {
					good = true
				} else {
					why = "a number among the arguments changes with the depth, but there is no limit for it"
				}
			}
		}
		for j, a := range c.args {
			if j >= len(fn.Params) {
				break
			}
			typ := fn.Params[j].Type()
			if isNumber(typ) {
				test(a, typ, "param "+fn.Params[j].Name())
				continue
			}
			cell, ok := x.cellOf(x.norm(st, a))
			if !ok {
				continue
			}
			if pt, ok := typ.Underlying().(*types.Pointer); ok {
				if isNumber(pt.Elem()) {
					test(x.loadCell(st, cell, pt.Elem()), pt.Elem(), "")
				} else if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for k := 0; k < s.NumFields(); k++ {
						if f := s.Field(k); isNumber(f.Type()) {
							test(x.loadCell(st, sub(cell, f.Name()), f.Type()), f.Type(), "")
						}
					}
				}
			}
		}
		// free variables of closures
		for j, fv := range fn.FreeVars {
			_ = j
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && isNumber(pt.Elem()) {
				if v, ok := st.env[fv]; ok {
					if cell, ok := x.cellOf(x.norm(st, v)); ok {
						test(x.loadCell(st, cell, pt.Elem()), pt.Elem(), "")
					}
				}
			}
		}
		if !good && rc.ok {
			if espDebug == "R02" {
				fmt.Println(len(t.consistent(st)), st.path())
			}
			rc.ok, rc.why, rc.path = false, why, st.path()
		}
		return nil, false
	}
	// what cannot come back here and gets no number to change is not followed
	back := map[*ssa.Function]bool{}
	for _, f := range p.recursive() {
		back[f] = true
	}
	aside := func(c *ssa.Call) bool {
		f := c.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !inModule(f) || reaches(f, back) {
			return false
		}
		for _, a := range c.Call.Args {
			if pt, ok := a.Type().Underlying().(*types.Pointer); ok && isNumber(pt.Elem()) {
				return false
			}
			if al, ok := a.(*ssa.Alloc); ok && holdsNumber(al.Type()) {
				return false
			}
			if _, ok := a.(*ssa.MakeClosure); ok {
				return false
			}
		}
		return true
	}
	x.over = func(fr *EFrame, st *EState, in ssa.Instruction) []*EState {
		if espDebug == "R02x" {
			fmt.Println("  ", fr.pre, in)
		}
		c, ok := in.(*ssa.Call)
		if !ok || !aside(c) {
			return nil
		}
		// with its error, or without
		n := c.Call.Signature().Results().Len()
		if n == 0 {
			return []*EState{st}
		}
		id := fr.pre + callTag(c)
		x.freshName(st, id)
		res := x.results(fr, st, &ECall{in: c, name: "aside", sig: c.Call.Signature()})
		if res.k == avTuple && len(res.el) == 1 {
			res = res.el[0]
		}
		st.env[c] = res
		return []*EState{st}
	}
	defer func() { // what was found stands
		if e := recover(); e != nil {
			for _, rc := range calls {
				if !rc.ok {
					return
				}
			}
			panic(e)
		}
	}()
	x.Entry(fn, func(fr *EFrame, st *EState) {
		for _, pa := range fn.Params {
			if isNumber(pa.Type()) {
				if v, ok := atom("param "+pa.Name(), pa.Type()); ok {
					st.env[pa] = v
				}
			}
		}
	})
	return calls, x.steps
}

func reaches(f *ssa.Function, set map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	todo := []*ssa.Function{f}
	for len(todo) > 0 {
		g := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[g] || !inModule(g) {
			continue
		}
		seen[g] = true
		if set[g] {
			return true
		}
		todo = append(todo, callees(g)...)
	}
	return false
}

func holdsNumber(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if isNumber(p.Elem()) {
		return true
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isNumber(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func runR02(env *Env, r *Result) {
	env.each(func(p *Program) {
		for _, fn := range p.Funcs {
			if fn.Blocks == nil {
				continue
			}
			loops := espLoops(fn)
			n := 0
			for _, l := range loops {
				n++
				at := loopPos(l)
				c := fmt.Sprintf("%s: loop %d (%s)", shortFn(fn), n, p.GOOS)
				kind, why, path, unknown := p.loopEnds(l, loops)
				switch {
				case unknown:
					r.Units["loops that are not recognised "+p.GOOS]++
				case why != "":
					r.bad("every loop ends", c, p.at(at), why, path...)
				default:
					r.ok("every loop ends", c, p.at(at))
					if kind == "" {
						kind = "no way round it"
					}
					r.Units["loops that consume "+kind+" "+p.GOOS]++
				}
			}
		}
		for _, fn := range p.recursive() {
			calls, steps := p.recurDepth(fn)
			r.Units["states "+p.GOOS] += steps
			if len(calls) == 0 {
				r.Units["recursive functions whose recursive calls were not reached "+p.GOOS]++
			}
			if espDebug == "R02" {
				fmt.Println(fn, len(calls), steps)
			}
			var ks []string
			for k := range calls {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for i, k := range ks {
				rc := calls[k]
				c := fmt.Sprintf("%s: call %d (%s)", shortFn(fn), i+1, p.GOOS)
				if rc.ok {
					r.ok("every recursion is limited", c, rc.at)
				} else {
					r.bad("every recursion is limited", c, rc.at, "the function calls itself, and "+rc.why, rc.path...)
				}
			}
		}
	})
	r.floor("every loop ends", 10)
}

func loopPos(l *espLoop) token.Pos {
	var best token.Pos
	for b := range l.body {
		for _, in := range b.Instrs {
			if q := in.Pos(); q.IsValid() && (!best.IsValid() || q < best) {
				best = q
			}
		}
	}
	return best
}

func init() {
	register(&Check{ID: "R02", Level: "other", Rule: "Termination by ranking functions: for every loop of the library, every way round it (inner loops and memory in between unknown) either consumes something finite (the input, a map, a path, a growing set) or makes a measure smaller that a branch on the way bounds, lexicographically where one measure does not do; " +
		"for every recursive call, followed from arbitrary arguments, a number among the arguments moves towards a limit that is tested on the way.", Run: runR02})
}
