package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// panicObs looks for operations that can panic.
type panicObs struct {
	Base
	r     *Result
	p     *Program
	pkgs  map[string]bool
	rules map[string]bool
	maxN  int64
}

func (o *panicObs) construct(fr *Frame, in ssa.Instruction, what string) string {
	f := "client"
	if in != nil && in.Parent() != nil {
		f = shortFn(in.Parent())
	} else if fr != nil && fr.fn != nil {
		f = shortFn(fr.fn)
	}
	// ordinal of the instruction among those of its kind in the function (stable under line moves)
	n := 0
	if in != nil && in.Parent() != nil {
		for _, b := range in.Parent().Blocks {
			for _, i := range b.Instrs {
				if i == in {
					return fmt.Sprintf("%s %s #%d", f, what, n)
				}
				if fmt.Sprintf("%T", i) == fmt.Sprintf("%T", in) {
					n++
				}
			}
		}
	}
	return f + " " + what
}

func (o *panicObs) verdict(x *Exec, fr *Frame, st *State, in ssa.Instruction, rule string, good bool, detail string) {
	if x.quiet {
		return
	}
	c := o.construct(fr, in, rule)
	w := o.p.at(instrPos(in))
	if good {
		o.r.ok(rule, c, w)
		return
	}
	o.r.bad(rule, c, w, detail, tracePath(o.p, st)...)
	if os.Getenv("SADEBUG") != "" {
		fmt.Fprintf(os.Stderr, "ALARM %s %s %s: %s\n", rule, c, w, detail)
	}
}

// tracePath renders the path that led to a state.
func tracePath(p *Program, st *State) []string {
	if st == nil {
		return nil
	}
	var l []string
	for t := st.trace; t != nil && len(l) < 40; t = t.prev {
		l = append(l, fmt.Sprintf("%s: %s", p.at(t.pos), t.note))
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func (o *panicObs) nilCheck(x *Exec, fr *Frame, st *State, in ssa.Instruction, p *Term, what string) {
	switch p.op {
	case OAlloc, OGlobal, OIndexAddr:
		return
	case OFieldAddr:
		return // checked where it was made
	}
	a := x.absOf(st, p)
	bad := a.nilness == 1 || a.nilness == 0 && a.maybe
	o.verdict(x, fr, st, in, "nil dereference", !bad, fmt.Sprintf("%s may be nil here (%v)", what, p))
	if a.nilness != 2 {
		x.setNilTerm(st, p, false)
	}
}

func (o *panicObs) inBounds(x *Exec, st *State, idx, n *Term) bool {
	it := types.Typ[types.Int]
	i := x.u.Conv(it, idx)
	a := x.absOf(st, i)
	if a.lo == nil || a.lo.Sign() < 0 {
		if !x.prove(st, x.u.Int(it, 0), i, 0) {
			return false
		}
	}
	return x.prove(st, i, x.u.Conv(it, n), -1)
}

func (o *panicObs) Instr(x *Exec, fr *Frame, st *State, in ssa.Instruction) {
	u := x.u
	it := types.Typ[types.Int]
	if fr.fn.Synthetic != "" && !strings.HasPrefix(fr.fn.Synthetic, "wrapper") && !strings.HasPrefix(fr.fn.Synthetic, "instance") {
		return
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if _, g := in.X.(*ssa.Global); !g {
				o.nilCheck(x, fr, st, in, x.val(fr, in.X), exprName(in.X))
			}
		}
	case *ssa.Store:
		if _, g := in.Addr.(*ssa.Global); !g {
			o.nilCheck(x, fr, st, in, x.val(fr, in.Addr), exprName(in.Addr))
		}
	case *ssa.FieldAddr:
		o.nilCheck(x, fr, st, in, x.val(fr, in.X), exprName(in.X))
	case *ssa.IndexAddr:
		b, i := x.val(fr, in.X), x.val(fr, in.Index)
		n := u.Len(b)
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			o.nilCheck(x, fr, st, in, b, exprName(in.X))
			n = u.Int(it, p.Elem().Underlying().(*types.Array).Len())
		}
		o.verdict(x, fr, st, in, "index out of range", o.inBounds(x, st, i, n), fmt.Sprintf("index %v is not shown to be within [0, %v)", i, n))
	case *ssa.Index:
		v, i := x.val(fr, in.X), x.val(fr, in.Index)
		n := u.Len(v)
		if a, ok := in.X.Type().Underlying().(*types.Array); ok {
			n = u.Int(it, a.Len())
		}
		o.verdict(x, fr, st, in, "index out of range", o.inBounds(x, st, i, n), fmt.Sprintf("index %v is not shown to be within [0, %v)", i, n))
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			v, i := x.val(fr, in.X), x.val(fr, in.Index)
			o.verdict(x, fr, st, in, "index out of range", o.inBounds(x, st, i, u.Len(v)), fmt.Sprintf("index %v is not shown to be within the string", i))
		}
	case *ssa.Slice:
		v := x.val(fr, in.X)
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			_ = p
			if in.Low == nil && in.High == nil {
				return
			}
		}
		lim := u.Len(v)
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			if v.op == OSlice {
				lim = v.args[3]
			} else if in.High != nil {
				lim = u.mk(Term{op: OCap, typ: it, args: []*Term{v}})
			}
		}
		lo, hi := u.Int(it, 0), u.Len(v)
		if in.Low != nil {
			lo = u.Conv(it, x.val(fr, in.Low))
		}
		if in.High != nil {
			hi = u.Conv(it, x.val(fr, in.High))
		}
		good := x.prove(st, u.Int(it, 0), lo, 0) && x.prove(st, lo, hi, 0)
		if good && in.High != nil {
			good = x.prove(st, hi, lim, 0) || x.prove(st, hi, u.Len(v), 0)
		}
		if in.Low == nil && in.High == nil {
			good = true
		}
		o.verdict(x, fr, st, in, "slice bounds out of range", good, fmt.Sprintf("[%v:%v] is not shown to be within %v", lo, hi, v))
	case *ssa.MakeSlice:
		n := x.val(fr, in.Len)
		a := x.absOf(st, u.Conv(it, n))
		b := x.absOf(st, n)
		lo := a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 || x.prove(st, u.Int(it, 0), n, 0)
		o.verdict(x, fr, st, in, "negative allocation", lo, fmt.Sprintf("length %v is not shown to be non-negative", n))
		if !isLenBased(n) {
			hi := b.hi != nil && b.hi.Cmp(big.NewInt(o.maxN)) <= 0
			o.verdict(x, fr, st, in, "unbounded allocation", hi, fmt.Sprintf("length %v has no bound below %d (known range up to %v)", n, o.maxN, b.hi))
		}
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			if isInt(in.Type()) {
				d := x.val(fr, in.Y)
				a := x.absOf(st, d)
				zero := a.lo == nil || a.lo.Sign() <= 0 && a.hi.Sign() >= 0
				for _, c := range a.ne {
					if v := bigOf(c); v != nil && v.Sign() == 0 {
						zero = false
					}
				}
				o.verdict(x, fr, st, in, "division by zero", !zero, fmt.Sprintf("divisor %v may be zero", d))
			}
		case token.SHL, token.SHR:
			d := x.val(fr, in.Y)
			if !isUnsigned(d.typ) {
				a := x.absOf(st, d)
				o.verdict(x, fr, st, in, "negative shift", a.lo != nil && a.lo.Sign() >= 0, fmt.Sprintf("shift count %v may be negative", d))
			}
		}
	case *ssa.MapUpdate:
		m := x.val(fr, in.Map)
		a := x.absOf(st, m)
		bad := a.nilness == 1 || a.nilness == 0 && a.maybe
		o.verdict(x, fr, st, in, "write to nil map", !bad, fmt.Sprintf("map %v may be nil", m))
		if a.nilness == 0 {
			x.setNilTerm(st, m, false)
		}
	}
}

// isLenBased: a length made of the lengths of existing objects.
func isLenBased(t *Term) bool {
	switch t.op {
	case OLen:
		return true
	case OConv:
		return isLenBased(t.args[0])
	case OBin:
		if t.aux == "+" {
			return (isLenBased(t.args[0]) || t.args[0].op == OConst) && (isLenBased(t.args[1]) || t.args[1].op == OConst)
		}
	}
	return false
}

func exprName(v ssa.Value) string {
	if v.Name() != "" {
		return fmt.Sprintf("%s (%s)", v.Name(), types.TypeString(v.Type(), shortQual))
	}
	return types.TypeString(v.Type(), shortQual)
}

var needLen = map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}

func (o *panicObs) PreCall(x *Exec, fr *Frame, st *State, ev *CallEv) {
	switch {
	case strings.HasPrefix(ev.Name, "(encoding/binary.littleEndian)."), strings.HasPrefix(ev.Name, "(encoding/binary.bigEndian)."), strings.HasPrefix(ev.Name, "(encoding/binary.ByteOrder)."):
		m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
		if n, ok := needLen[m]; ok && len(ev.Args) > 1 {
			b := ev.Args[1]
			o.verdict(x, fr, st, ev.Instr, "index out of range", x.prove(st, x.u.Int(types.Typ[types.Int], n), x.u.Len(b), 0), fmt.Sprintf("%s needs %d bytes", m, n))
		}
	case ev.Name == "strings.Repeat" || ev.Name == "bytes.Repeat":
		a := x.absOf(st, ev.Args[1])
		o.verdict(x, fr, st, ev.Instr, "negative allocation", a.lo != nil && a.lo.Sign() >= 0, "negative repeat count")
	case ev.Name == "(*bytes.Buffer).Grow" || ev.Name == "(*strings.Builder).Grow":
		a := x.absOf(st, ev.Args[1])
		o.verdict(x, fr, st, ev.Instr, "negative allocation", a.lo != nil && a.lo.Sign() >= 0, "negative grow count")
	}
}

func (o *panicObs) Alarm(x *Exec, fr *Frame, st *State, kind, msg string, in ssa.Instruction) {
	switch kind {
	case "nil", "assert", "panic":
		o.verdict(x, fr, st, in, map[string]string{"nil": "nil call", "assert": "failed type assertion", "panic": "explicit panic"}[kind], false, msg)
	case "limit":
		o.r.bad("analysis", "limit "+msg, o.p.at(instrPos(in)), msg, tracePath(o.p, st)...)
	}
}

func runPanic(env *Env, r *Result, pkg string, openers ...string) {
	env.each(func(p *Program) {
		o := &panicObs{r: r, p: p, maxN: 1 << 24}
		x := newExec(p, o)
		c := newClient(x, modPath+"/"+pkg, openers...)
		c.Run(x.base.clone())
		r.Units["functions analysed ("+pkg+", "+p.GOOS+")"] = len(x.funcs)
		r.Units["call sites ("+pkg+", "+p.GOOS+")"] = len(x.calls)
		r.Units["entry points ("+pkg+", "+p.GOOS+")"] = len(c.Calls)
		r.Units["abstract steps ("+pkg+", "+p.GOOS+")"] = x.steps
		if os.Getenv("SADEBUG") != "" {
			for _, k := range c.calls() {
				fmt.Fprintln(os.Stderr, "  entry", k)
			}
		}
	})
}

func init() {
	register(&Check{ID: "XA", Run: func(env *Env, r *Result) { runPanic(env, r, "arfs", "Open") }})
	register(&Check{ID: "XT", Run: func(env *Env, r *Result) { runPanic(env, r, "tarfs", "Open") }})
	register(&Check{ID: "XE", Run: func(env *Env, r *Result) { runPanic(env, r, "erofs", "Open", "OpenImage") }})
	register(&Check{ID: "XM", Run: func(env *Env, r *Result) { runPanic(env, r, "memfs", "New") }})
}
