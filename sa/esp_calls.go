package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Esp) doCall(fr *EFrame, st *EState, in ssa.CallInstruction, fnv AV, args []AV) []EOutcome {
	return x.doCallIn(fr, st, in, fnv, args, nil)
}

// doCallIn performs a call; df are the deferred calls that the frame still has to run.
func (x *Esp) doCallIn(fr *EFrame, st *EState, in ssa.CallInstruction, fnv AV, args []AV, df []*edefer) []EOutcome {
	com := in.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, in, b.Name(), args)
	}
	if com.IsInvoke() {
		recv := fnv
		c := &ECall{in: in, name: "invoke " + recvTypeName(com.Value.Type()) + "." + com.Method.Name(), method: com.Method.Name(), recv: recv, args: args, sig: com.Method.Type().(*types.Signature)}
		if recv.dyn != nil {
			if sel := x.p.Prog.MethodSets.MethodSet(recv.dyn).Lookup(com.Method.Pkg(), com.Method.Name()); sel != nil {
				if fn := x.p.Prog.MethodValue(sel); fn != nil && fn.Blocks != nil && (inModule(fn) || x.p.wrapsModule(fn)) {
					r := recv
					r.dyn = nil
					return x.inline(fr, st, in, fn, nil, append([]AV{r}, args...), df)
				}
			}
		}
		return x.extern(fr, st, c)
	}
	if fnv.k == avFn {
		fn := fnv.fn
		if fn.Blocks != nil && (inModule(fn) || x.p.wrapsModule(fn)) {
			if x.opaque != nil && x.opaque(fn) {
				x.forgetHeap(st)
				return x.extern(fr, st, &ECall{in: in, name: "module " + fn.String(), method: fn.Name(), args: args, sig: fn.Signature})
			}
			return x.inline(fr, st, in, fn, fnv.el, args, df)
		}
		name := extName(fn)
		if mc := fn; mc.Synthetic != "" && len(fn.FreeVars) == 1 && len(fnv.el) == 1 { // bound method
			args = append([]AV{fnv.el[0]}, args...)
		}
		return x.extern(fr, st, &ECall{in: in, name: name, method: fn.Name(), args: args, sig: fn.Signature})
	}
	return x.extern(fr, st, &ECall{in: in, name: "dynamic", method: "", recv: fnv, args: args, sig: com.Signature()})
}

func recvTypeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return "interface"
}

func (x *Esp) inline(fr *EFrame, st *EState, in ssa.CallInstruction, fn *ssa.Function, binds, args []AV, df []*edefer) []EOutcome {
	depth := 0
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			// a recursive call: nothing is known about its result
			c := &ECall{in: in, name: "recursive " + fn.String(), method: fn.Name(), args: args, sig: fn.Signature}
			return x.extern(fr, st, c)
		}
		depth++
	}
	if depth > 30 {
		panic(undecided("calls are nested too deeply"))
	}
	nf := &EFrame{call: in, fn: fn, pre: fr.pre + callTag(in) + "/", up: fr, keep: map[string]bool{}}
	for s := range fr.keep {
		nf.keep[s] = true
	}
	mark := func(a AV) {
		symsOf(a, func(s string) { nf.keep[s] = true }, func(c string) { nf.keep["c:"+c] = true })
	}
	env := st.env
	for _, a := range env {
		mark(a)
	}
	for v := range fr.live[in.Block()] {
		if _, ok := env[v]; !ok {
			nf.keep[fr.pre+v.Name()] = true
		}
	}
	for _, d := range df {
		for _, a := range d.args {
			mark(a)
		}
		mark(d.fnv)
	}
	ns := st.clone()
	ns.env = map[ssa.Value]AV{}
	ns.stack = append(ns.stack, env)
	for j, p := range fn.Params {
		if j < len(args) {
			ns.env[p] = args[j]
		}
	}
	for j, fv := range fn.FreeVars {
		if j < len(binds) {
			ns.env[fv] = binds[j]
		}
	}
	ns.step("enter " + shortFn(fn) + " at " + x.p.at(in.Pos()))
	outs := x.Run(nf, ns)
	var res []EOutcome
	for _, o := range outs {
		top := o.st.stack[len(o.st.stack)-1]
		o.st.stack = o.st.stack[:len(o.st.stack)-1]
		o.st.env = make(map[ssa.Value]AV, len(top))
		for k, v := range top {
			o.st.env[k] = v
		}
		res = append(res, o)
	}
	return res
}

func (x *Esp) builtin(fr *EFrame, st *EState, in ssa.CallInstruction, name string, args []AV) []EOutcome {
	v := in.Value()
	if v == nil {
		return []EOutcome{{st, AV{}}}
	}
	f := x.fresh(fr, st, v)
	switch name {
	case "min", "max":
		if len(args) == 2 && (isTerm(args[0]) || isTerm(args[1])) {
			a, ok := x.tm(args[0], v.Type())
			b, ok2 := x.tm(args[1], v.Type())
			if n, ok3 := ntypeOf(v.Type()); ok && ok2 && ok3 {
				return []EOutcome{{st, x.terms.AV(x.terms.mk(name, n, "", 0, a, b))}}
			}
		}
	case "append":
		st.facts[f.sym] = AV{k: avNonNil}
		if x.deep {
			st.facts[f.sym+".len().rel(=0)"] = avInt(4) // at least one element, or the caller appends nothing
		}
		if len(args) == 2 && args[1].k != avSlice {
			delete(st.facts, f.sym+".len().rel(=0)")
		}
		if x.effect != nil {
			x.effect(fr, st, "append")
		}
	case "len":
		if len(args) == 1 && args[0].k == avStr {
			return []EOutcome{{st, avInt(int64(len(args[0].str)))}}
		}
		if len(args) == 1 && args[0].k == avNil {
			return []EOutcome{{st, avInt(0)}}
		}
		if len(args) == 1 && args[0].k == avSlice && args[0].mask != 0 {
			return []EOutcome{{st, avInt(int64(args[0].val))}}
		}
		if len(args) == 1 && (args[0].k == avSym || args[0].k == avNonNil && args[0].sym != "") {
			return []EOutcome{{st, x.norm(st, sym(args[0].sym+".len()"))}}
		}
	}
	return []EOutcome{{st, f}}
}

// results builds unknown results for a call.
func (x *Esp) results(fr *EFrame, st *EState, c *ECall) AV {
	id := fr.pre + callTag(c.in)
	x.freshName(st, id)
	n := c.sig.Results().Len()
	if n == 1 {
		return sym(id)
	}
	t := AV{k: avTuple}
	for j := 0; j < n; j++ {
		t.el = append(t.el, sym(fmt.Sprintf("%s#%d", id, j)))
	}
	return t
}

// setRes replaces one result.
func setRes(r AV, j, n int, v AV) AV {
	if n == 1 {
		return v
	}
	el := append([]AV(nil), r.el...)
	el[j] = v
	r.el = el
	return r
}

func errIndex(sig *types.Signature) int {
	for j := 0; j < sig.Results().Len(); j++ {
		if isErrorType(sig.Results().At(j).Type()) {
			return j
		}
	}
	return -1
}

const (
	espModeDir  = 1 << 31
	espModeType = 1<<31 | 1<<27 | 1<<26 | 1<<25 | 1<<24 | 1<<21 | 1<<19
)

// wraps collects what an error value wraps.
func (x *Esp) wraps(st *EState, a AV) (tags string, nonnil bool) {
	a = x.norm(st, a)
	switch a.k {
	case avNonNil:
		return a.tags, true
	case avPtr:
		// &fs.PathError{Err: e}
		if e, ok := st.mem[sub(a.cell, "Err")]; ok {
			t, _ := x.wraps(st, e)
			return t, true
		}
		return "", true
	}
	return "", a.dyn != nil && a.k != avSym
}

func (x *Esp) extern(fr *EFrame, st *EState, c *ECall) []EOutcome {
	x.calls[c.name]++
	id := fr.pre + callTag(c.in)
	if x.call != nil {
		if outs, ok := x.call(x, fr, st, c); ok {
			return outs
		}
	}
	n := c.sig.Results().Len()
	switch c.name {
	case "errors.New":
		return []EOutcome{{st, AV{k: avNonNil, sym: "new " + id, not: "*"}}}
	case "fmt.Errorf":
		v := AV{k: avNonNil, sym: "new " + id}
		if len(c.args) == 2 && c.args[0].k == avStr {
			v.tags = x.wrapTags(st, c.args[0].str, c.args[1])
		}
		return []EOutcome{{st, v}}
	case "errors.Join":
		v := AV{k: avNonNil}
		any, all := false, true
		if len(c.args) == 1 && c.args[0].k == avSlice {
			for k, e := range st.mem {
				if strings.HasPrefix(k, c.args[0].cell+"\x01[") {
					e = x.norm(st, e)
					t, nn := x.wraps(st, e)
					if nn {
						any = true
						v.tags = unionList(v.tags, t)
					} else if e.k != avNil {
						all = false
					}
				}
			}
		}
		if any {
			return []EOutcome{{st, v}}
		}
		if all {
			return []EOutcome{{st, AV{k: avNil}}}
		}
	case "errors.Is":
		e, t := x.norm(st, c.args[0]), x.norm(st, c.args[1])
		tag := t.tags
		if e.k == avNil {
			return []EOutcome{{st, avFalse}}
		}
		if tag != "" && !strings.Contains(tag, "|") {
			et, _ := x.wraps(st, e)
			if inList(et, tag) {
				return []EOutcome{{st, avTrue}}
			}
			if e.hasNot(tag) || e.hasNot("*") || e.k == avNonNil && e.tags != "" && e.sym == e.tags {
				return []EOutcome{{st, avFalse}}
			}
		}
	case "errors.Unwrap":
		// unknown
	case "(io/fs.FileMode).Type", "(io/fs.FileMode).Perm", "(io/fs.FileMode).IsDir", "(io/fs.FileMode).IsRegular":
		a := c.args[0]
		if a.k == avBits {
			switch c.method {
			case "Type":
				return []EOutcome{{st, AV{k: avBits, mask: a.mask | ^uint64(espModeType), val: a.val & espModeType}}}
			case "Perm":
				return []EOutcome{{st, AV{k: avBits, mask: a.mask | ^uint64(0777), val: a.val & 0777}}}
			case "IsDir":
				if a.mask&espModeDir != 0 {
					return []EOutcome{{st, avBool(a.val&espModeDir != 0)}}
				}
			case "IsRegular":
				if a.val&espModeType != 0 {
					return []EOutcome{{st, avFalse}}
				}
				if a.mask&espModeType == espModeType {
					return []EOutcome{{st, avTrue}}
				}
			}
		}
		if c.method == "Perm" {
			return []EOutcome{{st, AV{k: avBits, mask: ^uint64(0777)}}}
		}
		if c.method == "Type" {
			return []EOutcome{{st, AV{k: avBits, mask: ^uint64(espModeType)}}}
		}
	case "(*sync.Once).Do":
		fnv := c.args[1]
		if fnv.k == avFn {
			return append(x.doCallFn(fr, st.clone(), c.in, fnv, nil), EOutcome{st, AV{}})
		}
	case "io/fs.WalkDir":
		return x.walk(fr, st, c, x.entry)
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Sort", "sort.Stable", "slices.Sort", "sort.Strings":
		return []EOutcome{{st, AV{}}}
	case "invoke FileInfo.Size", "invoke FileInfo.Mode", "invoke FileInfo.ModTime", "invoke FileInfo.Name", "invoke FileInfo.Sys", "invoke FileInfo.IsDir",
		"invoke DirEntry.Name", "invoke DirEntry.Type", "invoke DirEntry.IsDir", "(time.Time).Unix", "(time.Time).Nanosecond", "(time.Time).UTC", "(time.Time).UnixNano":
		// the same result every time
		r := c.recv
		if !strings.HasPrefix(c.name, "invoke ") && len(c.args) == 1 {
			r = c.args[0]
		}
		if x.deep && (r.k == avSym || r.k == avNonNil) && r.sym != "" {
			return []EOutcome{{st, x.norm(st, sym(r.sym+"."+c.method+"()"))}}
		}
	case "io.NopCloser", "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "io.NewSectionReader", "io.NewOffsetWriter", "archive/tar.NewReader", "archive/tar.NewWriter", "io.MultiReader", "io.LimitReader", "io.TeeReader", "bufio.NewReader", "bufio.NewWriter":
		x.freshName(st, id)
		st.facts[id] = AV{k: avNonNil}
		return []EOutcome{{st, sym(id)}}
	}
	// addresses handed to unknown code
	if !strings.HasPrefix(c.name, "fmt.") && !strings.HasPrefix(c.name, "errors.") {
		for _, a := range c.args {
			if a.k == avPtr && !strings.HasPrefix(a.cell, "g:") {
				x.havoc(st, a.cell, id)
			}
			if a.k == avFn {
				for _, b := range a.el {
					if b.k == avPtr {
						x.havoc(st, b.cell, id)
					}
				}
			}
		}
		if strings.HasPrefix(c.name, "recursive ") {
			x.forgetHeap(st)
		}
	}
	if n == 0 {
		return []EOutcome{{st, AV{}}}
	}
	return []EOutcome{{st, x.results(fr, st, c)}}
}

func (x *Esp) doCallFn(fr *EFrame, st *EState, in ssa.CallInstruction, fnv AV, args []AV) []EOutcome {
	return x.inline(fr, st, in, fnv.fn, fnv.el, args, nil)
}

func (x *Esp) wrapTags(st *EState, format string, args AV) string {
	tags := ""
	if args.k != avSlice {
		return ""
	}
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' {
			if e, ok := st.mem[sub(args.cell, fmt.Sprintf("[%d]", n))]; ok {
				t, _ := x.wraps(st, e)
				tags = unionList(tags, t)
			}
		}
		n++
	}
	return tags
}

// walkCall is one way the callback of a walk can be called.
type walkCall struct {
	st   *EState
	args []AV
}

// walk models fs.WalkDir: the callback runs for any number of entries; the first error it returns
// (other than the skip sentinels) ends the walk and is returned. entry, when given, prepares the
// states in which the callback is called.
func (x *Esp) walk(fr *EFrame, st *EState, c *ECall, entry func(*EState) []walkCall) []EOutcome {
	fnv := c.args[2]
	if fnv.k != avFn || fnv.fn.Blocks == nil {
		return []EOutcome{{st, x.results(fr, st, c)}}
	}
	seen := map[string]bool{}
	todo := []*EState{st}
	var outs []EOutcome
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		x.freshName(s, "walk")
		k := x.stateKey(s, nil)
		if seen[k] {
			continue
		}
		seen[k] = true
		outs = append(outs, EOutcome{s.clone(), AV{k: avNil}}) // nothing more to visit
		s = s.clone()
		variants := []walkCall{{s, []AV{sym("walk.path"), sym("walk.entry"), {k: avNil}}}}
		if entry != nil {
			variants = entry(s)
		}
		for _, w := range variants {
			for _, o := range x.doCallFn(fr, w.st.clone(), c.in, fnv, w.args) {
				r := o.res
				if r.k == avTuple && len(r.el) == 1 {
					r = r.el[0]
				}
				r = x.norm(o.st, r)
				switch {
				case r.k == avNil:
					if x.walked != nil {
						x.walked(o.st, w.args)
					}
					todo = append(todo, o.st)
				case r.k == avNonNil && !inList(r.tags, "io/fs.SkipDir") && !inList(r.tags, "io/fs.SkipAll"):
					outs = append(outs, EOutcome{o.st, r})
				case r.k == avNonNil: // an entry, or the rest, is skipped
					s2 := o.st.clone()
					s2.ghost["+skipped"] = "1"
					todo = append(todo, s2)
				case r.k == avPtr:
					outs = append(outs, EOutcome{o.st, r})
				default:
					s2 := o.st.clone()
					if r.k == avSym {
						s2.facts[r.sym] = AV{k: avNil}
						o.st.facts[r.sym] = AV{k: avNonNil}
					}
					if x.walked != nil {
						x.walked(s2, w.args)
					}
					todo = append(todo, s2)
					outs = append(outs, EOutcome{o.st, x.norm(o.st, r)})
				}
			}
		}
	}
	return outs
}

// Entry runs an exported function with unknown arguments.
func (x *Esp) Entry(fn *ssa.Function, prep func(fr *EFrame, st *EState)) []EOutcome {
	fr := &EFrame{fn: fn, pre: "", keep: map[string]bool{}}
	st := &EState{env: map[ssa.Value]AV{}, mem: map[string]AV{}, roots: map[string]string{}, facts: map[string]AV{}, ghost: map[string]string{}}
	for _, p := range fn.Params {
		fr.keep[p.Name()] = true
		st.env[p] = sym(p.Name())
		if pointerLike(p.Type()) && fn.Signature.Recv() != nil && p == fn.Params[0] {
			st.facts[p.Name()] = AV{k: avNonNil}
		}
	}
	if prep != nil {
		prep(fr, st)
	}
	return x.Run(fr, st)
}

func (st *EState) path() []string {
	var out []string
	for t := st.trace; t != nil; t = t.prev {
		out = append([]string{t.at}, out...)
	}
	return out
}

// forgetHeap drops what is known about objects that other functions can reach.
func (x *Esp) forgetHeap(st *EState) {
	for k := range st.mem {
		if strings.HasPrefix(k, "s:") {
			delete(st.mem, k)
		}
	}
}
