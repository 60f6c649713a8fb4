package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a comparison function says about two entries of which only the order of the names is known: an abstract
// interpretation of the function (callees in place) whose values are constants, the two entries, their names, and
// unknowns. It comes in two forms: with names that are only known to be smaller or greater than each other (which shows
// that the function orders by name), and with names that are constants (which shows that it does not).

type cmpKind int

const (
	cOpaque cmpKind = iota // nothing is known, and it may depend on the names
	cFree                  // any value: something else about an entry
	cStr
	cInt
	cBool
	cEnt   // an entry (n: which)
	cName  // the name of an entry (n: which)
	cIdx   // the index of an entry
	cPtr   // the address of an entry's field (n: which entry, s: the path), or of an entry
	cCell  // the address of a local variable
	cFn    // a function
	cTuple // several values
	cNil
	cErr // some error
)

type cmpVal struct {
	k    cmpKind
	n    int64
	s    string
	el   []cmpVal
	fn   *ssa.Function
	cell *cmpVal
}

type cmpRun struct {
	p     *Program
	names [2]string // the names, or empty: only their order is known
	rel   int       // the order: -1 if the first is smaller
	steps int
	nname map[string]string // the field that the method Name of a type gives, by type
}

type cmpPath struct {
	v      cmpVal
	opaque bool // a branch on something opaque was taken
	trace  []string
}

type cmpState struct {
	env    map[ssa.Value]cmpVal
	opaque bool
	trace  []string
}

func (s *cmpState) clone() *cmpState {
	n := &cmpState{env: make(map[ssa.Value]cmpVal, len(s.env)), opaque: s.opaque, trace: append([]string{}, s.trace...)}
	cells := map[*cmpVal]*cmpVal{}
	for k, v := range s.env {
		if v.k == cCell && v.cell != nil {
			if cells[v.cell] == nil {
				c := *v.cell
				cells[v.cell] = &c
			}
			v.cell = cells[v.cell]
		}
		n.env[k] = v
	}
	return n
}

func cmpConst(c *ssa.Const) cmpVal {
	if c.Value == nil {
		return cmpVal{k: cNil}
	}
	switch c.Value.Kind() {
	case constant.String:
		return cmpVal{k: cStr, s: constant.StringVal(c.Value)}
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return cmpVal{k: cBool, n: 1}
		}
		return cmpVal{k: cBool}
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return cmpVal{k: cInt, n: n}
		}
	}
	return cmpVal{}
}

func (r *cmpRun) val(st *cmpState, v ssa.Value) cmpVal {
	switch u := v.(type) {
	case *ssa.Const:
		return cmpConst(u)
	case *ssa.Function:
		return cmpVal{k: cFn, fn: u}
	}
	if w, ok := st.env[v]; ok {
		return w
	}
	return cmpVal{}
}

// name is the name of an entry.
func (r *cmpRun) name(n int64) cmpVal {
	if r.names[0] != "" {
		return cmpVal{k: cStr, s: r.names[n]}
	}
	return cmpVal{k: cName, n: n}
}

// nameField is the path of the field that holds what the method Name of a type gives, if it just gives a field.
func (r *cmpRun) nameField(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	if s, ok := r.nname[n.String()]; ok {
		return s
	}
	r.nname[n.String()] = ""
	sel := r.p.Prog.MethodSets.MethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), "Name")
	if sel == nil {
		return ""
	}
	fn := r.p.Prog.MethodValue(sel)
	if fn == nil || len(fn.Blocks) != 1 || len(fn.Params) != 1 {
		return ""
	}
	ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return ""
	}
	var walk func(v ssa.Value) (string, bool)
	walk = func(v ssa.Value) (string, bool) {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op == token.MUL {
				return walk(u.X)
			}
		case *ssa.FieldAddr:
			s, ok := walk(u.X)
			return s + "." + fieldVar(u.X.Type(), u.Field).Name(), ok
		case *ssa.Parameter:
			return "", true
		}
		return "", false
	}
	if s, ok := walk(ret.Results[0]); ok {
		r.nname[n.String()] = s
	}
	return r.nname[n.String()]
}

// elem is what stands at an index of a slice.
func (r *cmpRun) elem(i int64, t types.Type) cmpVal {
	if isText(t) {
		return r.name(i)
	}
	return cmpVal{k: cEnt, n: i}
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mix(vs ...cmpVal) cmpVal {
	free := false
	for _, v := range vs {
		switch v.k {
		case cOpaque, cName, cIdx, cPtr, cCell, cFn, cTuple, cEnt:
			return cmpVal{}
		case cFree:
			free = true
		}
	}
	if free {
		return cmpVal{k: cFree}
	}
	return cmpVal{}
}

func boolCmp(b bool) cmpVal {
	if b {
		return cmpVal{k: cBool, n: 1}
	}
	return cmpVal{k: cBool}
}

func byRel(op token.Token, c int) (cmpVal, bool) {
	switch op {
	case token.LSS:
		return boolCmp(c < 0), true
	case token.LEQ:
		return boolCmp(c <= 0), true
	case token.GTR:
		return boolCmp(c > 0), true
	case token.GEQ:
		return boolCmp(c >= 0), true
	case token.EQL:
		return boolCmp(c == 0), true
	case token.NEQ:
		return boolCmp(c != 0), true
	}
	return cmpVal{}, false
}

// order compares two texts.
func (r *cmpRun) order(a, b cmpVal) (int, bool) {
	switch {
	case a.k == cStr && b.k == cStr:
		return strings.Compare(a.s, b.s), true
	case a.k == cName && b.k == cName && a.n == b.n:
		return 0, true
	case a.k == cName && b.k == cName && a.n == 0:
		return r.rel, true
	case a.k == cName && b.k == cName:
		return -r.rel, true
	}
	return 0, false
}

func (r *cmpRun) binop(op token.Token, a, b cmpVal) cmpVal {
	if c, ok := r.order(a, b); ok {
		if v, ok := byRel(op, c); ok {
			return v
		}
		if op == token.ADD && a.k == cStr && b.k == cStr {
			return cmpVal{k: cStr, s: a.s + b.s}
		}
		return cmpVal{}
	}
	if a.k == cInt && b.k == cInt {
		c := 0
		if a.n < b.n {
			c = -1
		} else if a.n > b.n {
			c = 1
		}
		if v, ok := byRel(op, c); ok {
			return v
		}
		switch op {
		case token.ADD:
			return cmpVal{k: cInt, n: a.n + b.n}
		case token.SUB:
			return cmpVal{k: cInt, n: a.n - b.n}
		case token.MUL:
			return cmpVal{k: cInt, n: a.n * b.n}
		}
		return cmpVal{}
	}
	if (a.k == cNil || a.k == cErr) && (b.k == cNil || b.k == cErr) && (a.k != b.k || a.k == cNil) {
		switch op {
		case token.EQL:
			return boolCmp(a.k == b.k)
		case token.NEQ:
			return boolCmp(a.k != b.k)
		}
	}
	if a.k == cBool && b.k == cBool {
		switch op {
		case token.EQL:
			return boolCmp(a.n == b.n)
		case token.NEQ:
			return boolCmp(a.n != b.n)
		}
	}
	return mix(a, b)
}

// call performs a call of a function whose body is not followed.
func (r *cmpRun) extern(name string, args []cmpVal) cmpVal {
	str := func(i int) (string, bool) { return args[i].s, i < len(args) && args[i].k == cStr }
	switch name {
	case "strings.Compare", "cmp.Compare":
		if len(args) == 2 {
			if c, ok := r.order(args[0], args[1]); ok {
				return cmpVal{k: cInt, n: int64(c)}
			}
			if args[0].k == cInt && args[1].k == cInt {
				switch {
				case args[0].n < args[1].n:
					return cmpVal{k: cInt, n: -1}
				case args[0].n > args[1].n:
					return cmpVal{k: cInt, n: 1}
				}
				return cmpVal{k: cInt}
			}
		}
		return mix(args...)
	case "cmp.Less":
		if len(args) == 2 {
			return r.binop(token.LSS, args[0], args[1])
		}
	}
	for _, a := range args {
		if a.k != cStr {
			return mix(args...)
		}
	}
	b := func(v bool) cmpVal { return boolCmp(v) }
	n := func(v int) cmpVal { return cmpVal{k: cInt, n: int64(v)} }
	s := func(v string) cmpVal { return cmpVal{k: cStr, s: v} }
	if len(args) == 1 {
		x, _ := str(0)
		switch name {
		case "strings.ToLower":
			return s(strings.ToLower(x))
		case "strings.ToUpper":
			return s(strings.ToUpper(x))
		case "strings.TrimSpace":
			return s(strings.TrimSpace(x))
		case "strconv.Atoi":
			if v, err := strconv.Atoi(x); err == nil {
				return cmpVal{k: cTuple, el: []cmpVal{n(v), {k: cNil}}}
			}
			return cmpVal{k: cTuple, el: []cmpVal{n(0), {k: cErr}}}
		case "path.Base", "path/filepath.Base":
			return s(path.Base(x))
		case "path.Ext", "path/filepath.Ext":
			return s(path.Ext(x))
		case "path.Clean", "path/filepath.Clean":
			return s(path.Clean(x))
		case "path.Dir", "path/filepath.Dir":
			return s(path.Dir(x))
		}
	}
	if len(args) == 2 {
		x, _ := str(0)
		y, _ := str(1)
		switch name {
		case "strings.EqualFold":
			return b(strings.EqualFold(x, y))
		case "strings.HasPrefix":
			return b(strings.HasPrefix(x, y))
		case "strings.HasSuffix":
			return b(strings.HasSuffix(x, y))
		case "strings.Contains":
			return b(strings.Contains(x, y))
		case "strings.Index":
			return n(strings.Index(x, y))
		case "strings.LastIndex":
			return n(strings.LastIndex(x, y))
		case "strings.Count":
			return n(strings.Count(x, y))
		case "strings.TrimPrefix":
			return s(strings.TrimPrefix(x, y))
		case "strings.TrimSuffix":
			return s(strings.TrimSuffix(x, y))
		case "strings.TrimLeft":
			return s(strings.TrimLeft(x, y))
		case "strings.TrimRight":
			return s(strings.TrimRight(x, y))
		case "strings.Trim":
			return s(strings.Trim(x, y))
		}
	}
	return cmpVal{}
}

// run follows a function; nothing is returned for a path that panics.
func (r *cmpRun) run(fn *ssa.Function, binds, args []cmpVal, in *cmpState, depth int) []cmpPath {
	if depth > 12 || len(fn.Blocks) == 0 {
		return []cmpPath{{v: cmpVal{}, opaque: in.opaque, trace: in.trace}}
	}
	st := &cmpState{env: map[ssa.Value]cmpVal{}, opaque: in.opaque, trace: append([]string{}, in.trace...)}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			st.env[f] = binds[i]
		}
	}
	type item struct {
		b, from *ssa.BasicBlock
		at      int
		st      *cmpState
	}
	var out []cmpPath
	todo := []item{{fn.Blocks[0], nil, 0, st}}
next:
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		st := it.st
		if it.at == 0 {
			var phis []*ssa.Phi
			var vals []cmpVal
			for _, i := range it.b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range it.b.Preds {
					if p == it.from {
						phis = append(phis, ph)
						vals = append(vals, r.val(st, ph.Edges[k]))
						break
					}
				}
			}
			for k, ph := range phis {
				st.env[ph] = vals[k]
			}
		}
		for at := it.at; at < len(it.b.Instrs); at++ {
			if r.steps++; r.steps > 20000 {
				panic(undecided("the comparison of " + shortFn(fn) + " takes too many steps"))
			}
			switch u := it.b.Instrs[at].(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Alloc:
				st.env[u] = cmpVal{k: cCell, cell: &cmpVal{}}
			case *ssa.Store:
				if a := r.val(st, u.Addr); a.k == cCell {
					*a.cell = r.val(st, u.Val)
				}
			case *ssa.FieldAddr:
				a := r.val(st, u.X)
				f := fieldVar(u.X.Type(), u.Field)
				switch a.k {
				case cEnt:
					st.env[u] = cmpVal{k: cPtr, n: a.n, s: "." + f.Name(), el: []cmpVal{{s: r.nameField(u.X.Type())}}}
				case cPtr:
					st.env[u] = cmpVal{k: cPtr, n: a.n, s: a.s + "." + f.Name(), el: a.el}
				default:
					st.env[u] = cmpVal{}
				}
			case *ssa.IndexAddr:
				if i := r.val(st, u.Index); i.k == cIdx {
					e := u.Type().(*types.Pointer).Elem()
					c := r.elem(i.n, e)
					if _, isStruct := e.Underlying().(*types.Struct); isStruct {
						st.env[u] = c // the address of a structure stands for it
					} else {
						st.env[u] = cmpVal{k: cCell, cell: &c}
					}
				} else {
					st.env[u] = cmpVal{}
				}
			case *ssa.Index:
				st.env[u] = cmpVal{}
				if i := r.val(st, u.Index); i.k == cIdx {
					st.env[u] = r.elem(i.n, u.Type())
				}
			case *ssa.UnOp:
				a := r.val(st, u.X)
				switch {
				case u.Op == token.MUL && a.k == cCell:
					st.env[u] = *a.cell
				case u.Op == token.MUL && a.k == cEnt:
					st.env[u] = a
				case u.Op == token.MUL && a.k == cPtr:
					switch {
					case len(a.el) == 1 && a.el[0].s != "" && a.el[0].s == a.s:
						st.env[u] = r.name(a.n)
					case isText(u.Type()) || !isBasicType(u.Type()):
						st.env[u] = cmpVal{}
					default:
						st.env[u] = cmpVal{k: cFree}
					}
				case u.Op == token.NOT && a.k == cBool:
					st.env[u] = boolCmp(a.n == 0)
				case u.Op == token.SUB && a.k == cInt:
					st.env[u] = cmpVal{k: cInt, n: -a.n}
				default:
					st.env[u] = mix(a)
				}
			case *ssa.Field:
				a := r.val(st, u.X)
				st.env[u] = cmpVal{}
				if a.k == cEnt {
					if nf := r.nameField(u.X.Type()); nf != "" && nf == "."+fieldVar(u.X.Type(), u.Field).Name() {
						st.env[u] = r.name(a.n)
					}
				}
			case *ssa.BinOp:
				st.env[u] = r.binop(u.Op, r.val(st, u.X), r.val(st, u.Y))
			case *ssa.ChangeType:
				st.env[u] = r.val(st, u.X)
			case *ssa.ChangeInterface:
				st.env[u] = r.val(st, u.X)
			case *ssa.MakeInterface:
				st.env[u] = r.val(st, u.X)
			case *ssa.Convert:
				a := r.val(st, u.X)
				if isText(u.Type()) && isText(u.X.Type()) || a.k == cInt || a.k == cFree {
					st.env[u] = a
				} else {
					st.env[u] = cmpVal{}
				}
			case *ssa.TypeAssert:
				a := r.val(st, u.X)
				if a.k != cEnt {
					a = mix(a)
				}
				if u.CommaOk {
					a = cmpVal{k: cTuple, el: []cmpVal{a, {}}}
				}
				st.env[u] = a
			case *ssa.Extract:
				a := r.val(st, u.Tuple)
				switch {
				case a.k == cTuple && u.Index < len(a.el):
					st.env[u] = a.el[u.Index]
				case a.k == cFree:
					st.env[u] = a
				default:
					st.env[u] = cmpVal{}
				}
			case *ssa.MakeClosure:
				v := cmpVal{k: cFn, fn: u.Fn.(*ssa.Function)}
				for _, b := range u.Bindings {
					v.el = append(v.el, r.val(st, b))
				}
				st.env[u] = v
			case *ssa.Call:
				outs := r.call(st, u, depth)
				for _, o := range outs[1:] {
					n := st.clone()
					n.env[u], n.opaque, n.trace = o.v, o.opaque, o.trace
					todo = append(todo, item{it.b, it.from, at + 1, n})
				}
				st.env[u], st.opaque, st.trace = outs[0].v, outs[0].opaque, outs[0].trace
			case *ssa.If:
				c := r.val(st, u.Cond)
				yes, no := it.b.Succs[0], it.b.Succs[1]
				if c.k == cBool {
					if c.n == 0 {
						yes = no
					}
					todo = append(todo, item{yes, it.b, 0, st})
					continue next
				}
				n := st.clone()
				if c.k != cFree {
					st.opaque, n.opaque = true, true
				}
				at := r.p.at(u.Cond.Pos())
				n.trace = append(n.trace, "at "+at+": does not hold")
				st.trace = append(st.trace, "at "+at+": holds")
				todo = append(todo, item{yes, it.b, 0, st}, item{no, it.b, 0, n})
				continue next
			case *ssa.Jump:
				todo = append(todo, item{it.b.Succs[0], it.b, 0, st})
				continue next
			case *ssa.Return:
				v := cmpVal{}
				switch len(u.Results) {
				case 1:
					v = r.val(st, u.Results[0])
				default:
					v.k = cTuple
					for _, x := range u.Results {
						v.el = append(v.el, r.val(st, x))
					}
				}
				out = append(out, cmpPath{v, st.opaque, st.trace})
				continue next
			case *ssa.Panic:
				continue next
			case ssa.Value:
				st.env[u] = cmpVal{}
			}
		}
	}
	if len(out) == 0 {
		out = append(out, cmpPath{opaque: true, trace: in.trace})
	}
	return out
}

func isBasicType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

func (r *cmpRun) call(st *cmpState, u *ssa.Call, depth int) []cmpPath {
	one := func(v cmpVal) []cmpPath { return []cmpPath{{v, st.opaque, st.trace}} }
	com := &u.Call
	var args []cmpVal
	for _, a := range com.Args {
		args = append(args, r.val(st, a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" && len(args) == 1 && args[0].k == cStr {
			return one(cmpVal{k: cInt, n: int64(len(args[0].s))})
		}
		return one(mix(args...))
	}
	if com.IsInvoke() {
		recv := r.val(st, com.Value)
		if recv.k == cEnt {
			if com.Method.Name() == "Name" {
				return one(r.name(recv.n))
			}
			return one(cmpVal{k: cFree})
		}
		return one(mix(append(args, recv)...))
	}
	f := r.val(st, com.Value)
	if f.k != cFn {
		return one(cmpVal{})
	}
	if len(args) > 0 && args[0].k == cEnt && f.fn.Signature.Recv() != nil {
		if f.fn.Name() == "Name" {
			return one(r.name(args[0].n))
		}
	}
	if inModule(f.fn) && len(f.fn.Blocks) > 0 {
		return r.run(f.fn, f.el, args, st, depth+1)
	}
	return one(r.extern(extName(f.fn), args))
}

// nameSamples are pairs of names of which the first is smaller.
var nameSamples = [][2]string{{"a", "b"}, {"B", "a"}, {"a", "ab"}, {"10", "9"}, {"a-b", "a.b"}, {"ab", "b"}, {"z", "é"}, {"Z", "a"}, {".b", "a"}, {"a.b", "a.c"}, {"aa", "b"}, {"a", "a.txt"}, {"b.a", "c"}, {"file10", "file2"}, {"a.z", "b.a"}, {"_", "a"}, {" b", "a"}}

// ordersByName looks at a comparison function, given as its parameters for two entries.
// The verdict is "yes", "no" (with a reason and a path) or "".
func (p *Program) ordersByName(fn *ssa.Function, binds []cmpVal, params func(i int) []cmpVal, less bool) (verdict, why string, path []string) {
	check := func(names [2]string, rel int, swap bool) (ok, wrong bool, pth []string) {
		r := &cmpRun{p: p, names: names, rel: rel, nname: map[string]string{}}
		a, b := 0, 1
		if swap {
			a, b = 1, 0
		}
		ok = true
		var outs []cmpPath
		args := append(append([]cmpVal{}, params(a)...), params(b)...)
		for i := range args {
			if args[i].k == cName {
				args[i] = r.name(args[i].n)
			}
		}
		if len(fn.Blocks) == 0 {
			outs = []cmpPath{{v: r.extern(extName(fn), args)}}
		} else {
			if fn.Signature.Recv() != nil && len(fn.Params) == len(args)+1 {
				args = append([]cmpVal{{}}, args...)
			}
			outs = r.run(fn, binds, args, &cmpState{}, 0)
		}
		before := rel < 0 != swap // the first argument is the smaller one
		for _, o := range outs {
			good := false
			switch {
			case o.v.k == cInt && !less:
				good = o.v.n < 0 == before && o.v.n != 0
			case o.v.k == cBool && less:
				good = o.v.n != 0 == before
			case o.v.k == cFree:
			default:
				ok = false
				continue
			}
			if !good {
				ok = false
				if !o.opaque {
					wrong, pth = true, o.trace
				}
			}
		}
		return
	}
	all := true
	for _, swap := range []bool{false, true} {
		for _, rel := range []int{-1, 1} {
			ok, wrong, pth := check([2]string{}, rel, swap)
			if wrong {
				return "no", "entries come in another order than that of their names", pth
			}
			all = all && ok
		}
	}
	if all {
		return "yes", "", nil
	}
	for _, s := range append(append([][2]string{}, nameSamples...), p.namesFor(fn)...) {
		for _, swap := range []bool{false, true} {
			if _, wrong, pth := check(s, -1, swap); wrong {
				return "no", "the names \"" + s[0] + "\" and \"" + s[1] + "\" come in the wrong order", pth
			}
		}
	}
	return "", "", nil
}

// namesFor makes pairs of names from the texts that a function uses, the smaller one first.
func (p *Program) namesFor(fn *ssa.Function) [][2]string {
	texts := map[string]bool{}
	for g := range reached(p, fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						if t := constant.StringVal(c.Value); t != "" && len(t) < 20 {
							texts[t] = true
						}
					}
				}
			}
		}
	}
	var out [][2]string
	for _, t := range keysOf(texts) {
		names := []string{"a", "b", "a-", "a0", "~", t, "a" + t, "b" + t, t + "a", "a" + t + "b", "~" + t, " ", "!" + t}
		for _, x := range names {
			for _, y := range names {
				if x < y && len(out) < 400 {
					out = append(out, [2]string{x, y})
				}
			}
		}
	}
	return out
}
