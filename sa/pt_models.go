package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extName names an external function independently of how the call is written.
func extName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj, ok := fn.Object().(*types.Func); ok {
		sig := obj.Type().(*types.Signature)
		if r := sig.Recv(); r != nil {
			t := r.Type()
			ptr := ""
			if p, ok := t.(*types.Pointer); ok {
				t, ptr = p.Elem(), "*"
			}
			if n, ok := types.Unalias(t).(*types.Named); ok {
				pk := ""
				if n.Obj().Pkg() != nil {
					pk = n.Obj().Pkg().Path() + "."
				}
				return "(" + ptr + pk + n.Obj().Name() + ")." + obj.Name()
			}
			return obj.FullName()
		}
		if obj.Pkg() != nil {
			return obj.Pkg().Path() + "." + obj.Name()
		}
	}
	return fn.String()
}

// deepTokens lets dst receive the tokens of everything reachable from a value in a few steps.
func (pt *PT) deepTokens(src *PBase, dst *PBase, to string, depth int) {
	pt.eachAll(src, func(path string, l Loc) {
		if isTok(l) {
			pt.add(dst, to, l)
			return
		}
		if depth > 0 && (l.o.kind == "box" || path == "" || l.o.kind == "alloc") && l.o.base != dst && l.o.kind != "user" {
			key := fmt.Sprintf("deep%p|%s|%p|%s", l.o, l.p, dst, to)
			if pt.callees[key] {
				return
			}
			pt.callees[key] = true
			prefix := l.p
			nested := pt.newBase("deep")
			pt.copy(l.o.base, prefix, nested, "", nil)
			pt.deepTokens(nested, dst, to, depth-1)
		}
	})
}

func (pt *PT) external(pi *PInst, in ssa.CallInstruction, fn *ssa.Function, args []*PBase, dst *PBase) {
	name := extName(fn)
	c := pi.ctx
	pt.noteExt(pi, in, name, Loc{})
	sig := fn.Signature
	slice := func(elem func(o *Obj)) {
		o := pt.siteObj("alloc", in, c, in.Value().Type(), "")
		elem(o)
		pt.add(dst, "", Loc{o, ""})
	}
	elems := func(src *PBase, o *Obj) {
		pt.each(src, "", func(l Loc) {
			if isTok(l) {
				pt.add(o.base, "[]", l)
			} else {
				pt.copy(l.o.base, l.p+"[]", o.base, "[]", nil)
			}
		})
	}
	callWith := func(f *PBase, mk func(sig *types.Signature) []*PBase) {
		pt.each(f, "", func(l Loc) {
			if l.o.fn != nil {
				pt.callLoc(pi, in, l, mk(l.o.fn.Signature), pt.newBase("drop"))
			}
		})
	}
	switch name {
	case "io/fs.WalkDir":
		ret := pt.newBase("walkret")
		pt.each(args[2], "", func(l Loc) {
			if l.o.fn == nil {
				return
			}
			ps := l.o.fn.Signature.Params()
			var as []*PBase
			for j, lab := range []string{"walk path", "walk entry", "error"} {
				b := pt.newBase(lab)
				if j < ps.Len() {
					pt.userValue(b, "", ps.At(j).Type(), lab, 0)
				}
				as = append(as, b)
			}
			pt.callLoc(pi, in, l, as, ret)
		})
		pt.copy(ret, "", dst, "", nil)
		u, _ := pt.obj("user", "error", types.Universe.Lookup("error").Type(), "error")
		pt.add(dst, "", Loc{u, ""})
		return
	case "sort.Sort", "sort.Stable":
		pt.each(args[0], "", func(l Loc) { pt.poke(pi, in, l) })
		return
	case "sort.Slice", "sort.SliceStable":
		callWith(args[1], func(*types.Signature) []*PBase { return []*PBase{pt.newBase("i"), pt.newBase("j")} })
		return
	case "slices.SortFunc", "slices.SortStableFunc", "slices.SortedFunc":
		mk := func(*types.Signature) []*PBase {
			b := pt.newBase("elem")
			pt.each(args[0], "", func(l Loc) {
				if !isTok(l) {
					pt.copy(l.o.base, l.p+"[]", b, "", nil)
					pt.copy(l.o.base, l.p+"<elem>", b, "", nil)
				}
			})
			return []*PBase{b, b}
		}
		callWith(args[1], mk)
		if name == "slices.SortedFunc" {
			slice(func(o *Obj) {
				pt.each(args[0], "", func(l Loc) { pt.copy(l.o.base, l.p+"<elem>", o.base, "[]", nil) })
			})
		}
		return
	case "slices.Sort", "sort.Strings":
		return
	case "maps.Keys", "maps.Values":
		o := pt.siteObj("ext", in, c, in.Value().Type(), "")
		which := "{k}"
		if name == "maps.Values" {
			which = "{v}"
		}
		pt.each(args[0], "", func(l Loc) {
			if !isTok(l) {
				pt.copy(l.o.base, l.p+which, o.base, "<elem>", nil)
			}
		})
		pt.copy(args[0], "", o.base, "<in>", nil)
		pt.add(dst, "", Loc{o, ""})
		return
	case "slices.Values":
		o := pt.siteObj("ext", in, c, in.Value().Type(), "")
		pt.each(args[0], "", func(l Loc) {
			if !isTok(l) {
				pt.copy(l.o.base, l.p+"[]", o.base, "<elem>", nil)
			}
		})
		pt.add(dst, "", Loc{o, ""})
		return
	case "slices.Collect", "slices.Sorted":
		slice(func(o *Obj) {
			pt.each(args[0], "", func(l Loc) {
				if !isTok(l) {
					pt.copy(l.o.base, l.p+"<elem>", o.base, "[]", nil)
				}
			})
		})
		return
	case "maps.Clone":
		o := pt.siteObj("alloc", in, c, in.Value().Type(), "")
		pt.each(args[0], "", func(l Loc) {
			if !isTok(l) {
				pt.copy(l.o.base, l.p+"{k}", o.base, "{k}", nil)
				pt.copy(l.o.base, l.p+"{v}", o.base, "{v}", nil)
			}
		})
		pt.add(dst, "", Loc{o, ""})
		return
	case "bytes.Clone", "slices.Clone", "slices.Concat":
		slice(func(o *Obj) {
			for _, a := range args {
				elems(a, o)
			}
		})
		return
	case "slices.Grow", "slices.Clip", "bytes.TrimRight", "bytes.TrimLeft", "bytes.Trim", "bytes.TrimSpace", "bytes.TrimPrefix", "bytes.TrimSuffix", "slices.Insert", "slices.Delete", "slices.Compact", "slices.CompactFunc", "slices.DeleteFunc":
		pt.copy(args[0], "", dst, "", nil) // may alias the argument
		return
	case "(*sync.Once).Do":
		pt.each(args[1], "", func(l Loc) { pt.callLoc(pi, in, l, nil, pt.newBase("drop")) })
		return
	case "bytes.NewBuffer", "bytes.NewReader":
		o := pt.siteObj("ext", in, c, in.Value().Type().(*types.Pointer).Elem(), "")
		pt.copy(args[0], "", o.base, "<buf>", nil)
		pt.add(dst, "", Loc{o, ""})
		return
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next", "(*bytes.Buffer).AvailableBuffer":
		pt.each(args[0], "", func(l Loc) {
			if !isTok(l) {
				own, _ := pt.obj("alloc", fmt.Sprintf("buf%p", l.o), in.Value().Type(), "buffer of "+l.o.label)
				pt.add(l.o.base, l.p+"<buf>", Loc{own, ""})
				pt.copy(l.o.base, l.p+"<buf>", dst, "", nil)
			}
		})
		return
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte":
		return
	case "encoding/binary.Read":
		pt.each(args[0], "", func(l Loc) { pt.poke(pi, in, l) })
		pt.each(args[2], "", func(l Loc) {
			if isTok(l) {
				return
			}
			if t := typeAt(l.o, l.p); t != nil {
				lab := "disk"
				if n := namedOf(t); n != nil {
					lab = "disk " + n.Obj().Name()
				}
				pt.userValue(l.o.base, l.p, t, lab, 0)
			}
		})
		return
	case "errors.As":
		pt.each(args[1], "", func(l Loc) {
			if t := typeAt(l.o, l.p); !isTok(l) && t != nil {
				pt.userValue(l.o.base, l.p, t, "error", 0)
			}
		})
		return
	}
	// streams handed to external code are driven by it
	for j, a := range args {
		if j < sig.Params().Len()+1 {
			pt.each(a, "", func(l Loc) {
				switch l.o.kind {
				case "closure", "func":
					if l.o.fn != nil {
						pt.callLoc(pi, in, l, pt.userArgs(l.o.fn.Signature, name), pt.newBase("drop"))
					}
				}
			})
		}
	}
	switch name {
	case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "io.WriteString", "encoding/binary.Write", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		for _, a := range args {
			pt.each(a, "", func(l Loc) { pt.poke(pi, in, l) })
		}
	}
	if sig.Recv() != nil && len(args) > 0 {
		// a method of an external object drives what the object wraps
		pt.each(args[0], "", func(l Loc) {
			if l.o.kind == "ext" {
				pt.pokeWrapped(pi, in, l.o)
			}
		})
	}
	// results
	n := sig.Results().Len()
	for j := 0; j < n; j++ {
		to := ""
		if n > 1 {
			to = fmt.Sprintf("#%d", j)
		}
		t := sig.Results().At(j).Type()
		if v := in.Value(); v != nil {
			if tup, ok := v.Type().(*types.Tuple); ok {
				t = tup.At(j).Type()
			} else {
				t = v.Type()
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
			pt.add(dst, to, pt.tok("call "+name))
			if n > 1 {
				pt.add(dst, to, pt.tok(fmt.Sprintf("call %s#%d", name, j)))
			}
			for _, a := range args {
				pt.deepTokens(a, dst, to, 2)
			}
		case *types.Slice:
			o := pt.siteObj("ext", in, c, t, fmt.Sprint(j))
			pt.add(dst, to, Loc{o, ""})
			pt.add(o.base, "[]", pt.tok("call "+name))
			for _, a := range args {
				if _, ok := u.Elem().Underlying().(*types.Basic); ok {
					pt.deepTokens(a, o.base, "[]", 2)
				}
				elems(a, o)
			}
			if name == "io/fs.ReadDir" {
				pt.userValue(o.base, "[]", u.Elem(), "ReadDir entry", 0)
			}
		default:
			if isErrorType(t) {
				e, _ := pt.obj("user", "error", t, "error")
				pt.add(dst, to, Loc{e, ""})
				continue
			}
			elem := t
			if p, ok := u.(*types.Pointer); ok {
				elem = p.Elem()
			}
			o := pt.siteObj("ext", in, c, elem, fmt.Sprint(j))
			o.label = "call " + name
			if strings.HasPrefix(name, "(") && sig.Recv() != nil && len(args) > 0 {
				// e.g. (*tar.Reader).Next: the result does not keep the receiver
			}
			for _, a := range args {
				pt.copy(a, "", o.base, "<in>", nil)
				pt.each(a, "", func(l Loc) {
					if !isTok(l) && l.o != o {
						if tt := typeAt(l.o, l.p); tt != nil {
							if _, ok := tt.Underlying().(*types.Slice); ok {
								pt.copy(l.o.base, l.p+"[]", o.base, "<in>", nil)
							}
							if _, ok := tt.Underlying().(*types.Array); ok {
								pt.copy(l.o.base, l.p+"[]", o.base, "<in>", nil)
							}
						}
					}
				})
			}
			pt.add(dst, to, Loc{o, ""})
		}
	}
}

func (pt *PT) userArgs(sig *types.Signature, label string) []*PBase {
	var out []*PBase
	for j := 0; j < sig.Params().Len(); j++ {
		b := pt.newBase("arg")
		pt.userValue(b, "", sig.Params().At(j).Type(), fmt.Sprintf("callback argument %d of %s", j, label), 0)
		out = append(out, b)
	}
	return out
}

// reach is the set of objects reachable from a set of locations.
func (pt *PT) reach(roots []Loc, follow func(Loc) bool) map[*Obj]bool {
	seen := map[*Obj]bool{}
	var st []Loc
	st = append(st, roots...)
	for len(st) > 0 {
		l := st[len(st)-1]
		st = st[:len(st)-1]
		if isTok(l) || seen[l.o] || (follow != nil && !follow(l)) {
			continue
		}
		seen[l.o] = true
		for _, m := range l.o.base.nodes {
			for x := range m {
				st = append(st, x)
			}
		}
	}
	return seen
}

func (pt *PT) locs(c *PCtx, v ssa.Value) []Loc {
	var out []Loc
	for l := range pt.val(c, v).nodes[""] {
		out = append(out, l)
	}
	return out
}

// tokensOf lists the value tokens of every part of a value.
func tokensOf(b *PBase, prefix string) map[string]bool {
	out := map[string]bool{}
	for p, m := range b.nodes {
		if !strings.HasPrefix(p, prefix) {
			continue
		}
		for l := range m {
			if isTok(l) {
				out[l.o.label] = true
			}
		}
	}
	return out
}
