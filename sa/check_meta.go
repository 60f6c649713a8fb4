package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is reported about the entries of an archive.

// timeTm is a point in time given by seconds and nanoseconds since 1970.
func (t *Terms) timeTm(sec, nsec *Tm) *Tm { return t.mk("f", i64, "time", 0, sec, nsec) }

func (t *Terms) asTime(a AV) (sec, nsec *Tm) {
	if !isTerm(a) {
		return nil, nil
	}
	e := t.tab[a.sym[3:]]
	if e == nil || e.op != "f" || e.name != "time" {
		return nil, nil
	}
	return e.a[0], e.a[1]
}

// timeCall models the functions of package time that make and take apart points in time.
func timeCall(x *Esp, t *Terms, st *EState, c *ECall) (AV, bool) {
	num := func(i int) *Tm {
		if i >= len(c.args) {
			return nil
		}
		e, _ := x.tm(x.norm(st, c.args[i]), types.Typ[types.Int64])
		return e
	}
	if c.name == "time.Unix" {
		if s, n := num(0), num(1); s != nil && n != nil {
			return t.AV(t.timeTm(s, n)), true
		}
		return AV{}, false
	}
	if !strings.HasPrefix(c.name, "(time.Time).") || len(c.args) == 0 {
		return AV{}, false
	}
	s, n := t.asTime(x.norm(st, c.args[0]))
	if s == nil {
		return AV{}, false
	}
	switch c.method {
	case "Unix":
		return t.AV(s), true
	case "Nanosecond":
		return t.AV(n), true
	case "UnixNano", "UnixMicro", "UnixMilli":
		per := map[string]uint64{"UnixNano": 1, "UnixMicro": 1000, "UnixMilli": 1000000}[c.method]
		if per > 1 {
			n = t.Op("/", i64, n, t.Num(per, i64))
		}
		return t.AV(t.Op("+", i64, t.Op("*", i64, s, t.Num(1000000000/per, i64)), n)), true
	case "UTC", "Local", "In":
		return x.norm(st, c.args[0]), true
	}
	return AV{}, false
}

// timed adds the model of package time to a simulation.
func timed(x *Esp, t *Terms) {
	under := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		if v, ok := timeCall(x, t, st, c); ok {
			return []EOutcome{{st, v}}, true
		}
		return under(x, fr, st, c)
	}
}

// afterwards runs a method of an interface value after a simulation.
func (x *Esp) afterwards(st *EState, recv AV, name string) (*ssa.Function, []EOutcome) {
	if recv.dyn == nil {
		return nil, nil
	}
	sel := x.p.Prog.MethodSets.MethodSet(recv.dyn).Lookup(nil, name)
	if sel == nil {
		return nil, nil
	}
	fn := x.p.Prog.MethodValue(sel)
	if fn == nil || fn.Blocks == nil || !(inModule(fn) || x.p.wrapsModule(fn)) {
		return nil, nil
	}
	fr := &EFrame{fn: fn, pre: "then/" + name + "/", keep: map[string]bool{}}
	s := st.clone()
	s.env = map[ssa.Value]AV{}
	r := recv
	r.dyn = nil
	s.env[fn.Params[0]] = r
	symsOf(r, func(k string) { fr.keep[k] = true }, func(c string) { fr.keep["c:"+c] = true })
	return fn, x.Run(fr, s)
}

// arView is the reader of an ar archive.
func newArView(p *Program) *diskView {
	d := &diskView{p: p, x: newEsp(p), t: newTerms(), sp: p.SPkgs[modPath+"/arfs"], again: 5}
	x := d.x
	x.deep, x.fold, x.terms = true, true, d.t
	x.limit = 300000
	w := newWorld(fileKinds[0], 0, 0644)
	w.hook(x, nil)
	x.field = nil
	return d
}

// column is the text in some columns of a header.
func (t *Terms) column(lo, hi uint64) *Tm {
	return t.mk("f", i64, "col", 0, t.Num(lo, i64), t.Num(hi, i64))
}

func (t *Terms) isColumn(a AV) *Tm {
	if !isTerm(a) {
		return nil
	}
	if e := t.tab[a.sym[3:]]; e != nil && e.op == "f" && e.name == "col" {
		return e
	}
	return nil
}

// number is the value of a column with digits.
func (t *Terms) number(col *Tm, base uint64) *Tm {
	w := col.a[1].val - col.a[0].val
	hi := uint64(1)
	for i := uint64(0); i < w; i++ {
		hi *= base
	}
	return t.Atom(fmt.Sprintf("columns %d to %d in base %d", col.a[0].val, col.a[1].val, base), i64, 0, hi-1)
}

// columns lets a simulation follow the columns of a header.
func (d *diskView) columns() {
	x, t := d.x, d.t
	tables := map[string][][2]AV{}
	x.over = func(fr *EFrame, st *EState, in ssa.Instruction) []*EState {
		switch i := in.(type) {
		case *ssa.Slice:
			a := x.norm(st, x.eval(fr, st, i.X))
			c := t.isColumn(a)
			if !isBytesOrString(i.X.Type()) || a.k != avSym && a.k != avNonNil || isTerm(a) && c == nil {
				return nil
			}
			if c != nil && inLoop(i.Block()) && isBasic(i.X.Type(), types.String) {
				// something is stripped again and again: what R15 looks at
				st.env[i] = a
				return []*EState{st}
			}
			lo, hi := uint64(0), uint64(60)
			if c != nil {
				lo, hi = c.a[0].val, c.a[1].val
			}
			base := lo
			if i.Low != nil {
				v := x.norm(st, x.eval(fr, st, i.Low))
				if v.k != avBits || v.mask != ^uint64(0) {
					return nil
				}
				lo = base + v.val
			}
			if i.High != nil {
				v := x.norm(st, x.eval(fr, st, i.High))
				if v.k != avBits || v.mask != ^uint64(0) {
					return nil
				}
				hi = base + v.val
			}
			if lo >= hi || hi > 60 || hi-lo > 18 {
				return nil
			}
			st.env[i] = t.AV(t.column(lo, hi))
			return []*EState{st}
		case *ssa.MapUpdate:
			m, k := x.norm(st, x.eval(fr, st, i.Map)), x.norm(st, x.eval(fr, st, i.Key))
			if m.sym == "" {
				return nil
			}
			if inLoop(i.Block()) || k.k != avPtr {
				tables[m.sym] = append(tables[m.sym], [2]AV{})
				return nil
			}
			tables[m.sym] = append(tables[m.sym], [2]AV{k, x.norm(st, x.eval(fr, st, i.Value))})
		case *ssa.Next:
			rg, ok := i.Iter.(*ssa.Range)
			if !ok {
				return nil
			}
			l := tables[x.norm(st, x.eval(fr, st, rg.X)).sym]
			if len(l) == 0 || len(l) > 20 {
				return nil
			}
			s0 := st.clone()
			s0.env[i] = AV{k: avTuple, el: []AV{avFalse, {}, {}}}
			out := []*EState{s0}
			seen := map[string]bool{}
			for _, e := range l {
				if e[0].k != avPtr {
					return nil
				}
				if seen[e[0].key()+e[1].key()] {
					continue
				}
				seen[e[0].key()+e[1].key()] = true
				s := st.clone()
				s.env[i] = AV{k: avTuple, el: []AV{avTrue, e[0], e[1]}}
				out = append(out, s)
			}
			return out
		}
		return nil
	}
	x.bin = func(x *Esp, fr *EFrame, st *EState, in *ssa.BinOp, a, b AV) (AV, bool) {
		if in.Op == token.ADD && isBytesOrString(in.Type()) {
			if t.isColumn(a) != nil && b.k == avStr {
				return a, true
			}
			if t.isColumn(b) != nil && a.k == avStr {
				return b, true
			}
		}
		return AV{}, false
	}
	under := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		one := func(v AV) ([]EOutcome, bool) { return []EOutcome{{st, v}}, true }
		var col *Tm
		if len(c.args) > 0 {
			col = t.isColumn(x.norm(st, c.args[0]))
		}
		if col == nil {
			if c.name == "(*archive/tar.Header).FileInfo" {
				if cell, ok := x.cellOf(c.args[0]); ok {
					m := x.loadCell(st, sub(cell, "Mode"), types.Typ[types.Int64])
					if e, ok := x.tm(x.norm(st, m), types.Typ[types.Int64]); ok {
						return one(t.AV(t.mk("f", i64, "header with mode", 0, e)))
					}
				}
			}
			if c.method == "Mode" && isTerm(c.recv) {
				return one(t.AV(t.mk("f", i64, "mode", 0, t.tab[c.recv.sym[3:]])))
			}
			return under(x, fr, st, c)
		}
		switch c.name {
		case "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.TrimSuffix", "strings.TrimPrefix", "bytes.TrimSpace", "bytes.TrimRight", "bytes.TrimLeft", "bytes.Trim",
			"path/filepath.ToSlash", "path.Clean", "path.Base", "path/filepath.Base":
			return one(x.norm(st, c.args[0]))
		case "strconv.Atoi":
			return one(AV{k: avTuple, el: []AV{t.AV(t.number(col, 10)), {k: avNil}}})
		case "strconv.ParseInt", "strconv.ParseUint":
			if b := c.args[1]; b.k == avBits && b.mask == ^uint64(0) && b.val >= 2 && b.val <= 16 {
				return one(AV{k: avTuple, el: []AV{t.AV(t.number(col, b.val)), {k: avNil}}})
			}
		}
		return under(x, fr, st, c)
	}
}

func isBytesOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isBasic(u.Elem(), types.Uint8)
	}
	return false
}

// arParsers lists the functions that make an entry of a header.
func arParsers(p *Program) (out []*ssa.Function) {
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) != modPath+"/arfs" || fn.Synthetic != "" || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 {
			continue
		}
		n := namedOf(deref(fn.Signature.Results().At(0).Type()))
		if n == nil || n.Obj().Name() != "Entry" || !inModulePath(n.Obj().Pkg().Path()) {
			continue
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if isBytesOrString(fn.Signature.Params().At(i).Type()) {
				out = append(out, fn)
				break
			}
		}
	}
	return
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// judgeColumns compares the fields of an ar entry with the columns of the format.
func judgeColumns(p *Program, r *Result) {
	for _, fn := range arParsers(p) {
		d := newArView(p)
		d.columns()
		j := &diskJudge{d, r, fn, "ar header"}
		et, _ := d.sp.Members["Entry"].(*ssa.Type)
		if et == nil {
			continue
		}
		cols := map[string]*Tm{"Timestamp": d.t.number(d.t.column(16, 28), 10), "Uid": d.t.number(d.t.column(28, 34), 10), "Gid": d.t.number(d.t.column(34, 40), 10), "FileSize": d.t.number(d.t.column(48, 58), 10), "Filename": d.t.column(0, 16),
			"FileMode": d.t.mk("f", i64, "mode", 0, d.t.mk("f", i64, "header with mode", 0, d.t.number(d.t.column(40, 48), 8)))}
		set := map[string]bool{}
		lost := map[string]bool{}
		done := false
		for _, o := range d.x.Entry(fn, nil) {
			if certainError(d.x, o.st, errorOf(d.x, fn, o)) {
				continue
			}
			cell, ok := d.x.cellOf(d.x.first(o))
			if !ok {
				continue
			}
			done = true
			for _, f := range keysOf(cols) {
				t := structField(et.Type(), f)
				if t == nil {
					continue
				}
				v := d.x.norm(o.st, d.x.loadCell(o.st, sub(cell, f), t))
				if v.k == avBits && v.val == 0 && v.mask == ^uint64(0) || v.k == avStr && v.str == "" {
					continue // an empty column
				}
				set[f] = true
				if got := d.t.isColumn(v); f == "Filename" {
					if got == nil {
						lost[f] = true
						continue
					}
					r.check(got.key == cols[f].key, "ar header", shortFn(fn)+" ("+p.GOOS+"): "+f, p.at(fn.Pos()), fmt.Sprintf("comes from columns %d to %d", got.a[0].val, got.a[1].val))
					continue
				}
				if f == "FileMode" {
					if !isTerm(v) || d.t.tab[v.sym[3:]] == nil || d.t.tab[v.sym[3:]].op != "f" {
						lost[f] = true
						continue
					}
					got := d.t.tab[v.sym[3:]]
					r.check(d.t.norm(got, nil).String() == d.t.norm(cols[f], nil).String(), "ar header", shortFn(fn)+" ("+p.GOOS+"): "+f, p.at(fn.Pos()), "is "+d.t.show(got))
					continue
				}
				got, _ := d.x.tm(v, types.Typ[types.Int64])
				j.term(o.st, "ar header", f, p.at(fn.Pos()), got, constTm(cols[f]))
			}
		}
		for _, f := range keysOf(cols) {
			if done && structField(et.Type(), f) != nil && !set[f] {
				r.bad("ar header", shortFn(fn)+" ("+p.GOOS+"): "+f, p.at(fn.Pos()), f+" is never taken from the header")
			}
			if lost[f] {
				r.Units["values that are not followed "+p.GOOS]++
			}
		}
	}
}

// arFields names the numbers of an entry.
func (d *diskView) arFields() {
	d.t.Atom("Entry.FileSize", i64, 0, 9999999999)
	d.t.Atom("Entry.Timestamp", i64, 0, 999999999999)
	d.x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
		n := namedOf(owner)
		if n == nil || n.Obj().Name() != "Entry" || n.Obj().Pkg() != d.sp.Pkg {
			return AV{}, false
		}
		if e := d.t.tab["Entry."+f.Name()]; e != nil {
			return d.t.AV(e), true
		}
		return AV{}, false
	}
}

// judgeArInfo checks the file information of an ar entry.
func judgeArInfo(p *Program, r *Result) {
	for _, n := range moduleTypes(p, implementsInfo) {
		if n.Obj().Pkg().Path() != modPath+"/arfs" {
			continue
		}
		d := newArView(p)
		timed(d.x, d.t)
		d.arFields()
		if fn := p.method(n, "Size"); fn != nil {
			j := &diskJudge{d, r, fn, "ar entry"}
			for _, o := range d.x.Entry(fn, nil) {
				got, _ := d.x.tm(d.x.first(o), types.Typ[types.Int64])
				j.term(o.st, "file information", "Size", p.at(fn.Pos()), got, constTm(d.at("Entry.FileSize")))
			}
		}
		if fn := p.method(n, "ModTime"); fn != nil {
			j := &diskJudge{d, r, fn, "ar entry"}
			for _, o := range d.x.Entry(fn, nil) {
				s, n := d.t.asTime(d.x.first(o))
				j.term(o.st, "file information", "ModTime, seconds", p.at(fn.Pos()), s, constTm(d.at("Entry.Timestamp")))
				j.term(o.st, "file information", "ModTime, nanoseconds", p.at(fn.Pos()), n, constTm(d.t.Num(0, i64)))
			}
		}
	}
}

// runR19 follows the opening of an ar archive.
func runR19(env *Env, r *Result) { followAr(env, r, newResult("")) }

func runR20(env *Env, r *Result) { followAr(env, newResult(""), r) }

// looked decides whether the last byte of the content of the member last met has been read.
func (d *diskView) looked(r *Result, fn *ssa.Function, st *EState) {
	t := d.t
	if st.ghost["+other"] != "" {
		return // something else looks at the archive
	}
	var header *Tm
	var reads []diskEvent
	at, heads := "", 0
	for _, e := range d.events(st) {
		switch {
		case e.kind == "read" && (e.off == nil || e.n == nil):
			return
		case e.kind == "read" && e.n.op == "const" && e.n.val == arEntrySize:
			header, reads, at = e.off, nil, e.at
			heads++
		case e.kind == "read":
			reads = append(reads, e)
		}
	}
	if header == nil || heads > 3 {
		return
	}
	size := d.at("Entry.FileSize")
	last := t.Op("+", i64, header, t.Op("+", i64, size, t.Num(arEntrySize-1, i64)))
	for _, asg := range t.consistent(st) {
		n, ok := t.eval(size, asg)
		l, ok2 := t.eval(last, asg)
		if !ok || !ok2 {
			return
		}
		if int64(n) <= 0 {
			continue
		}
		if st.ghost["+short"] != "" {
			r.bad("content", shortFn(fn)+" ("+d.p.GOOS+")", at, "the archive can be opened although the content of a member could not be read", st.path()...)
			return
		}
		found := false
		for _, e := range reads {
			a, ok := t.eval(e.off, asg)
			b, ok2 := t.eval(e.n, asg)
			if !ok || !ok2 {
				return
			}
			found = found || a <= l && l < a+b
		}
		if !found {
			r.bad("content", shortFn(fn)+" ("+d.p.GOOS+")", at, fmt.Sprintf("the archive can be opened without a look at the last byte of a member of %d bytes, which the archive may not have", n), st.path()...)
			return
		}
	}
	r.ok("content", shortFn(fn)+" ("+d.p.GOOS+")", at)
}

func followAr(env *Env, r, r20 *Result) {
	env.each(func(p *Program) {
		d := newArView(p)
		x, t := d.x, d.t
		d.arFields()
		x.peel = 3
		fn := d.sp.Func("Open")
		if fn == nil || fn.Blocks == nil {
			r.Units["entry points not found"]++
			return
		}
		j := &diskJudge{d, r, fn, "ar archive"}
		size := d.at("Entry.FileSize")
		// header is the offset of a header, counted from 0
		header := func(n int) *Tm {
			member := t.Op("+", i64, t.Op("+", i64, size, t.Op("%", i64, size, t.Num(2, i64))), t.Num(60, i64))
			return t.Op("+", i64, t.Num(8, i64), t.Op("*", i64, t.Num(uint64(n), i64), member))
		}
		section := func(st *EState, c *ECall, off, n *Tm) {
			h := 0
			for _, e := range d.events(st) {
				if e.kind == "read" && e.n != nil && e.n.op == "const" && e.n.val == 60 {
					h++
				}
			}
			if h == 0 || h > 3 {
				return
			}
			j.term(st, "member", "offset of the content", p.at(c.in.Pos()), off, constTm(t.Op("+", i64, header(h-1), t.Num(60, i64))))
			j.term(st, "member", "length of the content", p.at(c.in.Pos()), n, constTm(size))
		}
		under := x.call
		x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
			if !strings.HasPrefix(fr.pre, "content/") && c.method != "ReadAt" && usesReader(c) {
				st.ghost["+other"] = "1"
			}
			switch {
			case c.name == "io.NewSectionReader" && len(c.args) == 3:
				section(st, c, d.num(c.args[1]), d.num(c.args[2]))
			case c.method == "ReadAt" && len(c.args) == 2 && strings.HasPrefix(c.name, "invoke "):
				l, ok := lenOf(c.args[0])
				var n *Tm
				if ok {
					n = d.num(x.norm(st, l))
				}
				if n != nil && n.op == "const" && n.val == arEntrySize {
					d.looked(r20, fn, st)
				}
				if !d.event(st, "read", d.num(c.args[1]), n, c.in) {
					return nil, true
				}
				if ok && errIndex(c.sig) == 1 {
					end := st.clone()
					if n == nil || n.op != "const" || n.val != arEntrySize {
						end.ghost["+short"] = "1"
					}
					havocArgs(x, st, c, fr.pre+callTag(c.in))
					return []EOutcome{{st, AV{k: avTuple, el: []AV{x.norm(st, l), {k: avNil}}}}, {end, AV{k: avTuple, el: []AV{avInt(0), nonNil("io.EOF")}}}}, true
				}
			}
			return under(x, fr, st, c)
		}
		x.over = func(fr *EFrame, st *EState, in ssa.Instruction) []*EState {
			i, ok := in.(*ssa.MapUpdate)
			if !ok {
				return nil
			}
			cell, ok := x.cellOf(x.norm(st, x.eval(fr, st, i.Value)))
			if !ok {
				return nil
			}
			et, ok := deref(i.Value.Type()).Underlying().(*types.Struct)
			for k := 0; ok && k < et.NumFields(); k++ {
				if _, isFn := et.Field(k).Type().Underlying().(*types.Signature); isFn {
					f := x.norm(st, x.loadCell(st, sub(cell, et.Field(k).Name()), et.Field(k).Type()))
					if f.k != avFn || f.fn == nil || len(f.fn.FreeVars) != len(f.el) || len(f.fn.Params) != 0 {
						continue
					}
					s := st.clone()
					s.env = map[ssa.Value]AV{}
					for n, v := range f.fn.FreeVars {
						s.env[v] = f.el[n]
					}
					x.Run(&EFrame{fn: f.fn, pre: "content/", keep: map[string]bool{}}, s)
				}
			}
			return nil
		}
		outs := x.Entry(fn, nil)
		for _, st := range d.cuts {
			outs = append(outs, EOutcome{st, AV{k: avTuple, el: []AV{sym("cut"), sym("cut")}}})
		}
		for _, o := range outs {
			h := 0
			for _, e := range d.events(o.st) {
				if e.kind != "read" || e.off == nil || e.n == nil || e.n.op != "const" || e.n.val != 60 {
					continue
				}
				j.term(o.st, "header", fmt.Sprintf("offset of header %d", h+1), e.at, e.off, constTm(header(h)))
				h++
			}
		}
		r.Units["states "+p.GOOS] += x.steps
		r20.Units["states "+p.GOOS] += x.steps
	})
	if r.ID == "" {
		return
	}
	r.floor("header", 1)
}

// usesReader reports that a call is handed an input.
func usesReader(c *ECall) bool {
	ps := c.sig.Params()
	for i := 0; i < ps.Len(); i++ {
		if n := namedOf(ps.At(i).Type()); n != nil && n.Obj().Name() == "ReaderAt" {
			return !strings.HasPrefix(c.name, "module ")
		}
	}
	return false
}

func structField(t types.Type, name string) types.Type {
	s, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func runR09(env *Env, r *Result) {
	env.each(func(p *Program) {
		for layout := uint64(0); layout < 2; layout++ {
			tag := map[uint64]string{0: "compact", 1: "extended"}[layout] + " inode"
			d := newDiskView(p, layout, 0, 0100644)
			timed(d.x, d.t)
			fn, outs := d.readInode(func(*ssa.Function, *EState) {})
			if fn == nil {
				r.Units["entry points not found"]++
				continue
			}
			sec, nsec := d.at("SuperBlock.BuildTime"), d.at("SuperBlock.BuildTimeNsec")
			if layout == 1 {
				sec, nsec = d.at("InodeExtended.Mtime"), d.at("InodeExtended.MtimeNsec")
			}
			want := map[string]*Tm{"Size": d.at(d.ext + ".Size"), "Nlink": d.at(d.ext + ".Nlink"), "UID": d.at(d.ext + ".UID"), "GID": d.at(d.ext + ".GID"), "Nid": d.at("nid"), "Mtime": sec, "MtimeNsec": nsec}
			for _, o := range outs {
				s := EOutcome{o.st.clone(), o.res}
				ptr := d.place(s)
				for _, m := range keysOf(want) {
					fn := d.inodeMethod(m)
					if fn == nil || len(fn.Params) != 1 || want[m] == nil {
						r.Units["entry points not found"]++
						continue
					}
					j := &diskJudge{d, r, fn, tag}
					for _, o := range d.invoke(s.st, fn, ptr) {
						got, _ := d.x.tm(d.x.first(o), fn.Signature.Results().At(0).Type())
						j.term(o.st, "inode", m, p.at(fn.Pos()), got, constTm(want[m]))
					}
				}
			}
			for _, n := range moduleTypes(p, implementsDirEntry) {
				if n.Obj().Pkg().Path() != modPath+"/erofs" {
					continue
				}
				info := p.method(n, "Info")
				if info == nil {
					continue
				}
				for _, o := range d.x.Entry(info, nil) {
					if certainError(d.x, o.st, errorOf(d.x, info, o)) {
						continue
					}
					fi := d.x.first(o)
					if fn, outs := d.x.afterwards(o.st, fi, "Size"); fn != nil {
						j := &diskJudge{d, r, fn, tag}
						for _, o := range outs {
							got, _ := d.x.tm(d.x.first(o), types.Typ[types.Int64])
							j.term(o.st, "file information", "Size", p.at(fn.Pos()), got, constTm(want["Size"]))
						}
					}
					if fn, outs := d.x.afterwards(o.st, fi, "ModTime"); fn != nil {
						j := &diskJudge{d, r, fn, tag}
						for _, o := range outs {
							s, n := d.t.asTime(d.x.first(o))
							j.term(o.st, "file information", "ModTime, seconds", p.at(fn.Pos()), s, constTm(sec))
							j.term(o.st, "file information", "ModTime, nanoseconds", p.at(fn.Pos()), n, constTm(nsec))
						}
					}
				}
			}
		}
	})
	env.each(func(p *Program) {
		judgeColumns(p, r)
		judgeArInfo(p, r)
	})
	r.floor("inode", 1)
}

func init() {
	register(&Check{ID: "R19", Level: "other", Rule: "Value numbering over the sizes of the members of an ar archive: the offset of every header that is read and of the content of every member must be the expression that the format defines.", Run: runR19})
	register(&Check{ID: "R20", Level: "other", Rule: "Value numbering over the sizes of the members of an ar archive: on every path of the function that opens one, before the next header is read, a read covers the last byte of the content of the member (for every size that fits the branches taken, unless it is empty).", Run: runR20})
	register(&Check{ID: "R09", Level: "other", Rule: "Value numbering over the fields of an EROFS inode and the columns of an ar header: what the accessors and the file information report must be the expression over these fields that the format defines.", Run: runR09})
}
