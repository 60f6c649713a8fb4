package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the writer of ar archives puts into the headers. Text that is put together from numbers and names is an
// expression "text" of parts: "lit:…", "dec", "oct", "hex" (a number with at least so many digits), "str:…" (a string
// of unknown content) and "pad" (a text padded with spaces to a width).

const padLeft = 1 << 16

func (t *Terms) text(segs ...*Tm) AV {
	var flat []*Tm
	for _, s := range segs {
		if s.op == "f" && s.name == "text" {
			flat = append(flat, s.a...)
		} else {
			flat = append(flat, s)
		}
	}
	return t.AV(t.mk("f", i64, "text", 0, flat...))
}

func (t *Terms) lit(s string) *Tm { return t.mk("f", i64, "lit:"+s, 0) }

func (t *Terms) asText(a AV) *Tm {
	if a.k == avStr {
		return t.mk("f", i64, "text", 0, t.lit(a.str))
	}
	if !isTerm(a) {
		return nil
	}
	if e := t.tab[a.sym[3:]]; e != nil && e.op == "f" && e.name == "text" {
		return e
	}
	return nil
}

// unknownText is a string of which only the origin is known.
func (t *Terms) unknownText(origin string) AV {
	t.Atom("length of "+origin, i64, 0, 40)
	return t.text(t.mk("f", i64, "str:"+origin, 0))
}

// length is the number of bytes of a text.
func (t *Terms) length(e *Tm) *Tm {
	switch {
	case e.op != "f":
		return nil
	case e.name == "text":
		n := t.Num(0, i64)
		for _, s := range e.a {
			l := t.length(s)
			if l == nil {
				return nil
			}
			n = t.Op("+", i64, n, l)
		}
		return n
	case strings.HasPrefix(e.name, "lit:"):
		return t.Num(uint64(len(e.name)-4), i64)
	case strings.HasPrefix(e.name, "str:"):
		return t.Atom("length of "+e.name[4:], i64, 0, 40)
	case e.name == "pad":
		l := t.length(e.a[0])
		if l == nil {
			return nil
		}
		return t.mk("max", i64, "", 0, l, t.Num(e.val&^padLeft, i64))
	case e.name == "cut":
		l := t.length(e.a[0])
		if l == nil {
			return nil
		}
		return t.mk("min", i64, "", 0, l, t.Num(e.val, i64))
	case e.name == "dec" || e.name == "oct" || e.name == "hex":
		return t.mk("digits", i64, e.name, e.val, e.a[0])
	}
	return nil
}

// digits is a number in a base, padded with zeros.
func digits(v uint64, sg bool, base string, width uint64) string {
	b := map[string]int{"dec": 10, "oct": 8, "hex": 16}[base]
	s := strconv.FormatUint(v, b)
	if sg && int64(v) < 0 {
		s = strconv.FormatUint(-v, b)
		width--
	}
	for uint64(len(s)) < width && width < 100 {
		s = "0" + s
	}
	if sg && int64(v) < 0 {
		s = "-" + s
	}
	return s
}

// render is a text for given inputs.
func (t *Terms) render(e *Tm, asg map[string]uint64) (string, bool) {
	switch {
	case e.op != "f":
		return "", false
	case e.name == "text":
		r := ""
		for _, s := range e.a {
			p, ok := t.render(s, asg)
			if !ok {
				return "", false
			}
			r += p
		}
		return r, true
	case strings.HasPrefix(e.name, "lit:"):
		return e.name[4:], true
	case strings.HasPrefix(e.name, "str:"):
		n, ok := asg["length of "+e.name[4:]]
		c := "n"
		if e.name != "str:name" {
			c = "?"
		}
		return strings.Repeat(c, int(n)), ok && n < 1000
	case e.name == "pad":
		s, ok := t.render(e.a[0], asg)
		w := int(e.val &^ padLeft)
		for len(s) < w {
			if e.val&padLeft != 0 {
				s += " "
			} else {
				s = " " + s
			}
		}
		return s, ok
	case e.name == "cut":
		s, ok := t.render(e.a[0], asg)
		if len(s) > int(e.val) {
			s = s[:e.val]
		}
		return s, ok
	}
	v, ok := t.eval(e.a[0], asg)
	return digits(v, e.a[0].typ.signed, e.name, e.val), ok
}

// format is the text that a format string makes.
func (d *diskView) format(st *EState, f string, args AV) (AV, bool) {
	x, t := d.x, d.t
	var segs []*Tm
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for i < len(f) && f[i] != '%' {
				i++
			}
			segs = append(segs, t.lit(f[j:i]))
			i--
			continue
		}
		left, zero := false, false
		for i++; i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0; i++ {
			left = left || f[i] == '-'
			zero = zero || f[i] == '0'
			if f[i] == '#' || f[i] == '+' || f[i] == ' ' {
				return AV{}, false
			}
		}
		width := uint64(0)
		next := func() (AV, bool) {
			if args.k != avSlice {
				return AV{}, false
			}
			e, ok := st.mem[sub(args.cell, fmt.Sprintf("[%d]", n))]
			n++
			return x.norm(st, e), ok
		}
		if i < len(f) && f[i] == '*' {
			a, ok := next()
			if !ok || a.k != avBits || a.mask != ^uint64(0) || a.val > 100 {
				return AV{}, false
			}
			width = a.val
			i++
		} else {
			for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
				width = width*10 + uint64(f[i]-'0')
			}
		}
		limit := -1
		if i < len(f) && f[i] == '.' {
			limit = 0
			if i++; i < len(f) && f[i] == '*' {
				a, ok := next()
				if !ok || a.k != avBits || a.mask != ^uint64(0) || a.val > 100 {
					return AV{}, false
				}
				limit = int(a.val)
				i++
			}
			for ; i < len(f) && f[i] >= '0' && f[i] <= '9' && limit < 100; i++ {
				limit = limit*10 + int(f[i]-'0')
			}
		}
		if i >= len(f) || width > 100 || limit >= 0 && f[i] != 's' {
			return AV{}, false
		}
		if f[i] == '%' {
			segs = append(segs, t.lit("%"))
			continue
		}
		a, ok := next()
		if !ok {
			return AV{}, false
		}
		var s *Tm
		switch verb := f[i]; verb {
		case 's', 'v', 'd', 'o', 'x':
			if e := t.asText(a); e != nil && (verb == 's' || verb == 'v') {
				s = e
				break
			}
			typ := a.dyn
			if typ == nil {
				typ = types.Typ[types.Int64]
			}
			e, ok := x.tm(a, typ)
			if !ok || verb == 's' || e.op == "f" {
				return AV{}, false
			}
			base := map[byte]string{'v': "dec", 'd': "dec", 'o': "oct", 'x': "hex"}[verb]
			if zero && !left {
				s = t.mk("f", i64, base, width, e)
				width = 0
			} else {
				s = t.mk("f", i64, base, 0, e)
			}
		default:
			return AV{}, false
		}
		if limit >= 0 {
			s = t.mk("f", i64, "cut", uint64(limit), s)
		}
		if width > 0 {
			w := width
			if left {
				w |= padLeft
			}
			s = t.mk("f", i64, "pad", w, s)
		}
		segs = append(segs, s)
	}
	return t.text(segs...), true
}

// texts lets a simulation follow text that is put together from numbers.
func (d *diskView) texts() {
	x, t := d.x, d.t
	over := x.over
	x.over = func(fr *EFrame, st *EState, in ssa.Instruction) []*EState {
		switch i := in.(type) {
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if a := x.norm(st, x.eval(fr, st, i.Call.Args[0])); isTerm(a) {
					if e := t.asText(a); e != nil {
						if l := t.length(e); l != nil {
							st.env[i] = t.AV(l)
							return []*EState{st}
						}
					}
				}
			}
		case *ssa.Slice:
			a := x.norm(st, x.eval(fr, st, i.X))
			if !isTerm(a) || t.asText(a) == nil || i.High == nil {
				break
			}
			if i.Low != nil {
				if l := x.norm(st, x.eval(fr, st, i.Low)); l.k != avBits || l.val != 0 || l.mask != ^uint64(0) {
					break
				}
			}
			if h := x.norm(st, x.eval(fr, st, i.High)); h.k == avBits && h.mask == ^uint64(0) && h.val < 100 {
				st.env[i] = t.text(t.mk("f", i64, "cut", h.val, t.asText(a)))
				return []*EState{st}
			}
		case *ssa.Convert:
			if isBytesOrString(i.X.Type()) && isBytesOrString(i.Type()) {
				if a := x.norm(st, x.eval(fr, st, i.X)); isTerm(a) && t.asText(a) != nil {
					st.env[i] = a
					return []*EState{st}
				}
			}
		}
		if over != nil {
			return over(fr, st, in)
		}
		return nil
	}
	bin := x.bin
	x.bin = func(x *Esp, fr *EFrame, st *EState, in *ssa.BinOp, a, b AV) (AV, bool) {
		if in.Op == token.ADD && isBytesOrString(in.Type()) {
			l, r := t.asText(a), t.asText(b)
			if l != nil && r != nil && (isTerm(a) || isTerm(b)) {
				if a.k == avStr && a.str == "/" {
					return b, true // a path that is about to be cleaned
				}
				return t.text(l, r), true
			}
		}
		if bin != nil {
			return bin(x, fr, st, in, a, b)
		}
		return AV{}, false
	}
	under := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		one := func(v AV) ([]EOutcome, bool) { return []EOutcome{{st, v}}, true }
		num := func(i int) *Tm {
			e, _ := x.tm(x.norm(st, c.args[i]), c.sig.Params().At(i).Type())
			if e != nil && e.op == "f" {
				return nil
			}
			return e
		}
		switch c.name {
		case "fmt.Sprintf":
			if f := x.norm(st, c.args[0]); f.k == avStr && len(c.args) == 2 {
				if v, ok := d.format(st, f.str, c.args[1]); ok {
					return one(v)
				}
			}
		case "strconv.Itoa":
			if e := num(0); e != nil {
				return one(t.text(t.mk("f", i64, "dec", 0, e)))
			}
		case "strconv.FormatInt", "strconv.FormatUint":
			b := x.norm(st, c.args[1])
			n := map[uint64]string{8: "oct", 10: "dec", 16: "hex"}[b.val]
			if e := num(0); e != nil && b.k == avBits && n != "" {
				return one(t.text(t.mk("f", i64, n, 0, e)))
			}
		case "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "path.Clean", "path.Base", "path/filepath.Clean", "path/filepath.Base", "path/filepath.ToSlash":
			if a := x.norm(st, c.args[0]); isTerm(a) && t.asText(a) != nil {
				return one(a)
			}
		}
		return under(x, fr, st, c)
	}
}

// arWriter simulates the writing of an archive; every time that content follows, judge gets the text written before.
func arWriter(p *Program, judge func(d *diskView, st *EState, header *Tm, at string)) (*diskView, *ssa.Function, []EOutcome) {
	d := &diskView{p: p, x: newEsp(p), t: newTerms(), sp: p.SPkgs[modPath+"/arfs"]}
	x, t := d.x, d.t
	x.deep, x.fold, x.terms = true, true, t
	x.limit = 1000000
	newWorld(fileKinds[0], 0, 0644).hook(x, nil)
	timed(x, t)
	d.sourceAtoms()
	d.texts()
	t.pick = append(t.pick, func(r *rand.Rand, asg map[string]uint64) {
		small := r.Intn(4)
		for n := range asg {
			switch {
			case strings.HasPrefix(n, "length of ") && small > 0:
				asg[n] = uint64(r.Intn(17))
			case strings.HasPrefix(n, "length of "):
				asg[n] = uint64(r.Intn(30))
			case strings.HasPrefix(n, srcNoTime):
				asg[n] &= 1
			case small == 1:
				asg[n] = uint64(r.Intn(100000))
			case small == 2:
				asg[n] = uint64(r.Intn(1000000))
			}
			if strings.HasPrefix(n, "header Mode") {
				asg[n] &= 07777
			}
			if strings.HasPrefix(n, "copied at ") && r.Intn(2) == 0 {
				for m, v := range asg {
					if strings.HasPrefix(m, srcSize) {
						asg[n] = v
						if r.Intn(3) == 0 {
							asg[n] = v + uint64(r.Intn(3))
						}
					}
				}
			}
		}
	})
	field := x.field
	x.field = func(st *EState, owner types.Type, f *types.Var) (AV, bool) {
		if n := namedOf(owner); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "archive/tar" && n.Obj().Name() == "Header" {
			src := st.ghost["+hdr"]
			switch f.Name() {
			case "Uid", "Gid":
				return t.AV(t.Atom("header "+f.Name(), i64, 0, 1<<33)), true
			case "Mode":
				return t.AV(t.Atom("header Mode", i64, 0, 07777)), true
			case "Size":
				return t.AV(t.Atom(srcSize+src, i64, 0, 1<<40)), true
			case "ModTime":
				return t.AV(t.timeTm(t.Signed(srcSec+src, i64, -1<<35, 1<<40), t.Atom(srcNsec+src, i64, 0, 999999999))), true
			case "Name":
				return t.unknownText("name"), true
			}
		}
		return field(st, owner, f)
	}
	under := x.call
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		one := func(v AV) ([]EOutcome, bool) { return []EOutcome{{st, v}}, true }
		okN := func() ([]EOutcome, bool) {
			return one(AV{k: avTuple, el: []AV{sym(fr.pre + callTag(c.in)), {k: avNil}}})
		}
		write := func(e *Tm) ([]EOutcome, bool) {
			old := t.tab[st.ghost["+header"]]
			if old == nil && len(e.a) == 1 && strings.HasPrefix(e.a[0].name, "lit:") {
				return okN() // the magic, padding
			}
			var a AV
			if old != nil {
				a = t.text(old, e)
			} else {
				a = t.text(e)
			}
			st.ghost["+header"] = a.sym[3:]
			return okN()
		}
		switch c.name {
		case "invoke FileInfo.Name", "invoke DirEntry.Name":
			return one(t.unknownText("name"))
		case "archive/tar.FileInfoHeader":
			st.ghost["+hdr"] = srcName(c.args[0])
			st.facts[fr.pre+callTag(c.in)+".0"] = AV{k: avNonNil}
		case "io.WriteString", "invoke Writer.Write":
			a := c.args[len(c.args)-1]
			if e := t.asText(x.norm(st, a)); e != nil {
				return write(e)
			}
			st.ghost["+lost"] = "1"
		case "fmt.Fprintf":
			if f := x.norm(st, c.args[1]); f.k == avStr && len(c.args) == 3 {
				if v, ok := d.format(st, f.str, c.args[2]); ok {
					return write(t.asText(v))
				}
			}
			st.ghost["+lost"] = "1"
		case "io.Copy", "io.CopyBuffer", "io.CopyN":
			e := t.tab[st.ghost["+header"]]
			delete(st.ghost, "+header")
			at := p.at(c.in.Pos())
			if st.ghost["+lost"] == "" && e != nil {
				judge(d, st, e, at)
				n := t.Atom("copied at "+at, i64, 0, 1<<40)
				if c.name == "io.CopyN" {
					if m := d.num(x.norm(st, c.args[2])); m != nil {
						n = m
					}
				}
				st.ghost["+copied"] = n.key
				return one(AV{k: avTuple, el: []AV{t.AV(n), {k: avNil}}})
			}
		}
		return under(x, fr, st, c)
	}
	fn := d.sp.Func("Create")
	return d, fn, x.Entry(fn, nil)
}

// arHeaderOf is the header that the format defines for an entry.
func arHeaderFor(asg map[string]uint64, src string) (string, [][2]int) {
	pad := func(s string, w int) string {
		for len(s) < w {
			s += " "
		}
		return s
	}
	s := pad(strings.Repeat("n", int(asg["length of name"])), 16) + pad(digits(asg[srcSec+src], true, "dec", 0), 12) + pad(digits(asg["header Uid"], true, "dec", 0), 6) + pad(digits(asg["header Gid"], true, "dec", 0), 6) +
		pad(digits(asg["header Mode"], true, "oct", 0), 8) + pad(digits(asg[srcSize+src], true, "dec", 0), 10) + "`\n"
	return s, [][2]int{{0, 16}, {16, 28}, {28, 34}, {34, 40}, {40, 48}, {48, 58}, {58, 60}}
}

var arColumns = []string{"name", "modification time", "owner", "group", "mode", "size", "end of the header"}

func runW04(env *Env, r *Result) {
	env.each(func(p *Program) {
		d, fn, _ := arWriter(p, func(d *diskView, st *EState, header *Tm, at string) {
			if espDebug == "W04" {
				fmt.Println(d.t.show(header))
			}
			asgs := d.t.consistent(st)
			src := st.ghost["+hdr"]
			name := "arfs.Create (" + p.GOOS + "): header"
			judged, bad := 0, ""
			for _, asg := range asgs {
				got, ok := d.t.render(header, asg)
				if !ok || strings.Contains(got, "?") {
					continue
				}
				judged++
				want, cols := arHeaderFor(asg, src)
				if len(got) != 60 {
					bad = fmt.Sprintf("a header of %d bytes is written: %q", len(got), got)
					break
				}
				if len(want) != 60 {
					bad = fmt.Sprintf("values that do not fit are cut: %q", got)
					break
				}
				for k, c := range cols {
					g, w := got[c[0]:c[1]], want[c[0]:c[1]]
					if k == 4 {
						g = strings.TrimLeft(g, "0")
						w = strings.TrimLeft(w, "0")
						if strings.TrimRight(g, " ") == strings.TrimRight(w, " ") {
							continue
						}
					}
					if g != w {
						bad = fmt.Sprintf("columns %d to %d (%s) are %q, expected %q", c[0], c[1], arColumns[k], got[c[0]:c[1]], want[c[0]:c[1]])
					}
				}
				if bad != "" {
					break
				}
			}
			if judged == 0 {
				r.Units["paths no input was found for "+p.GOOS]++
				return
			}
			r.Units["inputs rendered "+p.GOOS] += judged
			if bad != "" {
				r.bad("ar header", name, at, bad, st.path()...)
			} else {
				r.ok("ar header", name, at)
			}
		})
		_ = fn
		r.Units["states "+p.GOOS] += d.x.steps
	})
	r.floor("ar header", 0)
}

// runW03 decides that content which is longer or shorter than recorded is refused.
func runW03(env *Env, r *Result) {
	env.each(func(p *Program) {
		judge := func(d *diskView, fn *ssa.Function, outs []EOutcome, recorded func(n string) bool) {
			for _, o := range outs {
				if certainError(d.x, o.st, errorOf(d.x, fn, o)) {
					continue
				}
				n := d.t.tab[o.st.ghost["+copied"]]
				if n == nil {
					continue
				}
				asgs := d.t.consistent(o.st)
				if len(asgs) == 0 {
					r.Units["paths no input was found for "+p.GOOS]++
					continue
				}
				why := "nothing is compared with the recorded size"
				ok := false
				for _, a := range keysOf(d.t.lo) {
					if !recorded(a) {
						continue
					}
					all := true
					for _, asg := range asgs {
						if v, k := d.t.eval(n, asg); !k || v != asg[a] {
							all = false
							why = fmt.Sprintf("%d bytes are written where %d are recorded", v, asg[a])
							break
						}
					}
					ok = ok || all
				}
				c := shortFn(fn) + " (" + p.GOOS + "): " + d.t.show(n)
				if !ok {
					r.bad("length", c, p.at(fn.Pos()), why, o.st.path()...)
				} else {
					r.ok("length", c, p.at(fn.Pos()))
				}
			}
		}
		sizes := map[string]bool{}
		d, fn, outs := arWriter(p, func(d *diskView, st *EState, header *Tm, at string) {
			for a := range d.t.atomsOf(header) {
				if strings.HasPrefix(a, srcSize) {
					sizes[a] = true
				}
			}
		})
		if len(sizes) > 0 {
			judge(d, fn, outs, func(n string) bool { return sizes[n] })
		}
		v := placed(p)
		judge(v.diskView, v.fn, v.outs, func(n string) bool { return n == "InodeCompact.Size" || n == "InodeExtended.Size" })
		r.Units["states "+p.GOOS] += d.x.steps + v.x.steps
	})
	r.floor("length", 2)
}

func init() {
	register(&Check{ID: "W04", Level: "other", Rule: "Value numbering: the text written before the content of an entry, rendered for every input consistent with the branches taken, must be the header that the ar format defines.", Run: runW04})
	register(&Check{ID: "W03", Level: "other", Rule: "Value numbering: on every way to success, the branches taken must leave no input for which the number of bytes copied differs from the size recorded.", Run: runW03})
}
