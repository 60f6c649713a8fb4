package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Listings: the methods ReadDir, what they collect per entry, and in which order.

// entryType reports whether values of a type are directory entries.
func entryType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := namedOf(t)
	if n == nil {
		return false
	}
	if n.Obj().Name() == "DirEntry" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io/fs" {
		return true
	}
	return inModuleType(n) && implementsDirEntry(n)
}

func entrySlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && entryType(s.Elem())
}

func stringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isText(s.Elem())
}

// collects is what an instruction adds to a list: "D" a directory entry, "S" a text, or "".
func collects(in ssa.Instruction) string {
	kind := func(t types.Type) string {
		switch {
		case entrySlice(t):
			return "D"
		case stringSlice(t):
			return "S"
		}
		return ""
	}
	switch u := in.(type) {
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return kind(u.Type())
			}
			return ""
		}
		if f := u.Call.StaticCallee(); f != nil && !inModule(f) && strings.HasPrefix(extName(f), "slices.Insert") {
			return kind(u.Type())
		}
	case *ssa.Store:
		if ia, ok := u.Addr.(*ssa.IndexAddr); ok {
			return kind(ia.X.Type())
		}
	}
	return ""
}

// overChildren reports whether a loop is over a map of entries.
func overChildren(l *espLoop) bool {
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
					t := m.Elem()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					if n := namedOf(t); n != nil && inModuleType(n) {
						return true
					}
				}
			}
		}
	}
	return false
}

// reached are the functions of the module that a function calls, with what they call, and closures.
func reached(p *Program, from *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil || !inModule(fn) && !p.wrapsModule(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						walk(f)
					}
				}
			}
		}
	}
	walk(from)
	return seen
}

type listLoop struct {
	where   string
	some    bool
	missing []string
	twice   []string
	broke   []string
	full    bool // an iteration was complete
}

type listFacts struct {
	loops map[string]*listLoop
	vague bool     // a "." is kept, after something that may tell
	dots  []string // an iteration that keeps "." or ".."
}

// listings are the methods of a package that list a directory.
func listings(p *Program, pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || fn.Name() != "ReadDir" || fn.Synthetic != "" || fn.Signature.Recv() == nil || fnPkgPath(fn) != modPath+"/"+pkg {
			continue
		}
		if r := fn.Signature.Results(); r.Len() == 2 && entrySlice(r.At(0).Type()) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// filters are calls that pick some entries by text.
func textPredicate(name string) bool {
	switch name {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "strings.ContainsAny", "strings.ContainsRune", "strings.Index", "strings.IndexByte", "path.Ext", "path/filepath.Ext", "path.Match", "path/filepath.Match", "strings.TrimSpace", "strings.ToLower", "unicode/utf8.ValidString", "io/fs.ValidPath":
		return true
	}
	return false
}

func isTextual(t types.Type) bool {
	if isText(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isBasic(s.Elem(), types.Uint8)
}

// foldText computes calls on constant texts.
func foldText(c *ECall) (AV, bool) {
	var args []cmpVal
	for _, a := range c.args {
		if a.k != avStr {
			return AV{}, false
		}
		args = append(args, cmpVal{k: cStr, s: a.str})
	}
	if len(args) == 0 {
		return AV{}, false
	}
	switch v := (&cmpRun{}).extern(c.name, args); v.k {
	case cStr:
		return AV{k: avStr, str: v.s}, true
	case cInt:
		return avInt(v.n), true
	case cBool:
		return avBool(v.n != 0), true
	}
	return AV{}, false
}

// ofEntry: a number that says something about an entry, rather than about the portion that is asked for.
func ofEntry(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() != "len" {
			return false
		}
		t := c.Call.Args[0].Type()
		_, isMap := t.Underlying().(*types.Map)
		return isMap || isTextual(t)
	}
	return true
}

// simulateListing runs a function and judges its iterations over entries.
// With asIteration the function is itself what is done for one entry.
func simulateListing(p *Program, fn *ssa.Function, rel map[*ssa.Function]bool, asIteration bool, memory bool, entry *string) (*listFacts, *Esp, []EOutcome) {
	f := &listFacts{loops: map[string]*listLoop{}}
	x := newEsp(p)
	x.deep = true
	x.limit = 400000
	x.mergeAt = 24
	x.opaque = func(g *ssa.Function) bool { return !rel[g] && errIndex(g.Signature) >= 0 }
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		for _, a := range c.args {
			if a.k == avFn && a.fn != nil && rel[a.fn] {
				st.ghost["+ran"] = "1" // is handed to something that calls it for every entry
			}
		}
		if v, ok := foldText(c); ok {
			return []EOutcome{{st, v}}, true
		}
		textual := false
		if c.sig != nil {
			for i := 0; i < c.sig.Params().Len(); i++ {
				textual = textual || isTextual(c.sig.Params().At(i).Type())
			}
		}
		if textual && c.sig.Results().Len() > 0 && isBasic(c.sig.Results().At(0).Type(), types.Bool) && !textPredicate(c.name) {
			st.ghost["+vague"] = "1"
		}
		switch c.name {
		case "slices.Contains", "slices.Index", "(*regexp.Regexp).MatchString":
			st.ghost["+vague"] = "1"
		case "errors.New", "fmt.Errorf", "errors.Is", "errors.Join", "errors.Unwrap", "errors.As", "(*sync.Once).Do":
			return nil, false
		}
		if ei := errIndex(c.sig); ei >= 0 && !strings.HasPrefix(c.name, "recursive ") {
			for _, a := range c.args {
				if a.k == avPtr && !strings.HasPrefix(a.cell, "g:") {
					x.havoc(st, a.cell, fr.pre+callTag(c.in))
				}
			}
			return []EOutcome{{st, setRes(x.results(fr, st, c), ei, c.sig.Results().Len(), AV{k: avNil})}}, true
		}
		return nil, false
	}
	active := func(st *EState) []string {
		if st.ghost["+loops"] == "" {
			return nil
		}
		return strings.Split(st.ghost["+loops"], "|")
	}
	heads := map[*ssa.BasicBlock]bool{}
	x.instr = func(x *Esp, fr *EFrame, st *EState, in ssa.Instruction) {
		if ev := collects(in); ev != "" {
			for _, l := range active(st) {
				if ev == "S" && !strings.HasPrefix(l, "M:") {
					continue
				}
				switch st.ghost["+n "+l] {
				case "":
					st.ghost["+n "+l] = "1"
				default:
					st.ghost["+n "+l] = "2"
				}
			}
		}
		switch u := in.(type) {
		case *ssa.Call:
			if g := u.Call.StaticCallee(); g != nil && inModule(g) && isBasic(u.Type(), types.Bool) {
				for _, a := range u.Call.Args {
					if isTextual(a.Type()) {
						st.ghost["+byte"] = "1" // decided with constant names
					}
				}
			}
		case *ssa.Lookup:
			if isText(u.X.Type()) {
				st.ghost["+byte"] = "1"
			} else if u.CommaOk {
				st.ghost["+vague"] = "1"
			}
		case *ssa.Index:
			if isText(u.X.Type()) {
				st.ghost["+byte"] = "1"
			}
		case *ssa.BinOp:
			switch u.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				for _, o := range []ssa.Value{u.X, u.Y} {
					if c, ok := o.(*ssa.Const); ok {
						if c.Value == nil {
							st.ghost["+vague"] = "1"
						}
					}
				}
				if isNumber(u.X.Type()) && !heads[u.Block()] && memory && !ofEntry(u.X) && !ofEntry(u.Y) {
					st.ghost["+vague"] = "1" // which portion it is
				}
			}
		}
	}
	clear := func(st *EState, l string) {
		for _, g := range []string{"+n " + l, "+vague", "+byte", "+dot"} {
			delete(st.ghost, g)
		}
	}
	get := func(name, where string) *listLoop {
		lp := f.loops[name]
		if lp == nil {
			lp = &listLoop{where: where}
			f.loops[name] = lp
		}
		return lp
	}
	judge := func(st *EState, l string) {
		lp := get(l, "")
		lp.full = true
		switch st.ghost["+n "+l] {
		case "1":
			lp.some = true
			f.vague = f.vague || st.ghost["+vague"] != ""
			if st.ghost["+dot"] != "" {
				f.dots = append(st.path(), "and it is added to the list")
			}
		case "2":
			lp.some = true
			lp.twice = append(st.path(), "and more than one is added to the list")
		default:
			if st.ghost["+dot"] != "" || st.ghost["+vague"] != "" || asIteration && entry == nil && st.ghost["+byte"] != "" {
				return
			}
			lp.missing = append(st.path(), "and nothing is added to the list")
		}
	}
	x.eq = func(st *EState, a, b AV) {
		if a.k == avStr {
			a, b = b, a
		}
		if b.k == avStr && (b.str == "." || b.str == "..") {
			st.ghost["+dot"] = "1"
		}
	}
	x.learned = func(st *EState, a, b AV, r int) {
		if n, ok := intOf(b); ok && n <= 1 && r&4 == 0 {
			st.ghost["+empty"] = "1"
		}
		if n, ok := intOf(a); ok && n <= 1 && r&1 == 0 {
			st.ghost["+empty"] = "1"
		}
	}
	x.loop = func(fr *EFrame, st *EState, l *espLoop, ev string) {
		heads[l.head] = true
		name := fr.pre + l.name()
		if overChildren(l) {
			name = "M:" + name
		}
		switch ev {
		case "iter":
			lp := get(name, p.at(l.head.Instrs[0].Pos()))
			if lp.where == "" {
				lp.where = shortFn(l.fn)
			}
			if inList(st.ghost["+loops"], name) {
				judge(st, name)
			} else {
				st.ghost["+loops"] = strings.Join(append(active(st), name), "|")
			}
			clear(st, name)
		case "exit", "break":
			st.ghost["+ran"] = "1"
			if !inList(st.ghost["+loops"], name) {
				return
			}
			if ev == "exit" {
				judge(st, name)
			} else if st.ghost["+vague"] == "" {
				st.ghost["+broke "+name] = "1"
			}
			clear(st, name)
			var rest []string
			for _, o := range active(st) {
				if o != name {
					rest = append(rest, o)
				}
			}
			st.ghost["+loops"] = strings.Join(rest, "|")
			if len(rest) == 0 {
				delete(st.ghost, "+loops")
			}
		}
	}
	const whole = "what is done for an entry"
	outs := x.Entry(fn, func(fr *EFrame, st *EState) {
		if asIteration {
			get(whole, p.at(fn.Pos()))
			st.ghost["+loops"] = whole
			for _, p := range fn.Params {
				if entry != nil && isText(p.Type()) {
					st.env[p] = AV{k: avStr, str: *entry}
				}
			}
		}
	})
	var okay []EOutcome
	for _, o := range outs {
		if certainError(x, o.st, errorOf(x, fn, o)) {
			continue
		}
		okay = append(okay, o)
		if asIteration {
			judge(o.st, whole)
		}
		for g := range o.st.ghost {
			if strings.HasPrefix(g, "+broke ") {
				if lp := f.loops[strings.TrimPrefix(g, "+broke ")]; lp != nil {
					lp.broke = append(o.st.path(), "the loop is left")
				}
			}
		}
	}
	return f, x, okay
}

// direction is +1 for an index that grows from iteration to iteration, -1 for one that shrinks, else 0.
func direction(v ssa.Value, depth int) int {
	if depth > 6 {
		return 0
	}
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.X == ssa.Value(u) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) > 0 {
					switch b.Op {
					case token.ADD:
						return 1
					case token.SUB:
						return -1
					}
				}
			}
		}
	case *ssa.BinOp:
		a, b := direction(u.X, depth+1), direction(u.Y, depth+1)
		switch {
		case u.Op == token.ADD && (a == 0 || b == 0):
			return a + b
		case u.Op == token.SUB && b == 0:
			return a
		case u.Op == token.SUB && a == 0:
			return -b
		}
	}
	return 0
}

// sorting is one call that sorts, in a function that makes listings.
func (p *Program) sortVerdict(c *ssa.Call) (verdict, why string, path []string, known bool) {
	f := c.Call.StaticCallee()
	if f == nil {
		return
	}
	name := extName(f)
	fnValue := func(v ssa.Value) (*ssa.Function, []cmpVal) {
		switch u := under(v).(type) {
		case *ssa.Function:
			return u, nil
		case *ssa.MakeClosure:
			return u.Fn.(*ssa.Function), nil
		}
		return nil, nil
	}
	index := func(i int) []cmpVal { return []cmpVal{{k: cIdx, n: int64(i)}} }
	switch name {
	case "slices.Sort", "sort.Strings":
		return "yes", "", nil, true
	case "slices.SortFunc", "slices.SortStableFunc":
		s, ok := c.Call.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		fn, _ := fnValue(c.Call.Args[1])
		if fn == nil {
			return "", "", nil, true
		}
		v, w, pt := p.ordersByName(fn, nil, func(i int) []cmpVal {
			if isText(s.Elem()) {
				return []cmpVal{{k: cName, n: int64(i)}}
			}
			return []cmpVal{{k: cEnt, n: int64(i)}}
		}, false)
		return v, w, pt, true
	case "sort.Slice", "sort.SliceStable":
		fn, _ := fnValue(c.Call.Args[1])
		if fn == nil {
			return "", "", nil, true
		}
		v, w, pt := p.ordersByName(fn, nil, index, true)
		return v, w, pt, true
	case "sort.Sort", "sort.Stable":
		arg := c.Call.Args[0]
		rev := false
		if r, ok := arg.(*ssa.Call); ok && r.Call.StaticCallee() != nil && extName(r.Call.StaticCallee()) == "sort.Reverse" {
			arg, rev = r.Call.Args[0], true
		}
		mi, ok := arg.(*ssa.MakeInterface)
		if !ok {
			return "", "", nil, true
		}
		if n := namedOf(mi.X.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
			if rev {
				return "no", "the names are sorted in descending order", nil, true
			}
			return "yes", "", nil, true
		}
		sel := p.Prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, "Less")
		if sel == nil {
			return "", "", nil, true
		}
		fn := p.Prog.MethodValue(sel)
		if fn == nil {
			return "", "", nil, true
		}
		v, w, pt := p.ordersByName(fn, nil, index, true)
		if rev {
			if v == "yes" {
				return "no", "the entries are sorted in descending order of name", nil, true
			}
			return "", "", nil, true
		}
		return v, w, pt, true
	}
	return
}

func runR10(env *Env, r *Result) {
	env.each(func(p *Program) {
		for _, pkg := range []string{"arfs", "tarfs", "erofs", "memfs"} {
			for _, fn := range listings(p, pkg) {
				name := shortFn(fn) + " (" + p.GOOS + ")"
				all := reached(p, fn)
				var funcs []*ssa.Function
				rel := map[*ssa.Function]bool{fn: true}
				direct := map[*ssa.Function]bool{}
				deletes := false // entries are taken out of the list afterwards
				for g := range all {
					funcs = append(funcs, g)
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if collects(in) == "D" {
								direct[g] = true
							}
							if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && entrySlice(c.Type()) && extName(c.Call.StaticCallee()) == "slices.DeleteFunc" {
								deletes = true
							}
						}
					}
				}
				sort.Slice(funcs, func(i, j int) bool { return funcs[i].String() < funcs[j].String() })
				for _, g := range funcs {
					for h := range reached(p, g) {
						if direct[h] {
							rel[g] = true
						}
					}
					for _, l := range espLoops(g) {
						if overChildren(l) {
							rel[g] = true
						}
					}
				}
				// every entry once
				judged := 0
				sim := func(g *ssa.Function, asIteration bool) {
					f, x, okay := simulateListing(p, g, rel, asIteration, pkg == "memfs", nil)
					r.Units["states "+p.GOOS] += x.steps
					var names []string
					for n := range f.loops {
						names = append(names, n)
					}
					sort.Strings(names)
					some := false
					for _, n := range names {
						lp := f.loops[n]
						if !lp.some {
							continue
						}
						some = true
						judged++
						c := name + ": " + shortLoop(strings.TrimPrefix(n, "M:")) + map[bool]string{true: ", over the map", false: ""}[strings.HasPrefix(n, "M:")]
						if lp.missing != nil {
							r.bad("every entry", c, lp.where, "an entry can be left out of the listing", lp.missing...)
						} else {
							r.ok("every entry", c, lp.where)
						}
						if lp.twice != nil {
							r.bad("once", c, lp.where, "an entry can be listed twice", lp.twice...)
						} else {
							r.ok("once", c, lp.where)
						}
						if lp.broke != nil && pkg != "memfs" {
							r.bad("to the end", c, lp.where, "the listing can end before the last entry although no error is reported", lp.broke...)
						} else {
							r.ok("to the end", c, lp.where)
						}
					}
					if pkg == "erofs" && some {
						if f.dots != nil {
							r.bad("no dot entries", name, p.at(g.Pos()), "the entries \".\" and \"..\" of the directory itself are listed", f.dots...)
						} else {
							r.ok("no dot entries", name, p.at(g.Pos()))
						}
					}
					if g == fn && (some || len(direct) > 0) {
						var early []string
						for _, o := range okay {
							if o.st.ghost["+ran"] == "" && o.st.ghost["+empty"] == "" {
								early = append(o.st.path(), "no loop is reached")
							}
						}
						if early != nil && pkg != "memfs" {
							r.bad("not without looking", name, p.at(fn.Pos()), "a listing is given without looking at the entries", early...)
						} else {
							r.ok("not without looking", name, p.at(fn.Pos()))
						}
					}
				}
				// what is done for entries of certain names
				named := func(g *ssa.Function) {
					texts := 0
					for _, p := range g.Params {
						if isText(p.Type()) {
							texts++
						}
					}
					if texts != 1 {
						return
					}
					for _, n := range []string{".", "..", "a", ".a", "...", "..a", "a.", "ab", "b..", "-", "~", "lost+found", strings.Repeat("x", 255)} {
						n := n
						f, x, _ := simulateListing(p, g, rel, true, false, &n)
						r.Units["states "+p.GOOS] += x.steps
						c := name + ": the name " + strconv.Quote(n)
						for _, lp := range f.loops {
							switch dot := n == "." || n == ".."; {
							case dot && lp.some && (f.vague || deletes):
							case dot && lp.some:
								r.bad("no dot entries", c, lp.where, "the entries \".\" and \"..\" of the directory itself are listed", "the name is "+strconv.Quote(n))
							case !dot && lp.missing != nil:
								r.bad("every entry", c, lp.where, "an entry can be left out of the listing", lp.missing...)
							default:
								r.ok("every entry", c, lp.where)
							}
						}
					}
				}
				sim(fn, false)
				for _, g := range funcs {
					if g.Parent() != nil && direct[g] {
						sim(g, true)
						if pkg == "erofs" {
							named(g)
						}
					}
				}
				if judged == 0 {
					r.Units["listings that are not recognised "+p.GOOS]++
				}
				// in order
				sorts := 0
				inReach := func(g *ssa.Function) bool { return all[g] }
				if pkg != "erofs" {
					o := p.scanOrder(inReach)
					for _, b := range o.bad {
						r.bad("in order", name+": "+b.construct, p.at(b.pos), "the listing is in the order of a map, which is arbitrary: "+b.why, b.path...)
					}
				}
				for _, g := range funcs {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							c, ok := in.(*ssa.Call)
							if !ok {
								if s, ok := in.(*ssa.Slice); ok && (entrySlice(s.Type()) || stringSlice(s.Type()) && rel[g]) {
									if cutShort(s) {
										r.bad("to the end", name+": "+shortFn(g), p.at(s.Pos()), "the listing is cut at a constant")
									}
								}
								continue
							}
							f := c.Call.StaticCallee()
							if f == nil {
								continue
							}
							switch n := extName(f); {
							case n == "slices.Reverse" && len(c.Call.Args) == 1 && (entrySlice(c.Call.Args[0].Type()) || stringSlice(c.Call.Args[0].Type()) && rel[g]):
								r.bad("in order", name+": "+shortFn(g), p.at(c.Pos()), "the listing is reversed")
							case n == "slices.DeleteFunc" && entrySlice(c.Type()) && pkg != "erofs":
								r.bad("every entry", name+": "+shortFn(g), p.at(c.Pos()), "entries are taken out of the listing")
							}
							if pkg == "erofs" {
								continue
							}
							v, why, path, isSort := p.sortVerdict(c)
							if !isSort || !rel[g] && v != "no" {
								continue
							}
							sorts++
							switch v {
							case "yes":
								r.ok("in order", name+": "+shortFn(g), p.at(c.Pos()))
							case "no":
								r.bad("in order", name+": "+shortFn(g), p.at(c.Pos()), why, path...)
							default:
								r.Units["sorts that are not recognised "+p.GOOS]++
							}
						}
					}
					if rel[g] && pkg != "erofs" {
						for _, l := range espLoops(g) {
							if at := backwards(l); at != token.NoPos {
								r.bad("in order", name+": "+shortFn(g), p.at(at), "the entries are collected from the last to the first")
							}
						}
					}
				}
				if pkg != "erofs" && sorts == 0 {
					r.Units["listings without a sort that is recognised "+p.GOOS]++
				}
			}
		}
	})
	r.floor("every entry", 6)
	r.floor("in order", 4)
}

// backwards: a loop goes through a list from the end and adds to another list at its end, or the other way round.
func backwards(l *espLoop) token.Pos {
	src, dst := 0, 0
	pos := token.NoPos
	for b := range l.body {
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.IndexAddr:
				if !entrySlice(u.X.Type()) && !stringSlice(u.X.Type()) || !inLoopIndex(u.Index) {
					continue
				}
				d := direction(u.Index, 0)
				stored := false
				for _, ref := range *u.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(u) {
						stored = true
					}
				}
				if stored {
					dst = d
				} else if d != 0 {
					src = d
				}
				pos = u.Pos()
			case *ssa.Call:
				if collects(u) == "D" {
					if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						if _, ok := u.Call.Args[0].(*ssa.Slice); ok {
							dst = -1 // append([]T{x}, list...)
						} else {
							dst = 1
						}
					}
				}
			}
		}
	}
	if src*dst < 0 {
		return pos
	}
	return token.NoPos
}

func inLoopIndex(v ssa.Value) bool {
	_, fixed := v.(*ssa.Const)
	return !fixed
}

// cutShort: a part of a list with a constant bound.
func cutShort(s *ssa.Slice) bool {
	var big func(v ssa.Value, depth int) bool
	big = func(v ssa.Value, depth int) bool {
		if depth > 4 {
			return false
		}
		switch u := v.(type) {
		case *ssa.Const:
			n, ok := constant.Int64Val(constant.ToInt(u.Value))
			return ok && n > 0
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
				for _, a := range u.Call.Args {
					if big(a, depth+1) {
						return true
					}
				}
			}
		}
		return false
	}
	if _, ok := s.X.(*ssa.Alloc); ok {
		return false // an array literal
	}
	return s.High != nil && big(s.High, 0) || s.Low != nil && big(s.Low, 0)
}

func init() {
	register(&Check{ID: "R10", Level: "other", Rule: "Listings: in a property simulation of every method ReadDir, each complete iteration over the entries adds exactly one to the list (in EROFS: none for the names \".\" and \"..\"), no iteration ends the listing early, and no listing is given without looking; " +
		"every sort on the way is shown to order by name, by abstract interpretation of its comparison, and nothing is left in the order of a map.", Run: runR10})
}
