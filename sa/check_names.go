package main

// R15: what happens to a name between the caller (or the archive) and the place
// where it is looked up, stored or reported. A backward data-flow slice over strings.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nameSlice struct {
	p     *Program
	seen  map[ssa.Value]bool
	calls map[*ssa.Function][]ssa.CallInstruction
	store map[string][]ssa.Value // field -> values stored
	binds map[*ssa.FreeVar][]ssa.Value
	judge func(at ssa.Instruction, what string)
	steps int
	// what is written may hold more than the name
	written bool
	ops   map[ssa.Instruction]bool // operations on names that were judged
}

func newNameSlice(p *Program) *nameSlice {
	s := &nameSlice{p: p, seen: map[ssa.Value]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, store: map[string][]ssa.Value{}, binds: map[*ssa.FreeVar][]ssa.Value{}, ops: map[ssa.Instruction]bool{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case ssa.CallInstruction:
					if g := i.Common().StaticCallee(); g != nil {
						s.calls[g] = append(s.calls[g], i)
					}
				case *ssa.Store:
					if k := fieldKey(i.Addr); k != "" {
						s.store[k] = append(s.store[k], i.Val)
					}
				case *ssa.MakeClosure:
					for j, b := range i.Bindings {
						fv := i.Fn.(*ssa.Function).FreeVars[j]
						s.binds[fv] = append(s.binds[fv], b)
					}
				}
			}
		}
	}
	return s
}

func fieldKey(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return t.String() + "." + st.Field(fa.Field).Name()
}

func stringsIn(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return stringsIn(u.Elem()) || isBasic(u.Elem(), types.Byte)
	case *types.Array:
		return stringsIn(u.Elem())
	case *types.Pointer:
		return stringsIn(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if stringsIn(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func textConst(v ssa.Value) (string, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return constant.StringVal(v.Value), true
		}
		if v.Value != nil && v.Value.Kind() == constant.Int && isBasic(v.Type(), types.Byte) {
			return string([]byte{byte(v.Int64())}), true
		}
	case *ssa.Convert:
		if c, ok := v.X.(*ssa.Const); ok && c.Value != nil {
			if c.Value.Kind() == constant.Int {
				return string(rune(c.Int64())), true
			}
			return textConst(c)
		}
	}
	return "", false
}

func onlyOf(s, set string) bool { return strings.Trim(s, set) == "" }

// nameOps are what functions over strings do to a name: "" keeps every part of it.
func nameOp(name string, args []ssa.Value) string {
	con := ""
	isCon := false
	if len(args) > 1 {
		con, isCon = textConst(args[1])
	}
	fn := name
	for _, pkg := range []string{"strings.", "bytes."} {
		fn = strings.TrimPrefix(fn, pkg)
	}
	if fn == name {
		switch name {
		case "path.Ext", "path/filepath.Ext":
			return "keeps only its extension"
		case "net/url.PathEscape", "net/url.QueryEscape", "net/url.PathUnescape", "net/url.QueryUnescape", "strconv.Quote", "strconv.QuoteToASCII", "html.EscapeString":
			return "rewrites it"
		}
		return ""
	}
	switch fn {
	case "ToLower", "ToUpper", "ToTitle", "Title", "ToLowerSpecial", "ToUpperSpecial":
		return "changes the case of its letters"
	case "EqualFold":
		return "does not tell upper from lower case"
	case "Map", "ToValidUTF8":
		return "replaces parts of it"
	case "Replace", "ReplaceAll":
		if len(args) > 2 {
			to, ok := textConst(args[2])
			if isCon && ok && (con == to || con == "//" && to == "/" || con == "\x00" && to == "") {
				return ""
			}
		}
		return "replaces parts of it"
	case "FieldsFunc", "TrimFunc", "TrimLeftFunc", "TrimRightFunc":
		if len(args) > 1 && picksOther(args[1]) {
			return "drops characters of it other than slashes and white space"
		}
	case "Trim", "TrimLeft", "TrimRight":
		if isCon && !onlyOf(con, "/ \t\r\n\x00") {
			return "drops leading or trailing characters of it"
		}
	case "TrimPrefix", "CutPrefix":
		if isCon && !onlyOf(con, "/ \t\r\n\x00") && con != "./" && con != "/." && con != "../" {
			return "drops the start of it"
		}
	case "TrimSuffix", "CutSuffix":
		if isCon && !onlyOf(con, "/ \t\r\n\x00") && con != "/." && con != "/.." {
			return "drops the end of it"
		}
	case "Split", "SplitN", "SplitAfter", "SplitAfterN", "Cut", "SplitSeq":
		if isCon && !onlyOf(con, "/\x00\n") {
			return "takes it apart at something other than a slash"
		}
	case "Fields", "FieldsSeq":
		return "takes it apart at white space"
	}
	return ""
}

// indexOf is the call that finds the place where a name is cut.
func indexOf(v ssa.Value, depth int) *ssa.Call {
	if v == nil || depth == 0 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && len(v.Call.Args) == 2 {
			switch n := extName(g); strings.TrimPrefix(strings.TrimPrefix(n, "strings."), "bytes.") {
			case "Index", "IndexByte", "LastIndex", "LastIndexByte", "IndexAny", "LastIndexAny", "IndexRune":
				return v
			}
		}
	case *ssa.BinOp:
		if c := indexOf(v.X, depth-1); c != nil {
			return c
		}
		return indexOf(v.Y, depth-1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if c := indexOf(e, depth-1); c != nil {
				return c
			}
		}
	}
	return nil
}

// picksOther: a predicate over characters compares them with something other than slashes and white space.
func picksOther(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeClosure); ok {
		v = m.Fn
	}
	fn, ok := v.(*ssa.Function)
	if !ok {
		return false
	}
	if fn.Blocks == nil || !inModule(fn) {
		return extName(fn) != "unicode.IsSpace"
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.BinOp:
				for _, e := range []ssa.Value{i.X, i.Y} {
					if c, ok := intConst(e); ok && i.Op == token.EQL && !strings.ContainsRune("/ \t\r\n\x00", rune(c)) {
						return true
					}
				}
			case *ssa.Call:
				if g := i.Call.StaticCallee(); g != nil && strings.HasPrefix(extName(g), "unicode.") && extName(g) != "unicode.IsSpace" {
					return true
				}
			}
		}
	}
	return false
}

// tested are the texts a name is known to begin or to end with in a block.
func (s *nameSlice) tested(v ssa.Value, at *ssa.BasicBlock) []string {
	var out []string
	for _, b := range at.Parent().Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || len(b.Succs[0].Preds) != 1 || !b.Succs[0].Dominates(at) {
			continue
		}
		switch c := i.Cond.(type) {
		case *ssa.Call:
			if g := c.Call.StaticCallee(); g != nil && len(c.Call.Args) == 2 && sameText(c.Call.Args[0], v) {
				if n := extName(g); n == "strings.HasPrefix" || n == "strings.HasSuffix" {
					if con, ok := textConst(c.Call.Args[1]); ok {
						out = append(out, con)
					}
				}
			}
		case *ssa.BinOp:
			if c.Op != token.EQL {
				continue
			}
			var x ssa.Value
			switch l := c.X.(type) {
			case *ssa.Lookup:
				x = l.X
			case *ssa.Index:
				x = l.X
			case *ssa.Slice:
				x = l.X
			}
			if con, ok := textConst(c.Y); ok && x != nil && sameText(x, v) {
				out = append(out, con)
			}
		}
	}
	return out
}

// guardedPrefix: the prefix that is dropped is known to be one with a slash after it.
func guardedPrefix(c *ssa.Call) bool {
	con, _ := textConst(c.Call.Args[1])
	src := c.Call.Args[0]
	for _, b := range c.Parent().Blocks {
		for _, in := range b.Instrs {
			h, ok := in.(*ssa.Call)
			if !ok || h.Call.StaticCallee() == nil || !strings.HasSuffix(extName(h.Call.StaticCallee()), "s.HasPrefix") || len(h.Call.Args) != 2 {
				continue
			}
			pre, ok := textConst(h.Call.Args[1])
			if !ok || pre != con+"/" || !sameText(h.Call.Args[0], src) {
				continue
			}
			for _, u := range *h.Referrers() {
				if i, ok := u.(*ssa.If); ok && len(i.Block().Succs[0].Preds) == 1 && i.Block().Succs[0].Dominates(c.Block()) {
					return true
				}
			}
		}
	}
	return false
}

func sameText(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok || !ok2 || la.Op != token.MUL || lb.Op != token.MUL {
		return false
	}
	fa, ok := la.X.(*ssa.FieldAddr)
	fb, ok2 := lb.X.(*ssa.FieldAddr)
	return la.X == lb.X || ok && ok2 && fa.Field == fb.Field && (fa.X == fb.X || sameText(fa.X, fb.X) || sameAddr(fa.X, fb.X))
}

func sameAddr(a, b ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && fa.Field == fb.Field && (fa.X == fb.X || sameText(fa.X, fb.X))
}

func (s *nameSlice) all(vs []ssa.Value) {
	for _, v := range vs {
		s.walk(v)
	}
}

func (s *nameSlice) walk(v ssa.Value) {
	if v == nil || s.seen[v] {
		return
	}
	s.seen[v] = true
	s.steps++
	switch v := v.(type) {
	case *ssa.Phi:
		s.all(v.Edges)
	case *ssa.Convert:
		s.walk(v.X)
	case *ssa.ChangeType:
		s.walk(v.X)
	case *ssa.MakeInterface:
		s.walk(v.X)
	case *ssa.ChangeInterface:
		s.walk(v.X)
	case *ssa.TypeAssert:
		s.walk(v.X)
	case *ssa.Extract:
		s.walk(v.Tuple)
	case *ssa.Next:
		s.walk(v.Iter)
	case *ssa.Range:
		if mm, ok := v.X.(*ssa.UnOp); ok {
			s.walk(mm)
		}
	case *ssa.BinOp:
		if v.Op != token.ADD || !stringsIn(v.Type()) {
			return
		}
		s.ops[v] = true
		for _, e := range []ssa.Value{v.X, v.Y} {
			if c, ok := textConst(e); ok {
				if !onlyOf(c, "/.\x00 ") && !s.written {
					s.judge(v, "adds "+constant.MakeString(c).String()+" to it")
				}
				continue
			}
			s.walk(e)
		}
	case *ssa.Slice:
		if isBytes(v.X.Type()) && !s.written && v.High != nil {
			s.ops[v] = true
			h, ok := intConst(v.High)
			l := int64(0)
			if v.Low != nil {
				l, _ = intConst(v.Low)
			}
			// the name of a member has the first 16 columns of its header
			if ok && h > 1 && !(fnPkgPath(v.Parent()) == modPath+"/arfs" && l == 0 && (h == 16 || h == 60)) && !fixedBytes(v.X) {
				s.judge(v, "keeps only a part of it")
			}
		}
		if isBasic(v.X.Type(), types.String) && !s.written {
			s.ops[v] = true
			if h, ok := intConst(v.High); ok && v.High != nil && h > 1 && !(fnPkgPath(v.Parent()) == modPath+"/arfs" && v.Low == nil && h == 16) {
				s.judge(v, "keeps only the start of it")
			}
			if l, ok := intConst(v.Low); ok && v.Low != nil && l > 0 || v.High != nil && !ok {
				for _, con := range s.tested(v.X, v.Block()) {
					if !onlyOf(con, "/ \t\r\n\x00") && con != "./" && con != "/." && con != "../" && con != "/.." {
						s.judge(v, "drops "+constant.MakeString(con).String()+" from it")
					}
				}
			}
			for _, b := range []ssa.Value{v.Low, v.High} {
				if c := indexOf(b, 3); c != nil {
					if con, ok := textConst(c.Call.Args[1]); ok && !onlyOf(con, "/ \t\r\n\x00") {
						s.judge(v, "cuts it at "+constant.MakeString(con).String())
					}
				}
			}
		}
		s.walk(v.X)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return
		}
		s.addr(v.X)
	case *ssa.Field:
		t := v.X.Type()
		if st, ok := t.Underlying().(*types.Struct); ok {
			s.all(s.store[t.String()+"."+st.Field(v.Field).Name()])
		}
	case *ssa.Index:
		s.walk(v.X)
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
		s.addr(v)
	case *ssa.FreeVar:
		s.all(s.binds[v])
	case *ssa.Parameter:
		fn := v.Parent()
		for j, prm := range fn.Params {
			if prm != v {
				continue
			}
			for _, c := range s.calls[fn] {
				if a := c.Common().Args; j < len(a) {
					s.walk(a[j])
				}
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				s.all(v.Call.Args)
			}
			return
		}
		fn := v.Call.StaticCallee()
		if fn == nil {
			return
		}
		if fn.Blocks != nil && inModule(fn) {
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range ret.Results {
						if stringsIn(res.Type()) {
							s.walk(res)
						}
					}
				}
			}
			return
		}
		name := extName(fn)
		textual := false
		for _, a := range v.Call.Args {
			textual = textual || stringsIn(a.Type())
		}
		if !textual || !stringsIn(v.Type()) {
			return
		}
		s.ops[v] = true
		if what := nameOp(name, v.Call.Args); what != "" && !(strings.HasSuffix(name, ".TrimPrefix") && guardedPrefix(v)) {
			s.judge(v, name+" "+what)
		}
		for j, a := range v.Call.Args {
			if !stringsIn(a.Type()) && !strings.HasPrefix(name, "fmt.") {
				continue
			}
			if j > 0 && (strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.")) && name != "strings.Join" && name != "bytes.Join" {
				continue
			}
			s.walk(a)
		}
	}
}

// addr follows what is stored at an address.
func (s *nameSlice) addr(a ssa.Value) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		if stringsIn(a.Type()) {
			s.all(s.store[fieldKey(a)])
		}
	case *ssa.IndexAddr:
		s.walk(a.X)
	case *ssa.Alloc:
		for _, u := range *a.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == a && stringsIn(u.Val.Type()) {
					s.walk(u.Val)
				}
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u {
						s.walk(st.Val)
					}
				}
			case *ssa.MakeClosure:
				for j, b := range u.Bindings {
					if b == a {
						for _, w := range *u.Fn.(*ssa.Function).FreeVars[j].Referrers() {
							if st, ok := w.(*ssa.Store); ok && st.Addr == u.Fn.(*ssa.Function).FreeVars[j] {
								s.walk(st.Val)
							}
						}
					}
				}
			}
		}
	case *ssa.FreeVar:
		for _, b := range s.binds[a] {
			s.addr(b)
		}
	case *ssa.Phi:
		for _, e := range a.Edges {
			s.addr(e)
		}
	}
}

// nameSink is a place where a name is used to find, to store or to report an entry.
type nameSink struct {
	rule, what string
	at         ssa.Instruction
	vals       []ssa.Value
}

func nameSinks(p *Program) []nameSink {
	var out []nameSink
	for _, fn := range p.Funcs {
		if fn.Name() == "Name" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 0 && fn.Blocks != nil {
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && isBasic(ret.Results[0].Type(), types.String) {
					out = append(out, nameSink{"reported name", shortFn(fn), ret, []ssa.Value{ret.Results[0]}})
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Lookup:
					if isEntryMap(i.X.Type()) {
						out = append(out, nameSink{"name looked up", shortFn(fn), i, []ssa.Value{i.Index}})
					}
				case *ssa.MapUpdate:
					if isEntryMap(i.Map.Type()) {
						out = append(out, nameSink{"name stored", shortFn(fn), i, []ssa.Value{i.Key}})
					}
				case *ssa.Store:
					if k := fieldKey(i.Addr); k == "archive/tar.Header.Name" {
						out = append(out, nameSink{"name in a header", shortFn(fn), i, []ssa.Value{i.Val}})
					}
				case *ssa.Call:
					if g := i.Call.StaticCallee(); g != nil && (fnPkgPath(fn) == modPath+"/arfs" || fnPkgPath(fn) == modPath+"/erofs") {
						n := extName(g)
						var w []ssa.Value
						switch {
						case n == "io.WriteString" || strings.HasSuffix(n, ").WriteString"):
							w = i.Call.Args[1:]
						case n == "fmt.Fprintf" || n == "fmt.Fprint":
							w = i.Call.Args[1:]
						case strings.HasSuffix(n, ").Write") && len(i.Call.Args) == 2:
							if c, ok := i.Call.Args[1].(*ssa.Convert); ok && isBasic(c.X.Type(), types.String) {
								w = []ssa.Value{c.X}
							}
						}
						if len(w) > 0 {
							out = append(out, nameSink{"name written", shortFn(fn), i, w})
						}
					}
					if i.Call.IsInvoke() && i.Call.Method.Name() == "Write" && len(i.Call.Args) == 1 && (fnPkgPath(fn) == modPath+"/arfs" || fnPkgPath(fn) == modPath+"/erofs") {
						if c, ok := i.Call.Args[0].(*ssa.Convert); ok && isBasic(c.X.Type(), types.String) {
							out = append(out, nameSink{"name written", shortFn(fn), i, []ssa.Value{c.X}})
						}
					}
					if g := i.Call.StaticCallee(); g != nil && compares[extName(g)] && len(i.Call.Args) == 2 && stringsIn(i.Call.Args[0].Type()) {
						out = append(out, nameSink{"name compared", shortFn(fn), i, i.Call.Args})
					}
				}
			}
		}
	}
	return out
}

func runR15(env *Env, r *Result) {
	env.each(func(p *Program) {
		for _, k := range nameSinks(p) {
			s := newNameSlice(p)
			s.written = k.rule == "name written"
			bad := map[string]bool{}
			construct := k.what + " (" + p.GOOS + ")"
			s.judge = func(at ssa.Instruction, what string) {
				if m := p.at(instrPos(at)) + what; !bad[m] {
					bad[m] = true
					r.bad(k.rule, construct, p.at(instrPos(at)), shortFn(at.Parent())+": a "+k.rule+" at "+p.at(instrPos(k.at))+" is not the name as it was given: "+what,
						shortFn(at.Parent())+" at "+p.at(instrPos(at)), k.rule+" in "+k.what+" at "+p.at(instrPos(k.at)))
				}
			}
			if c, ok := k.at.(*ssa.Call); ok {
				if what := nameOp(extName(c.Call.StaticCallee()), c.Call.Args); what != "" {
					s.judge(c, what)
				}
			}
			s.all(k.vals)
			r.Units["values followed "+p.GOOS] += s.steps
			r.Units["operations on names judged "+p.GOOS] += len(s.ops)
			if len(bad) == 0 {
				r.ok(k.rule, construct, p.at(instrPos(k.at)))
			}
		}
		var rules []string
		for _, k := range nameSinks(p) {
			rules = append(rules, k.rule)
		}
		sort.Strings(rules)
		if len(rules) == 0 {
			r.Notes = append(r.Notes, "no place where names are used was recognised for "+p.GOOS)
		}
	})
}

func init() {
	register(&Check{ID: "R15", Level: "other", Rule: "Backward data-flow slices over strings, through calls, returns, fields, closures and slices, from every place where a name is looked up, stored, compared or reported: no operation on the way drops or changes a part of the name other than slashes, dot elements and surrounding white space (letter case, leading and trailing characters, replaced or cut parts).", Run: runR15})
}

// fixedBytes: a slice of an array of the module, whose length is part of the format.
func fixedBytes(v ssa.Value) bool {
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isBasic(s.Elem(), types.Byte)
}
