package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The functions that open and read archives, simulated one by one with unknown arguments.

var readerPkgs = []string{"arfs", "tarfs", "erofs"}

// readerEntries lists the functions of a package through which its archives are used:
// exported functions and methods (with exported names) that pass the filter.
func readerEntries(p *Program, pkg string, want func(fn *ssa.Function) bool) []*ssa.Function {
	sp := p.SPkgs[modPath+"/"+pkg]
	var out []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && fn.Blocks != nil && fn.Synthetic == "" && want(fn) {
			out = append(out, fn)
		}
	}
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() {
				add(m)
			}
		case *ssa.Type:
			nt, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if o := nt.Method(i); o.Exported() {
					add(p.Prog.FuncValue(o))
				}
			}
		}
	}
	return out
}

func hasErrorResult(fn *ssa.Function) bool { return errIndex(fn.Signature) >= 0 }

// errorOf is the error among the results of an outcome.
func errorOf(x *Esp, fn *ssa.Function, o EOutcome) AV {
	res := o.res
	if res.k == avTuple {
		res = res.el[errIndex(fn.Signature)]
	}
	return x.norm(o.st, res)
}

func certainError(x *Esp, st *EState, e AV) bool {
	_, nn := x.wraps(st, e)
	return e.k == avNonNil || e.k == avPtr || nn
}

type readerFacts struct {
	site    map[string]string              // call site -> position
	callee  map[string]string              // call site -> callee
	bad     map[string]map[string][]string // kind of violation -> call site -> path
	short   map[string]bool                // call sites taken to deliver too little
	full    map[string]bool                // call sites taken to report the end along with all that was asked for
	next    map[string]map[string]bool     // "ok SITE", "full SITE" -> what can come next
	entries int
	states  int
	funcs   map[*ssa.Function]bool
}

func newReaderFacts() *readerFacts {
	return &readerFacts{site: map[string]string{}, callee: map[string]string{}, bad: map[string]map[string][]string{}, short: map[string]bool{}, full: map[string]bool{}, next: map[string]map[string]bool{}, funcs: map[*ssa.Function]bool{}}
}

func (f *readerFacts) mark(kind, site string, path []string) {
	if f.bad[kind] == nil {
		f.bad[kind] = map[string][]string{}
	}
	if _, ok := f.bad[kind][site]; !ok || len(path) > 0 {
		f.bad[kind][site] = path
	}
}

var readerFactsOf = map[string]*readerFacts{}

// modular reports whether a function can be judged on its own: it says through its error result how it went.
func modular(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" || errIndex(fn.Signature) < 0 {
		return false
	}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		if isErrorType(t) {
			return false
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return false
		}
	}
	return true
}

// runReaderFaults simulates the functions of a reader, each with one failure in every call it makes.
func runReaderFaults(p *Program, pkg string) *readerFacts {
	key := p.GOOS + pkg
	if f := readerFactsOf[key]; f != nil {
		return f
	}
	f := newReaderFacts()
	readerFactsOf[key] = f
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) != modPath+"/"+pkg || fn.Parent() != nil || fn.Synthetic != "" || !hasErrorResult(fn) {
			continue
		}
		f.entries++
		inPlace := map[string]bool{}
		for {
			g := newReaderFacts()
			x := g.run(p, fn, inPlace)
			// a caller may look at something other than the error: then look inside the callee
			again := false
			look := func(s string) {
				if n, ok := strings.CutPrefix(g.callee[s], "module "); ok && !inPlace[n] {
					inPlace[n] = true
					again = true
				}
			}
			for _, m := range g.bad {
				for s := range m {
					look(s)
				}
			}
			if again {
				continue
			}
			f.merge(g)
			f.states += x.steps
			for g := range x.funcs {
				f.funcs[g] = true
			}
			break
		}
	}
	for s := range f.full {
		for _, n := range keysOf(f.next["ok "+s]) {
			if !f.next["full "+s][n] {
				f.mark("full", s, []string{"missing: " + n})
			}
		}
	}
	return f
}

// lenOf is the length of a slice, if it is known or has a name.
func lenOf(a AV) (AV, bool) {
	switch {
	case a.k == avSlice && a.mask == ^uint64(0):
		return avInt(int64(a.val)), true
	case (a.k == avSym || a.k == avNonNil) && a.sym != "":
		return sym(a.sym + ".len()"), true
	}
	return AV{}, false
}

// setRel records how two values compare.
func (x *Esp) setRel(st *EState, a, b AV, r int) {
	ka, kb := relKeys(a, b)
	if ka != "" {
		st.facts[ka] = avInt(int64(r))
	}
	if kb != "" {
		st.facts[kb] = avInt(int64(flipRel(r)))
	}
}

// reads reports that a call reads into a buffer, and the length of that buffer.
func reads(c *ECall, r AV) (l AV, ok bool) {
	if c.method != "ReadAt" && c.name != "io.ReadFull" || r.k != avTuple {
		return AV{}, false
	}
	for _, a := range c.args {
		if l, ok := lenOf(a); ok && (a.k == avSlice || byteSliceArg(c, a)) {
			return l, true
		}
	}
	return AV{}, false
}

func byteSliceArg(c *ECall, a AV) bool {
	for i, b := range c.args {
		if b.key() == a.key() {
			k := i
			if c.sig.Recv() != nil && !strings.HasPrefix(c.name, "invoke ") {
				k--
			}
			if k >= 0 && k < c.sig.Params().Len() {
				if s, ok := c.sig.Params().At(k).Type().Underlying().(*types.Slice); ok {
					bt, ok := s.Elem().Underlying().(*types.Basic)
					return ok && bt.Kind() == types.Byte
				}
			}
		}
	}
	return false
}

// count records that a read returned less than (r=1) or exactly (r=2) what was asked for.
func (x *Esp) count(st *EState, n, l AV, r int) {
	switch {
	case r == 2 && l.k == avBits:
		st.facts[n.sym] = l
	case r == 1 && l.k == avBits && l.val == 1:
		st.facts[n.sym] = avInt(0)
	default:
		x.setRel(st, n, l, r)
	}
}

// run simulates one function.
func (f *readerFacts) run(p *Program, fn *ssa.Function, inPlace map[string]bool) *Esp {
	x := newEsp(p)
	x.mergeAt = 200
	x.opaque = func(fn *ssa.Function) bool { return modular(fn) && !inPlace[fn.String()] }
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		ei := errIndex(c.sig)
		n := c.sig.Results().Len()
		if (c.name == "errors.New" || c.name == "fmt.Errorf") && st.ghost["+failed"] == "" && st.ghost["+short"] == "" {
			s := siteName(p, fr, c)
			f.site[s] = p.at(c.in.Pos())
			st.ghost["+failed"] = s
			st.step("refused by " + s + " at " + p.at(c.in.Pos()))
		}
		if ei < 0 || strings.HasPrefix(c.name, "errors.") || c.name == "fmt.Errorf" || c.method == "Close" || c.name == "io/fs.WalkDir" {
			return nil, false
		}
		if strings.HasPrefix(c.name, "(*bytes.") || strings.HasPrefix(c.name, "(*strings.") {
			return nil, false
		}
		if w, ok := isDataWrite(c); ok && memoryWriter(w) && c.name != "io.Copy" && c.name != "io.CopyN" {
			return nil, false
		}
		site := siteName(p, fr, c)
		f.site[site] = p.at(c.in.Pos())
		f.callee[site] = c.name
		f.then(st, site)
		id := fr.pre + callTag(c.in)
		x.freshName(st, id)
		havocArgs(x, st, c, id)
		r := x.results(fr, st, c)
		l, reading := reads(c, r)
		if st.ghost["+failed"] != "" || st.ghost["+short"] != "" {
			if !reading {
				return []EOutcome{{st, r}}, true
			}
			bad := st.clone()
			end := st.clone()
			x.count(bad, r.el[0], l, 1)
			x.count(st, r.el[0], l, 2)
			end.facts[r.el[0].sym] = avInt(0)
			return []EOutcome{{bad, setRes(r, ei, n, AV{k: avNonNil, not: "*"})}, {end, setRes(r, ei, n, endOfFile)}, {st, setRes(r, ei, n, AV{k: avNil})}}, true
		}
		var outs []EOutcome
		add := func(ghost, msg string, rel int, e AV) *EState {
			s := st.clone()
			if ghost != "" {
				s.ghost[ghost] = site
				s.step(msg + " " + site + " at " + p.at(c.in.Pos()))
			}
			if reading && rel != 0 {
				x.count(s, r.el[0], l, rel)
			}
			outs = append(outs, EOutcome{s, setRes(r, ei, n, e)})
			return s
		}
		eof := endOfFile
		add("+failed", "error from", 1, AV{k: avNonNil, not: "*"})
		switch {
		case c.method == "ReadAt" && reading:
			f.short[site], f.full[site] = true, true
			if l.k != avBits || l.val != 1 {
				s := add("+short", "too few bytes from", 1, eof)
				x.setRel(s, r.el[0], avInt(0), 4)
			}
			empty := "+short"
			if l.k == avBits && l.val == arEntrySize {
				empty = "" // an archive of any number of entries, maybe none, may end here
			}
			s := add(empty, "no bytes from", 1, eof)
			s.facts[r.el[0].sym] = avInt(0)
			s = add("", "", 2, eof)
			s.ghost["+after"] = "full " + site
		case c.name == "io.ReadFull" || c.name == "io.ReadAtLeast" || c.name == "io.CopyN" || c.name == "encoding/binary.Read":
			f.short[site] = true
			add("+short", "too few bytes from", 1, AV{k: avNonNil, tags: "io.ErrUnexpectedEOF", sym: "io.ErrUnexpectedEOF"})
			s := add("+short", "no bytes from", 1, eof)
			if reading {
				s.facts[r.el[0].sym] = avInt(0)
			}
		case strings.HasPrefix(c.name, "module "):
			f.short[site] = true
			add("+short", "too few bytes in", 0, AV{k: avNonNil, tags: "io.ErrUnexpectedEOF", sym: "io.ErrUnexpectedEOF"})
			add("+short", "no bytes in", 0, eof)
		case mayEOF(c) || c.name == "io.Copy":
			f.short[site] = true
			add("+short", "data cut short in", 0, AV{k: avNonNil, tags: "io.ErrUnexpectedEOF", sym: "io.ErrUnexpectedEOF"})
			if c.name != "io.Copy" {
				add("", "", 0, eof)
			}
		}
		if reading {
			if c.method == "ReadAt" {
				st.ghost["+after"] = "ok " + site
			}
			x.count(st, r.el[0], l, 2)
			r = setRes(r, ei, n, AV{k: avNil})
		} else {
			r = okRes(r, ei, n, id)
		}
		return append(outs, EOutcome{st, r}), true
	}
	for _, o := range x.Entry(fn, nil) {
		e := errorOf(x, fn, o)
		tags, _ := x.wraps(o.st, e)
		if s := o.st.ghost["+failed"]; s != "" {
			switch {
			case !certainError(x, o.st, e):
				f.mark("swallow", s, o.st.path())
			case inList(tags, "io/fs.ErrNotExist") && f.callee[s] != "":
				f.mark("missing", s, o.st.path())
			case inList(tags, "io.EOF") && (f.callee[s] != "" || e.sym == "io.EOF"):
				f.mark("eof", s, o.st.path())
			}
		}
		if s := o.st.ghost["+short"]; s != "" && !likeRead(fn) {
			switch {
			case !certainError(x, o.st, e):
				f.mark("short", s, o.st.path())
			case inList(tags, "io/fs.ErrNotExist"):
				f.mark("short", s, o.st.path())
			}
		}
		if likeRead(fn) {
			f.then(o.st, "return of "+x.readResult(fn, o))
		} else if certainError(x, o.st, e) {
			f.then(o.st, "return of an error")
		} else {
			f.then(o.st, "return of a result")
		}
	}
	return x
}

var endOfFile = AV{k: avNonNil, tags: "io.EOF", sym: "io.EOF"}

// arEntrySize is the size of the header of an ar member.
const arEntrySize = 60

// likeRead: a function that says itself how much it read.
func likeRead(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	if rs.Len() != 2 {
		return false
	}
	b, ok := rs.At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Int {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice); ok {
			return true
		}
	}
	return false
}

// readResult is what a function with the shape of io.Reader.Read reports and leaves behind.
func (x *Esp) readResult(fn *ssa.Function, o EOutcome) string {
	s := "an unknown count"
	if o.res.k == avTuple {
		s = x.norm(o.st, o.res.el[0]).key()
	}
	var cells []string
	for c, v := range o.st.mem {
		// not whether, and how, it failed
		if v = x.norm(o.st, v); v.k == avSym {
			cells = append(cells, c+"="+v.key())
		}
	}
	sort.Strings(cells)
	return s + " with " + strings.Join(cells, ", ")
}

// then records what came after a complete read.
func (f *readerFacts) then(st *EState, what string) {
	if k := st.ghost["+after"]; k != "" {
		f.after(k, what)
		delete(st.ghost, "+after")
	}
}

func (f *readerFacts) after(k, what string) {
	if f.next[k] == nil {
		f.next[k] = map[string]bool{}
	}
	f.next[k][what] = true
}

func (f *readerFacts) merge(g *readerFacts) {
	for k, v := range g.site {
		f.site[k] = v
	}
	for k, v := range g.callee {
		f.callee[k] = v
	}
	for k, m := range g.bad {
		for s, v := range m {
			f.mark(k, s, v)
		}
	}
	for k, m := range g.next {
		for n := range m {
			f.after(k, n)
		}
	}
	for _, m := range [][2]map[string]bool{{f.short, g.short}, {f.full, g.full}} {
		for k := range m[1] {
			m[0][k] = true
		}
	}
}

// havocArgs forgets what a call may write through its arguments.
func havocArgs(x *Esp, st *EState, c *ECall, id string) {
	for _, a := range c.args {
		if a.k == avPtr && !strings.HasPrefix(a.cell, "g:") || a.k == avSlice {
			x.havoc(st, a.cell, id)
		}
	}
}

func mayEOF(c *ECall) bool {
	switch c.method {
	case "Read", "ReadAt", "Next", "ReadFull", "ReadAtLeast", "CopyN", "ReadByte", "ReadString", "ReadBytes":
		return true
	}
	return c.name == "encoding/binary.Read"
}

func (f *readerFacts) units(r *Result, p *Program, pkg string) {
	r.Units["functions simulated "+pkg+" "+p.GOOS] = f.entries
	r.Units["functions reached "+pkg+" "+p.GOOS] = len(f.funcs)
	r.Units["states "+pkg+" "+p.GOOS] = f.states
}

const readerRule = "Property simulation (path-sensitive dataflow over a finite domain of nil-ness, error identity and ordering of byte counts, helpers without an error result in place, any number of loop iterations) of every function of the three readers that returns an error, each for unknown arguments; the functions they call that return errors themselves are judged on their own. "

func init() {
	register(&Check{ID: "R16", Level: "other", Rule: readerRule +
		"Each call that can fail (reads, number parsing, tar parsing, callbacks, functions of the library) is taken to fail once, with an error other than io.EOF, on every path that reaches it, and each error the library makes itself counts as a failure; after that the function must return a non-nil error which is neither io.EOF nor a not-exist error of the library's own making.",
		Run: func(env *Env, r *Result) {
			env.each(func(p *Program) {
				for _, pkg := range readerPkgs {
					f := runReaderFaults(p, pkg)
					f.units(r, p, pkg)
					for _, s := range keysOf(f.site) {
						if path, bad := f.bad["swallow"][s]; bad {
							r.bad("error", pkg+": "+s, f.site[s], "after this operation failed, the caller can be told that all is well", path...)
						} else if path, bad := f.bad["missing"][s]; bad {
							r.bad("error", pkg+": "+s, f.site[s], "a failure of this operation is reported as a file that does not exist", path...)
						} else if path, bad := f.bad["eof"][s]; bad {
							r.bad("error", pkg+": "+s, f.site[s], "a failure of this operation is reported as the end of the data", path...)
						} else {
							r.ok("error", pkg+": "+s, f.site[s])
						}
					}
				}
			})
			r.floor("error", 8)
		}})
	register(&Check{ID: "R04", Level: "other", Rule: readerRule +
		"Each read of a structure is taken to deliver fewer bytes than asked for, or none, once, on every path that reaches it (with io.EOF or io.ErrUnexpectedEOF, as the contracts of io.ReaderAt, io.ReadFull and binary.Read say); after that the function must return a non-nil error that is not a not-exist error. Exempt: a read of the 60 bytes of an ar member header that delivers nothing, and functions with the shape of io.Reader.Read.",
		Run: func(env *Env, r *Result) {
			env.each(func(p *Program) {
				for _, pkg := range readerPkgs {
					f := runReaderFaults(p, pkg)
					f.units(r, p, pkg)
					for _, s := range keysOf(f.short) {
						path, bad := f.bad["short"][s]
						if bad {
							r.bad("truncated", pkg+": "+s, f.site[s], "after this read delivered too little, the caller can be told that all is well", path...)
						} else {
							r.ok("truncated", pkg+": "+s, f.site[s])
						}
					}
				}
			})
			r.floor("truncated", 6)
		}})
	register(&Check{ID: "R17", Level: "other", Rule: readerRule +
		"Each call of ReadAt is taken to deliver everything that was asked for together with io.EOF, as the contract of io.ReaderAt allows at the end of the input; what the function can do next (the next call that can fail, or a return with or without an error) must include all that it can do after the same bytes without io.EOF.",
		Run: func(env *Env, r *Result) {
			env.each(func(p *Program) {
				for _, pkg := range readerPkgs {
					f := runReaderFaults(p, pkg)
					f.units(r, p, pkg)
					for _, s := range keysOf(f.full) {
						if path, bad := f.bad["full"][s]; bad {
							r.bad("last bytes", pkg+": "+s, f.site[s], "a complete read is treated as a failure or as the end when it reports the end of the input", path...)
						} else {
							r.ok("last bytes", pkg+": "+s, f.site[s])
						}
					}
				}
			})
			r.floor("last bytes", 1)
		}})
}
