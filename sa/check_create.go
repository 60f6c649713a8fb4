package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The functions that write an archive are simulated once with a fault in every external call.
// Ghosts: "+failed" an operation failed (and which one), "+open ID" a source file is open,
// "+finish ID" a buffering or framing writer is not finished, "+sb" the superblock was written.

type createFacts struct {
	site     map[string]string   // external call site -> position
	swallow  map[string][]string // call site whose error is lost -> path
	opens    map[string]string   // sites that open source files
	leaks    map[string][]string
	finish   map[string]string
	unfinish map[string][]string
	sbSites  map[string]string
	lateW    map[string][]string
	writes   int
	noSB     []string
	x        *Esp
}

var createFactsOf = map[string]*createFacts{}

func siteName(p *Program, fr *EFrame, c *ECall) string {
	n := strings.ReplaceAll(c.name, modPath+"/", "")
	k := 0
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(ci) != calleeName(c.in) {
				continue
			}
			k++
			if ci == c.in {
				if k > 1 {
					n += fmt.Sprintf(" (%d)", k)
				}
				return n + " in " + shortFn(fr.fn)
			}
		}
	}
	return n + " in " + shortFn(fr.fn)
}

func calleeName(in ssa.CallInstruction) string {
	com := in.Common()
	if com.IsInvoke() {
		return com.Method.FullName()
	}
	if f := com.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// memoryWriter reports whether a writer argument is an in-memory buffer, which never fails.
func memoryWriter(a AV) bool {
	if a.dyn == nil {
		return false
	}
	switch types.TypeString(a.dyn, nil) {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return strings.HasPrefix(types.TypeString(a.dyn, nil), "*hash")
}

func isDataWrite(c *ECall) (w AV, ok bool) {
	switch c.name {
	case "encoding/binary.Write", "io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		return c.args[0], true
	}
	switch c.method {
	case "Write", "WriteAt", "WriteString", "WriteByte", "ReadFrom":
		if strings.HasPrefix(c.name, "(*bytes.Buffer).") || strings.HasPrefix(c.name, "(*strings.Builder).") {
			return AV{}, false
		}
		if strings.HasPrefix(c.name, "invoke ") {
			return c.recv, true
		}
		if len(c.args) > 0 {
			return c.args[0], true
		}
	}
	return AV{}, false
}

func runCreate(p *Program, pkg string) *createFacts {
	key := p.GOOS + pkg
	if f := createFactsOf[key]; f != nil {
		return f
	}
	f := &createFacts{site: map[string]string{}, swallow: map[string][]string{}, opens: map[string]string{}, leaks: map[string][]string{},
		finish: map[string]string{}, unfinish: map[string][]string{}, sbSites: map[string]string{}, lateW: map[string][]string{}}
	createFactsOf[key] = f
	sp := p.SPkgs[modPath+"/"+pkg]
	fn := sp.Func("Create")
	if fn == nil || fn.Blocks == nil {
		panic("package " + pkg + " has no function Create")
	}
	x := newEsp(p)
	f.x = x
	sbOff := int64(-1)
	if pkg == "erofs" {
		sbOff = 1024
	}
	x.call = func(x *Esp, fr *EFrame, st *EState, c *ECall) ([]EOutcome, bool) {
		id := fr.pre + callTag(c.in)
		site := siteName(p, fr, c)
		where := p.at(c.in.Pos())
		ei := errIndex(c.sig)
		n := c.sig.Results().Len()
		// writers that must be finished
		switch c.name {
		case "archive/tar.NewWriter", "bufio.NewWriter", "bufio.NewWriterSize", "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel":
			f.finish[site] = where
			x.freshName(st, id)
			st.facts[id] = AV{k: avNonNil}
			st.ghost["+finish "+id] = site
			return []EOutcome{{st, sym(id)}}, true
		}
		recvSym := ""
		if len(c.args) > 0 && !strings.HasPrefix(c.name, "invoke ") {
			recvSym = c.args[0].sym
		}
		// superblock
		if pkg == "erofs" {
			if c.name == "io.NewOffsetWriter" && isOff(c.args[1], sbOff) {
				x.freshName(st, id)
				st.facts[id] = AV{k: avNonNil}
				st.ghost["sbw("+id+")"] = "1"
				return []EOutcome{{st, sym(id)}}, true
			}
			if w, ok := isDataWrite(c); ok && !memoryWriter(w) {
				isSB := c.name == "encoding/binary.Write" && isSuperBlockArg(c.args[2]) || st.ghost["sbw("+w.sym+")"] != "" ||
					c.method == "WriteAt" && isOff(c.args[len(c.args)-1], sbOff)
				if isSB {
					f.sbSites[site] = where
				} else if st.ghost["+sb"] != "" {
					f.lateW[site+" ("+where+")"] = st.path()
				}
				f.writes++
				if isSB {
					defer func() {}()
				}
				if isSB && ei >= 0 {
					outs := []EOutcome{}
					x.freshName(st, id)
					r := x.results(fr, st, c)
					bad := st.clone()
					if bad.ghost["+failed"] == "" {
						bad.ghost["+failed"] = site
					}
					f.site[site] = where
					outs = append(outs, EOutcome{bad, setRes(r, ei, n, AV{k: avNonNil, not: "io.EOF"})})
					st.ghost["+sb"] = "1"
					outs = append(outs, EOutcome{st, setRes(r, ei, n, AV{k: avNil})})
					return outs, true
				}
			}
		}
		if c.name == "errors.New" || c.name == "fmt.Errorf" {
			if st.ghost["+failed"] == "" {
				st.ghost["+failed"] = site
			}
			f.site[site] = where
			return nil, false
		}
		if c.name == "io/fs.WalkDir" || strings.HasPrefix(c.name, "recursive ") {
			return nil, false
		}
		if c.method == "Close" && strings.HasPrefix(c.name, "invoke ") || c.name == "(*os.File).Close" {
			s := c.recv.sym
			if c.name == "(*os.File).Close" {
				s = recvSym
			}
			delete(st.ghost, "+open "+s)
			return nil, false // closing a source is not part of writing
		}
		if ei < 0 || strings.HasPrefix(c.name, "errors.") {
			return nil, false
		}
		if strings.HasPrefix(c.name, "(*bytes.Buffer).") || strings.HasPrefix(c.name, "(*strings.Builder).") || strings.HasPrefix(c.name, "(*bytes.Reader).") {
			return nil, false
		}
		if w, ok := isDataWrite(c); ok && memoryWriter(w) && c.name != "io.Copy" && c.name != "io.CopyN" {
			return nil, false
		}
		if c.method == "Open" || c.method == "OpenFile" {
			if !strings.Contains(c.name, modPath) {
				f.opens[site] = where
				if st.ghost["+open "+id] != "" {
					f.leaks[site] = st.path()
				}
			}
		}
		f.site[site] = where
		if c.method == "Open" {
			delete(st.ghost, "+open "+id)
		}
		x.freshName(st, id)
		r := x.results(fr, st, c)
		if st.ghost["+failed"] != "" {
			if recvSym != "" && finishes(c) {
				delete(st.ghost, "+finish "+recvSym)
			}
			if c.method == "Open" {
				bad := st.clone()
				st.ghost["+open "+id] = site
				return []EOutcome{{bad, failRes(r, ei, n)}, {st, okRes(r, ei, n, id)}}, true
			}
			return []EOutcome{{st, r}}, true
		}
		bad := st.clone()
		bad.ghost["+failed"] = site
		bad.step("error from " + site + " at " + where)
		outs := []EOutcome{{bad, failRes(r, ei, n)}}
		if (c.method == "Read" || c.method == "ReadAt") && n == 2 {
			eof := st.clone()
			outs = append(outs, EOutcome{eof, setRes(r, ei, n, AV{k: avNonNil, tags: "io.EOF", sym: "io.EOF"})})
		}
		if c.name == "io.CopyN" || c.name == "io.ReadFull" || c.name == "io.ReadAtLeast" {
			eof := st.clone()
			eof.ghost["+failed"] = site
			outs = append(outs, EOutcome{eof, setRes(r, ei, n, AV{k: avNonNil, tags: "io.EOF", sym: "io.EOF"})})
		}
		good := st
		if c.method == "Open" {
			good.ghost["+open "+id] = site
		}
		if recvSym != "" && finishes(c) {
			delete(good.ghost, "+finish "+recvSym)
		}
		if strings.HasPrefix(c.name, "(*bufio.Writer).Write") && recvSym != "" {
			good.ghost["+finish "+recvSym] = site
		}
		outs = append(outs, EOutcome{good, okRes(r, ei, n, id)})
		return outs, true
	}
	x.entry = func(s *EState) []walkCall {
		ok := s.clone()
		args := []AV{sym("walk.path"), sym("walk.entry"), {k: avNil}}
		calls := []walkCall{{ok, args}}
		if s.ghost["+failed"] == "" {
			bad := s.clone()
			bad.ghost["+failed"] = "walking the source"
			f.site["walking the source"] = p.at(fn.Pos())
			calls = append(calls, walkCall{bad, []AV{sym("walk.path"), sym("walk.entry2"), {k: avNonNil, not: "io.EOF"}}})
		}
		return calls
	}
	for _, o := range x.Entry(fn, nil) {
		res := o.res
		if res.k == avTuple && len(res.el) > 0 {
			res = res.el[len(res.el)-1]
		}
		res = x.norm(o.st, res)
		_, nn := x.wraps(o.st, res)
		certain := res.k == avNonNil || res.k == avPtr || nn
		if s := o.st.ghost["+failed"]; s != "" && !certain {
			f.swallow[s] = o.st.path()
		}
		for g, v := range o.st.ghost {
			if strings.HasPrefix(g, "+open ") {
				f.leaks[v] = o.st.path()
			}
			if strings.HasPrefix(g, "+finish ") && !certain {
				f.unfinish[v] = o.st.path()
			}
		}
		if pkg == "erofs" && o.st.ghost["+sb"] == "" && !certain {
			f.noSB = o.st.path()
			if f.noSB == nil {
				f.noSB = []string{"Create"}
			}
		}
	}
	return f
}

// finishes reports that a call writes out all that a layer still holds: Close, or Flush where there is no Close.
func finishes(c *ECall) bool {
	if c.method == "Flush" && c.sig.Recv() != nil {
		o, _, _ := types.LookupFieldOrMethod(c.sig.Recv().Type(), true, nil, "Close")
		return o == nil
	}
	return c.method == "Close" || c.method == "Flush"
}

func isOff(a AV, n int64) bool {
	return n >= 0 && a.k == avBits && a.mask == ^uint64(0) && int64(a.val) == n
}

func isSuperBlockArg(a AV) bool {
	if a.dyn == nil {
		return false
	}
	n := namedOf(a.dyn)
	return n != nil && n.Obj().Name() == "SuperBlock" && inModuleType(a.dyn)
}

func failRes(r AV, ei, n int) AV {
	r = setRes(r, ei, n, AV{k: avNonNil, not: "io.EOF|io.ErrUnexpectedEOF|io/fs.SkipDir|io/fs.SkipAll"})
	return r
}

func okRes(r AV, ei, n int, id string) AV {
	r = setRes(r, ei, n, AV{k: avNil})
	if n == 2 && ei == 1 {
		// the value handed out belongs to this call
		r.el[0] = AV{k: avSym, sym: id}
	}
	return r
}

func keysOf[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var creators = []string{"arfs", "tarfs", "erofs"}

func (f *createFacts) units(r *Result, p *Program, pkg string) {
	r.Units["functions "+pkg+" "+p.GOOS] = len(f.x.funcs)
	r.Units["states "+pkg+" "+p.GOOS] = f.x.steps
	r.Units["external call sites "+pkg+" "+p.GOOS] = len(f.site)
}

func init() {
	register(&Check{ID: "W01", Level: "other", Rule: "Property simulation (path-sensitive dataflow over a finite domain of nil-ness and error identity, callees and closures in place) of every function that writes an archive: " +
		"each external call that can fail, and each error the library makes itself, is taken to fail once on every path that reaches it; on all ways out after that the result must be a non-nil error.",
		Run: func(env *Env, r *Result) {
			env.each(func(p *Program) {
				for _, pkg := range creators {
					f := runCreate(p, pkg)
					f.units(r, p, pkg)
					for _, s := range keysOf(f.site) {
						if path, bad := f.swallow[s]; bad {
							r.bad("error", pkg+": "+s, f.site[s], "after this operation failed, Create can return success", path...)
						} else {
							r.ok("error", pkg+": "+s, f.site[s])
						}
					}
					for s, path := range f.swallow {
						if f.site[s] == "" {
							r.bad("error", pkg+": "+s, "", "Create can return success after a failure", path...)
						}
					}
				}
			})
			r.floor("error", 30)
		}})
	register(&Check{ID: "W11", Level: "other", Rule: "Typestate (open, closed) of every source file opened while writing an archive, by property simulation with faults in every external call: every file that was opened is closed on every path, error paths included, before the next one is opened at the same place and before the function returns.",
		Run: func(env *Env, r *Result) {
			env.each(func(p *Program) {
				for _, pkg := range creators {
					f := runCreate(p, pkg)
					f.units(r, p, pkg)
					for _, s := range keysOf(f.opens) {
						if path, bad := f.leaks[s]; bad {
							r.bad("closed", pkg+": "+s, f.opens[s], "the file can stay open", path...)
						} else {
							r.ok("closed", pkg+": "+s, f.opens[s])
						}
					}
				}
			})
			r.floor("closed", 3)
		}})
	register(&Check{ID: "W06", Level: "other", Rule: "Typestate by property simulation of the functions that write an archive: a writer that buffers or adds a trailer is finished, successfully, on every path that reports success; " +
		"the EROFS superblock is written on every such path, and nothing else is written after it.",
		Run: func(env *Env, r *Result) {
			env.each(func(p *Program) {
				for _, pkg := range creators {
					f := runCreate(p, pkg)
					f.units(r, p, pkg)
					for _, s := range keysOf(f.finish) {
						if path, bad := f.unfinish[s]; bad {
							r.bad("finished", pkg+": "+s, f.finish[s], "Create can report success although this writer was not finished successfully", path...)
						} else {
							r.ok("finished", pkg+": "+s, f.finish[s])
						}
					}
					if pkg == "erofs" {
						r.check(f.noSB == nil, "superblock written", pkg, "", "Create can report success without having written the superblock")
						for _, s := range keysOf(f.lateW) {
							r.bad("superblock last", pkg+": "+s, s, "data is written after the superblock: an interrupted write leaves an image that looks complete", f.lateW[s]...)
						}
						for _, s := range keysOf(f.sbSites) {
							r.ok("superblock last", pkg+": "+s, f.sbSites[s])
						}
						r.Units["data writes simulated"] += f.writes
					}
				}
			})
			r.floor("finished", 1)
			r.floor("superblock last", 1)
		}})
}

var _ = fmt.Sprint
var _ ssa.Value
