package main

// Flow-sensitive interpretation of one entry point with its callees in place: which locks are held
// (must and may), which objects are still private to the invocation, which sync.Once has run, and
// which memory is read and written. Addresses are compared as symbolic access terms; what they may
// denote comes from the points-to analysis.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lheld struct {
	write bool
	where string
}

// LState is the abstract state at a program point.
type LState struct {
	avail  map[string]string // address term -> value term
	must   map[string]bool   // lock term -> held for writing
	may    map[string]string // lock term -> where it was taken
	unpub  map[string]bool   // objects only this invocation knows
	inside map[string]string // object term -> private object term that holds it
	once   map[string]bool   // once terms that have run
	defers []ldefer
	in     string // once term whose function is running
}

type ldefer struct {
	in   ssa.CallInstruction
	args []string
	fv   string
}

func newLState() *LState {
	return &LState{avail: map[string]string{}, must: map[string]bool{}, may: map[string]string{}, unpub: map[string]bool{}, inside: map[string]string{}, once: map[string]bool{}}
}

func (s *LState) clone() *LState {
	n := newLState()
	for k, v := range s.avail {
		n.avail[k] = v
	}
	for k, v := range s.must {
		n.must[k] = v
	}
	for k, v := range s.may {
		n.may[k] = v
	}
	for k, v := range s.unpub {
		n.unpub[k] = v
	}
	for k, v := range s.inside {
		n.inside[k] = v
	}
	for k, v := range s.once {
		n.once[k] = v
	}
	n.defers = append([]ldefer(nil), s.defers...)
	n.in = s.in
	return n
}

// join merges b into s and reports whether s changed.
func (s *LState) join(b *LState) bool {
	ch := false
	for k, v := range s.avail {
		if b.avail[k] != v {
			delete(s.avail, k)
			ch = true
		}
	}
	for k, v := range s.must {
		w, ok := b.must[k]
		if !ok {
			delete(s.must, k)
			ch = true
		} else if v && !w {
			s.must[k] = false
			ch = true
		}
	}
	for k, v := range b.may {
		if _, ok := s.may[k]; !ok {
			s.may[k] = v
			ch = true
		}
	}
	for k := range s.unpub {
		if !b.unpub[k] {
			delete(s.unpub, k)
			ch = true
		}
	}
	for k, v := range b.inside {
		if _, ok := s.inside[k]; !ok {
			s.inside[k] = v
			ch = true
		}
	}
	for k := range s.once {
		if !b.once[k] {
			delete(s.once, k)
			ch = true
		}
	}
	for _, d := range b.defers {
		found := false
		for _, e := range s.defers {
			if e.in == d.in {
				found = true
			}
		}
		if !found {
			s.defers = append(s.defers, d)
			ch = true
		}
	}
	return ch
}

// stale renames the facts about an earlier incarnation of a term.
func (s *LState) stale(id string) {
	old := id + "'"
	has := func(k string) bool { return mentions(k, id) }
	for k, v := range s.avail {
		if has(k) || has(v) {
			delete(s.avail, k)
		}
	}
	for k := range s.must {
		if has(k) {
			delete(s.must, k)
		}
	}
	for k, v := range s.may {
		if has(k) {
			delete(s.may, k)
			s.may[strings.ReplaceAll(k, "("+id+")", "("+old+")")] = v
		}
	}
	for k := range s.unpub {
		if has(k) {
			delete(s.unpub, k)
		}
	}
	for k, v := range s.inside {
		if has(k) || has(v) {
			delete(s.inside, k)
		}
	}
	for k := range s.once {
		if has(k) {
			delete(s.once, k)
		}
	}
}

func mentions(term, id string) bool {
	return term == id || strings.Contains(term, "("+id+")")
}

// Access is one read or write of memory that is not private to the invocation.
type Access struct {
	entry string
	in    ssa.Instruction
	fn    *ssa.Function
	write bool
	what  string
	locs  []Loc
	base  string // term of the object
	locks map[string]bool
	once  bool // inside, or after, the once of the same object
	onceT string
	ext   string // method of an external object that does the access
}

// LockEvent is a violation of lock discipline.
type LockEvent struct {
	entry, kind, msg, construct, where string
}

type lockAnalysis struct {
	mut    map[string]bool // names of fields that are stored to other than while an object is built
	p      *Program
	pt     *PT
	entry  string
	acc    []Access
	accKey map[string]int
	ev     []LockEvent
	ops    map[string]bool // lock operations seen
	byFn   map[*ssa.Function][]*PInst
	stack  []*ssa.Function
	origin map[string]string // value term -> term of the object it was loaded from
	steps  int
}

func newLockAnalysis(pt *PT) *lockAnalysis {
	a := &lockAnalysis{p: pt.p, pt: pt, accKey: map[string]int{}, ops: map[string]bool{}, origin: map[string]string{}, mut: map[string]bool{}}
	for _, fn := range pt.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							a.mut[fieldName(fa.X.Type(), fa.Field)] = true
						}
					}
				}
			}
		}
	}
	return a
}

// run interprets an entry point.
func (a *lockAnalysis) run(pi *PInst) {
	a.entry = pi.ctx.entry
	a.byFn = map[*ssa.Function][]*PInst{}
	for _, x := range a.pt.order {
		if x.ctx.entry == a.entry {
			a.byFn[x.fn] = append(a.byFn[x.fn], x)
		}
	}
	st := newLState()
	var args []string
	for i := range pi.fn.Params {
		args = append(args, fmt.Sprintf("p%d", i))
	}
	out, _ := a.call(pi.fn, "", args, nil, st)
	if out != nil {
		var l []string
		for k := range out.may {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			a.event("leak", out.may[k], shortFn(pi.fn), fmt.Sprintf("%s can return without releasing the lock taken at %s", a.entry, out.may[k]))
		}
	}
}

func (a *lockAnalysis) event(kind, where, construct, msg string) {
	a.ev = append(a.ev, LockEvent{a.entry, kind, msg, construct, where})
}

// locs is the union of what a value may point to in the instances of this entry.
func (a *lockAnalysis) locs(fn *ssa.Function, v ssa.Value) []Loc {
	switch v.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Const:
		return a.pt.locs(nil, v)
	}
	seen := map[Loc]bool{}
	var out []Loc
	for _, pi := range a.byFn[fn] {
		for _, l := range a.pt.locs(pi.ctx, v) {
			if !seen[l] && !isTok(l) {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	return out
}

type lframe struct {
	fn   *ssa.Function
	pre  string
	term map[ssa.Value]string
	fvs  []string
	st   *LState
}

func (f *lframe) id(v ssa.Value) string { return f.pre + v.Name() }

func (a *lockAnalysis) termOf(f *lframe, v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		return "c:" + v.String()
	case *ssa.Global:
		return "g:" + v.String()
	case *ssa.Function:
		return "f:" + v.String()
	}
	if t, ok := f.term[v]; ok {
		return t
	}
	return f.id(v)
}

// call interprets fn with the given argument terms and returns the state and result terms at exit.
func (a *lockAnalysis) call(fn *ssa.Function, pre string, args, fvs []string, st *LState) (*LState, []string) {
	f := &lframe{fn: fn, pre: pre, term: map[ssa.Value]string{}, fvs: fvs}
	for i, prm := range fn.Params {
		if i < len(args) {
			f.term[prm] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(fvs) {
			f.term[fv] = fvs[i]
		}
	}
	a.stack = append(a.stack, fn)
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	saved := st.defers
	st = st.clone()
	st.defers = nil
	ins := map[*ssa.BasicBlock]*LState{fn.Blocks[0]: st}
	var queue []*ssa.BasicBlock
	queue = append(queue, fn.Blocks[0])
	visits := map[*ssa.BasicBlock]int{}
	var exit *LState
	var rets []string
	first := true
	from := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	rpo := rpoIndex(fn)
	queued := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	for len(queue) > 0 {
		bi := 0
		for k, q := range queue {
			if rpo[q] < rpo[queue[bi]] {
				bi = k
			}
		}
		b := queue[bi]
		queue = append(queue[:bi:bi], queue[bi+1:]...)
		queued[b] = false
		visits[b]++
		if visits[b] > 60 {
			panic(undecided("lock analysis of " + fn.String() + " does not converge"))
		}
		cur := ins[b].clone()
		f.st = cur
		for _, in := range b.Instrs {
			a.steps++
			a.instr(f, in, from[b])
		}
		if len(b.Succs) == 0 {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				var ts []string
				for _, v := range ret.Results {
					ts = append(ts, a.termOf(f, v))
				}
				if first {
					exit, rets, first = cur.clone(), ts, false
				} else {
					exit.join(cur)
					for i := range rets {
						if rets[i] != ts[i] {
							rets[i] = ""
						}
					}
				}
			}
			continue
		}
		for _, s := range b.Succs {
			if from[s] == nil {
				from[s] = map[*ssa.BasicBlock]bool{}
			}
			nw := !from[s][b]
			from[s][b] = true
			if ins[s] == nil {
				ins[s] = cur.clone()
			} else if !ins[s].join(cur) && !nw {
				continue
			}
			if !queued[s] {
				queued[s] = true
				queue = append(queue, s)
			}
		}
	}
	if exit != nil {
		exit.defers = saved
	}
	return exit, rets
}

func rpoIndex(fn *ssa.Function) map[*ssa.BasicBlock]int {
	idx := map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		idx[b] = len(post) - i
	}
	return idx
}

func (a *lockAnalysis) setFresh(f *lframe, v ssa.Value) string {
	id := f.id(v)
	f.st.stale(id)
	f.term[v] = id
	return id
}

func (a *lockAnalysis) instr(f *lframe, in ssa.Instruction, preds map[*ssa.BasicBlock]bool) {
	st := f.st
	switch i := in.(type) {
	case *ssa.Alloc:
		id := a.setFresh(f, i)
		st.unpub[id] = true
	case *ssa.MakeMap:
		id := a.setFresh(f, i)
		st.unpub[id] = true
	case *ssa.MakeSlice:
		id := a.setFresh(f, i)
		st.unpub[id] = true
	case *ssa.MakeClosure:
		id := a.setFresh(f, i)
		st.unpub[id] = true
		for _, b := range i.Bindings {
			if t := a.termOf(f, b); st.unpub[t] {
				st.inside[t] = id
			}
		}
	case *ssa.FieldAddr:
		f.term[i] = "&(" + a.termOf(f, i.X) + ")." + fieldName(i.X.Type(), i.Field)
	case *ssa.IndexAddr:
		f.term[i] = "&(" + a.termOf(f, i.X) + ")[]"
	case *ssa.ChangeType:
		f.term[i] = a.termOf(f, i.X)
	case *ssa.ChangeInterface:
		f.term[i] = a.termOf(f, i.X)
	case *ssa.MakeInterface:
		f.term[i] = a.termOf(f, i.X)
	case *ssa.TypeAssert:
		if i.CommaOk {
			f.term[i] = a.termOf(f, i.X) // the pair; element 0 is the same pointer
		} else {
			f.term[i] = a.termOf(f, i.X)
		}
	case *ssa.Extract:
		if ta, ok := i.Tuple.(*ssa.TypeAssert); ok && i.Index == 0 {
			f.term[i] = a.termOf(f, ta.X)
			return
		}
		if t, ok := f.term[i.Tuple]; ok {
			nt := fmt.Sprintf("%s#%d", t, i.Index)
			if v, ok := st.avail["#"+nt]; ok {
				f.term[i] = v
				return
			}
			f.term[i] = nt
			if o := a.origin[t]; o != "" {
				a.origin[nt] = o
			}
			return
		}
		a.setFresh(f, i)
	case *ssa.Phi:
		same := ""
		for _, pr := range i.Block().Preds {
			if i.Block().Dominates(pr) {
				same = "-" // a loop: every iteration may see another object
			}
		}
		for k, e := range i.Edges {
			if !preds[i.Block().Preds[k]] {
				continue
			}
			t := a.termOf(f, e)
			if same == "" {
				same = t
			} else if same != t {
				same = "-"
			}
		}
		if same != "" && same != "-" && same != f.id(i) && (f.term[i] == "" || f.term[i] == same) {
			f.term[i] = same
			return
		}
		{
			a.setFresh(f, i)
			for _, e := range i.Edges {
				if t := a.termOf(f, e); st.unpub[t] {
					a.publish(st, t) // may be reached under another name
				}
			}
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return
		}
		addr := a.termOf(f, i.X)
		a.access(f, in, i.X, addr, false, "")
		if v, ok := st.avail[addr]; ok {
			f.term[i] = v
			return
		}
		id := a.setFresh(f, i)
		st.avail[addr] = id
		a.origin[id] = baseTerm(addr)
	case *ssa.Store:
		addr := a.termOf(f, i.Addr)
		a.access(f, in, i.Addr, addr, true, "")
		v := a.termOf(f, i.Val)
		a.kill(f, a.locs(f.fn, i.Addr), addr)
		st.avail[addr] = v
		a.flowInto(st, baseTerm(addr), v)
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			a.access(f, in, i.X, "&("+a.termOf(f, i.X)+"){}", false, "")
			id := a.setFresh(f, i)
			a.origin[id] = a.ownerOf(a.termOf(f, i.X))
			return
		}
	case *ssa.MapUpdate:
		m := a.termOf(f, i.Map)
		a.access(f, in, i.Map, "&("+m+"){}", true, "")
		a.flowInto(st, m, a.termOf(f, i.Value))
	case *ssa.Range:
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			a.access(f, in, i.X, "&("+a.termOf(f, i.X)+"){}", false, "")
			f.term[i] = a.termOf(f, i.X)
		}
	case *ssa.Next:
		if !i.IsString {
			if r, ok := i.Iter.(*ssa.Range); ok {
				a.access(f, in, r.X, "&("+a.termOf(f, r.X)+"){}", false, "")
				id := a.setFresh(f, i)
				a.origin[id] = a.ownerOf(a.termOf(f, r.X))
			}
		}
	case *ssa.Defer:
		d := ldefer{in: i}
		for _, x := range i.Call.Args {
			d.args = append(d.args, a.termOf(f, x))
		}
		for k, e := range st.defers {
			if e.in == d.in {
				st.defers = append(st.defers[:k:k], st.defers[k+1:]...)
				break
			}
		}
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			a.doCall(f, ds[k].in, ds[k].args)
		}
	case *ssa.Call:
		var args []string
		for _, x := range i.Call.Args {
			args = append(args, a.termOf(f, x))
		}
		a.doCall(f, i, args)
	case *ssa.Go:
		a.event("goroutine", a.p.at(i.Pos()), shortFn(f.fn), "goroutine started in "+shortFn(f.fn)+": its accesses cannot be ordered")
	}
}

// ownerOf is the object whose field holds a map or a slice.
func (a *lockAnalysis) ownerOf(t string) string {
	if o := a.origin[t]; o != "" {
		return o
	}
	return t
}

func baseTerm(addr string) string {
	if !strings.HasPrefix(addr, "&(") {
		return addr
	}
	depth := 0
	for i := 1; i < len(addr); i++ {
		switch addr[i] {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				in := addr[2:i]
				if strings.HasPrefix(in, "&(") {
					return baseTerm(in)
				}
				return in
			}
		}
	}
	return addr
}

func (a *lockAnalysis) publish(st *LState, t string) {
	if !st.unpub[t] {
		return
	}
	delete(st.unpub, t)
	for k, v := range st.inside {
		if v == t {
			delete(st.inside, k)
			a.publish(st, k)
		}
	}
}

// flowInto records that value v became reachable from object base.
func (a *lockAnalysis) flowInto(st *LState, base, v string) {
	if !st.unpub[v] {
		return
	}
	if st.unpub[base] {
		if st.inside[v] != "" && st.inside[v] != base {
			a.publish(st, v)
			return
		}
		st.inside[v] = base
		return
	}
	a.publish(st, v)
}

func (a *lockAnalysis) kill(f *lframe, ls []Loc, addr string) {
	// entries with another name that may denote the same memory
	fieldOf := func(t string) string {
		i := strings.LastIndexAny(t, ").")
		if i < 0 {
			return ""
		}
		return t[i:]
	}
	_ = ls
	for k := range f.st.avail {
		if k == addr {
			delete(f.st.avail, k)
			continue
		}
		// two addresses can only overlap when they select the same field, or when one is a whole object
		if strings.HasPrefix(k, "&(") && strings.HasPrefix(addr, "&(") {
			if fieldOf(k) == fieldOf(addr) && !(f.st.unpub[baseTerm(k)] || f.st.unpub[baseTerm(addr)]) {
				delete(f.st.avail, k)
			}
			continue
		}
		if f.st.unpub[k] || f.st.unpub[addr] {
			if baseTerm(k) == addr {
				delete(f.st.avail, k)
			}
			continue
		}
		if strings.HasPrefix(k, "#") {
			continue
		}
		delete(f.st.avail, k)
	}
}

// havoc forgets what unknown code may change.
func (a *lockAnalysis) havoc(f *lframe) {
	for k := range f.st.avail {
		if strings.HasPrefix(k, "#") || f.st.unpub[baseTerm(k)] || strings.Contains(k, ").") && !a.mut[lastField(k)] {
			continue
		}
		delete(f.st.avail, k)
	}
}

// access records a read or a write through an address.
func (a *lockAnalysis) access(f *lframe, in ssa.Instruction, v ssa.Value, addr string, write bool, ext string) {
	base := baseTerm(addr)
	if f.st.unpub[base] {
		return
	}
	a.accessLocs(f, in, a.locs(f.fn, v), base, addr, write, ext)
}

// accessLocs records an access of the memory at ls, reached through the term base.
func (a *lockAnalysis) accessLocs(f *lframe, in ssa.Instruction, ls []Loc, base, addr string, write bool, ext string) {
	if len(ls) == 0 {
		return
	}
	owner := base
	if strings.HasSuffix(addr, "{}") || strings.HasSuffix(addr, "[]") {
		owner = a.ownerOf(base)
	}
	acc := Access{entry: a.entry, in: in, fn: f.fn, write: write, locs: ls, base: owner, ext: ext, locks: map[string]bool{}}
	for k, w := range f.st.must {
		if !write || w {
			if baseTerm(k) == owner {
				acc.locks[lastField(k)] = true
			}
		}
	}
	if f.st.in != "" {
		acc.once = true
		acc.onceT = f.st.in
	} else {
		for k := range f.st.once {
			if baseTerm(k) == owner {
				acc.once = true
			}
		}
	}
	key := fmt.Sprintf("%s|%p|%v|%s", a.entry, in, write, ext)
	if k, ok := a.accKey[key]; ok {
		o := &a.acc[k]
		for l := range o.locks {
			if !acc.locks[l] {
				delete(o.locks, l)
			}
		}
		o.once = o.once && acc.once
		return
	}
	a.accKey[key] = len(a.acc)
	a.acc = append(a.acc, acc)
}

func lastField(t string) string {
	if i := strings.LastIndex(t, ")."); i >= 0 {
		return t[i+2:]
	}
	return t
}

func (a *lockAnalysis) doCall(f *lframe, in ssa.CallInstruction, args []string) {
	com := in.Common()
	st := f.st
	res := func(ts []string) {
		v, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		if len(ts) == 1 && ts[0] != "" {
			f.term[v] = ts[0]
			return
		}
		id := a.setFresh(f, v)
		for i, t := range ts {
			if t != "" && len(ts) > 1 {
				st.avail[fmt.Sprintf("#%s#%d", id, i)] = t
			}
		}
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if keeps, writes := appendRoom(com.Args[0]); keeps {
				a.access(f, in, com.Args[0], "&("+args[0]+")[]", writes, "append")
			}
			res(nil)
			if v, ok := in.(*ssa.Call); ok {
				st.unpub[f.id(v)] = true
			}
			if len(args) > 1 {
				for k, h := range st.inside {
					if h == args[1] {
						a.publish(st, k)
					}
				}
			}
			return
		case "delete", "clear":
			a.access(f, in, com.Args[0], "&("+args[0]+"){}", true, "")
		case "copy":
			a.access(f, in, com.Args[0], "&("+args[0]+")[]", true, "")
			a.access(f, in, com.Args[1], "&("+args[1]+")[]", false, "")
		}
		res(nil)
		return
	}
	if com.IsInvoke() {
		rt := a.termOf(f, com.Value)
		var callees []*ssa.Function
		ext := false
		for _, l := range a.locs(f.fn, com.Value) {
			switch l.o.kind {
			case "user", "ext":
				ext = true
			}
		}
		callees = a.callees(f.fn, in)
		if ext || len(callees) == 0 {
			a.extAccess(f, in, com.Value, rt, com.Method.Name())
			for k := range st.may {
				a.userCallUnderLock(f, in, com.Value, k)
			}
		}
		a.enter(f, in, callees, append([]string{rt}, args...), nil, res)
		return
	}
	if fn := com.StaticCallee(); fn != nil && !(fn.Blocks != nil && (inModule(fn) || a.p.wrapsModule(fn))) {
		a.extern(f, in, extName(fn), args, res)
		return
	}
	callees := a.callees(f.fn, in)
	var fvs []string
	if mc, ok := com.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			fvs = append(fvs, a.termOf(f, b))
		}
	}
	a.enter(f, in, callees, args, fvs, res)
}

func (a *lockAnalysis) userCallUnderLock(f *lframe, in ssa.CallInstruction, v ssa.Value, lock string) {
	for _, l := range a.locs(f.fn, v) {
		if l.o.kind == "user" && l.o.label != "error" {
			a.event("callout", a.p.at(in.Pos()), shortFn(f.fn), fmt.Sprintf("%s calls code of the caller while a lock is held (taken at %s)", shortFn(f.fn), f.st.may[lock]))
			return
		}
	}
}

// callees are the library functions a call may enter, from the points-to analysis.
func (a *lockAnalysis) callees(fn *ssa.Function, in ssa.CallInstruction) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, pi := range a.byFn[fn] {
		for _, c := range a.pt.calls[pi][in] {
			if !seen[c.fn] {
				seen[c.fn] = true
				out = append(out, c.fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (a *lockAnalysis) enter(f *lframe, in ssa.CallInstruction, callees []*ssa.Function, args, fvs []string, res func([]string)) {
	var out *LState
	var rts []string
	n := 0
	for _, fn := range callees {
		rec := false
		for _, s := range a.stack {
			if s == fn {
				rec = true
			}
		}
		if rec || len(a.stack) > 24 {
			a.havoc(f)
			continue
		}
		fv := fvs
		if fv == nil && len(fn.FreeVars) > 0 {
			// a closure called through a variable: its captured cells keep their own names
			for range fn.FreeVars {
				fv = append(fv, "")
			}
			fv = a.bindings(f, fn)
		}
		st, rt := a.call(fn, fmt.Sprintf("%s%s/", f.pre, callTag(in)), args, fv, f.st)
		if st == nil {
			continue
		}
		n++
		if out == nil {
			out, rts = st, rt
		} else {
			out.join(st)
			for i := range rts {
				if i >= len(rt) || rts[i] != rt[i] {
					rts[i] = ""
				}
			}
		}
	}
	if out != nil {
		*f.st = *out
	}
	if n != 1 {
		for i := range rts {
			rts[i] = ""
		}
	}
	res(rts)
}

func (a *lockAnalysis) bindings(f *lframe, fn *ssa.Function) []string {
	var out []string
	for _, fv := range fn.FreeVars {
		out = append(out, "fv:"+fn.String()+"."+fv.Name())
	}
	return out
}

func callTag(in ssa.CallInstruction) string {
	if v := in.Value(); v != nil {
		return v.Name()
	}
	return fmt.Sprintf("d%d", in.Pos())
}

func (a *lockAnalysis) extern(f *lframe, in ssa.CallInstruction, name string, args []string, res func([]string)) {
	st := f.st
	com := in.Common()
	where := a.p.at(in.Pos())
	fnName := shortFn(f.fn)
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		a.ops[fnName+" "+where] = true
		l := args[0]
		if at, ok := st.may[l]; ok {
			a.event("self-deadlock", where, fnName, fmt.Sprintf("%s takes a lock it may already hold since %s: it would wait for itself forever", fnName, at))
		}
		for k, at := range st.may {
			if k != l && !a.below(baseTerm(l), baseTerm(k)) {
				a.event("lock-order", where, fnName, fmt.Sprintf("%s takes a lock while holding another one (since %s) that does not belong to a parent of it: two callers can wait for each other", fnName, at))
			}
		}
		st.must[l] = name != "(*sync.RWMutex).RLock"
		st.may[l] = where
		a.havoc(f)
		res(nil)
		return
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		a.ops[fnName+" "+where] = true
		l := args[0]
		if _, ok := st.must[l]; !ok {
			a.event("unlock", where, fnName, fmt.Sprintf("%s releases a lock that is not held on every path that gets there", fnName))
		}
		delete(st.must, l)
		delete(st.may, l)
		res(nil)
		return
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		a.event("trylock", where, fnName, "TryLock makes the outcome depend on the schedule")
		res(nil)
		return
	case "(*sync.Once).Do":
		a.ops[fnName+" "+where] = true
		t := args[0]
		if st.once[t] {
			res(nil)
			return
		}
		was := st.in
		st.in = t
		var fvs []string
		if mc, ok := com.Args[1].(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				fvs = append(fvs, a.termOf(f, b))
			}
		}
		skip := st.clone()
		a.enter(f, in, a.callees(f.fn, in), nil, fvs, func([]string) {})
		f.st.in = was
		f.st.join(skip)
		f.st.in = was
		f.st.once[t] = true
		for k := range f.st.avail {
			if !f.st.unpub[baseTerm(k)] && !strings.HasPrefix(k, "#") {
				delete(f.st.avail, k)
			}
		}
		res(nil)
		return
	}
	for j, x := range com.Args {
		switch extEffect(name, j) {
		case effWrite:
			a.access(f, in, x, "&("+args[j]+").<"+name+">", true, name)
		case effRead:
			if pointerLike(x.Type()) && !strings.HasPrefix(name, "(*sync.") {
				a.access(f, in, x, "&("+args[j]+").<"+name+">", false, name)
			}
		}
	}
	if bufWriters[name] && !f.st.unpub[baseTerm("&("+args[0]+")[]")] {
		// the array the buffer was made over has room for what is written
		var ls []Loc
		for _, l := range a.locs(f.fn, com.Args[0]) {
			if !isTok(l) {
				for b := range l.o.base.nodes[l.p+"<buf>"] {
					ls = append(ls, b)
				}
			}
		}
		a.accessLocs(f, in, ls, args[0], "&("+args[0]+")[]", true, name+" into its array")
	}
	a.poked(f, in)
	if cs := a.callees(f.fn, in); len(cs) > 0 {
		// callbacks
		a.enter(f, in, cs, nil, nil, func([]string) {})
	}
	// addresses handed out may have been written to
	for j := range com.Args {
		if extEffect(name, j) == effWrite {
			for k := range st.avail {
				if k == args[j] || baseTerm(k) == baseTerm(args[j]) {
					delete(st.avail, k)
				}
			}
		}
	}
	res(nil)
}

// poked records what external code does to the external objects it drives indirectly.
func (a *lockAnalysis) poked(f *lframe, in ssa.CallInstruction) {
	for _, ec := range a.pt.extcall {
		if ec.in == in && ec.name == "poked" && ec.inst.ctx.entry == a.entry {
			a.acc = append(a.acc, Access{entry: a.entry, in: in, fn: f.fn, write: true, locs: []Loc{ec.recv}, ext: "a stream method", locks: map[string]bool{}})
		}
	}
}

// extAccess is a method call on an object whose code is not in the library.
func (a *lockAnalysis) extAccess(f *lframe, in ssa.CallInstruction, v ssa.Value, rt string, method string) {
	if f.st.unpub[rt] {
		return
	}
	a.access(f, in, v, "&("+rt+").<"+method+">", !readonlyMethods[method], method)
	a.poked(f, in)
}

// below reports whether child was reached through parent.
func (a *lockAnalysis) below(child, parent string) bool {
	for i := 0; i < 40 && child != ""; i++ {
		if child == parent {
			return i > 0
		}
		child = a.origin[child]
	}
	return false
}

type effect int

const (
	effNone effect = iota
	effRead
	effWrite
)

// methods that do not change their receiver
var readonlyMethods = set("ReadAt", "Size", "Len", "Name", "Stat", "Error", "Unwrap", "Is", "Mode", "ModTime", "IsDir", "Sys", "Type", "Info", "String",
	"Open", "ReadDir", "ReadFile", "ReadLink", "StatLink", "Lstat", "Sub", "Glob", "Cap", "Bytes", "Available", "FileInfo", "Uint16", "Uint32", "Uint64")

var pureFuncPkgs = set("strings", "strconv", "path", "path/filepath", "fmt", "errors", "math", "math/bits", "time", "cmp", "unicode", "unicode/utf8", "hash/crc32", "io/fs", "bytes", "slices", "maps", "iter")

var bufWriters = set("(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).ReadFrom")

var mutators = map[string][]int{
	"io.Copy": {0, 1}, "io.CopyN": {0, 1}, "io.CopyBuffer": {0, 1, 2}, "io.ReadAll": {0}, "io.ReadFull": {0, 1}, "io.ReadAtLeast": {0, 1}, "io.WriteString": {0},
	"encoding/binary.Read": {0, 2}, "encoding/binary.Write": {0}, "fmt.Fprintf": {0}, "fmt.Fprint": {0}, "fmt.Fprintln": {0}, "fmt.Fscanf": {0}, "fmt.Fscan": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Insert": {0}, "slices.Delete": {0}, "slices.DeleteFunc": {0},
	"slices.Compact": {0}, "slices.CompactFunc": {0}, "slices.Replace": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Strings": {0}, "sort.Ints": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0}, "encoding/binary.Decode": {2}, "encoding/binary.Encode": {0}, "errors.As": {1},
}

// extEffect is what an external function does to the memory its j-th argument points to.
func extEffect(name string, j int) effect {
	if m, ok := mutators[name]; ok {
		for _, k := range m {
			if k == j {
				return effWrite
			}
		}
		return effRead
	}
	if strings.HasPrefix(name, "(") {
		i := strings.LastIndex(name, ").")
		if j > 0 {
			if n := name[i+2:]; (n == "Read" || n == "ReadAt" || strings.HasPrefix(n, "Put")) && j == 1 {
				return effWrite
			}
			return effRead
		}
		if !strings.HasPrefix(name, "(*") || readonlyMethods[name[i+2:]] || strings.HasPrefix(name, "(*sync") {
			return effRead
		}
		return effWrite
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg, fn := name[:i], name[i+1:]
		if pureFuncPkgs[pkg] || strings.HasPrefix(fn, "New") || pkg == "io" {
			return effRead
		}
		if name == "archive/tar.FileInfoHeader" {
			return effRead
		}
	}
	return effWrite
}
