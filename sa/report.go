package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obligation is one instance of a rule at one construct of the analysed source.
type Obligation struct {
	Rule      string   // rule name
	Construct string   // function, call site, type, ... (stable name, no line number)
	Where     string   // file:line, for the reader
	OK        bool     // discharged
	Detail    string   // why it is violated
	Path      []string // how the violation is reached
}

// Result collects what a check looked at.
type Result struct {
	ID     string
	Obls   []Obligation
	Floor  map[string]int // least number of instances of a rule
	Units  map[string]int // what was analysed
	Notes  []string
	Assume []string
	seen   map[string]int
}

func newResult(id string) *Result {
	return &Result{ID: id, Floor: map[string]int{}, Units: map[string]int{}, seen: map[string]int{}}
}

// add records an instance. Instances of the same rule and construct are merged; a violated one wins.
func (r *Result) add(o Obligation) {
	k := o.Rule + "\x00" + o.Construct
	if i, ok := r.seen[k]; ok {
		if !o.OK && r.Obls[i].OK {
			r.Obls[i] = o
		}
		return
	}
	r.seen[k] = len(r.Obls)
	r.Obls = append(r.Obls, o)
}

func (r *Result) ok(rule, construct, where string) {
	r.add(Obligation{Rule: rule, Construct: construct, Where: where, OK: true})
}

func (r *Result) bad(rule, construct, where, detail string, path ...string) {
	r.add(Obligation{Rule: rule, Construct: construct, Where: where, Detail: detail, Path: path})
}

// check records the verdict cond for an instance.
func (r *Result) check(cond bool, rule, construct, where, detail string) {
	if cond {
		r.ok(rule, construct, where)
	} else {
		r.bad(rule, construct, where, detail)
	}
}

func (r *Result) floor(rule string, n int) {
	if n > r.Floor[rule] {
		r.Floor[rule] = n
	}
}

func (p *Program) at(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if rel, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// Check is a registered decision procedure.
type Check struct {
	ID    string
	Level string
	Rule  string // one paragraph: what is decided
	Run   func(env *Env, r *Result)
}

// Env is what checks share.
type Env struct {
	progs     map[string]*Program
	thorough  bool
	undecided []string
}

var gooses = []string{"linux", "windows"}

func (e *Env) prog(goos string) *Program {
	if p, ok := e.progs[goos]; ok {
		return p
	}
	p, err := loadProgram(repoDir, goos)
	if err != nil {
		panic(fmt.Sprintf("cannot load the repository for %s: %v", goos, err))
	}
	e.progs[goos] = p
	return p
}

// undecided is what an analysis panics with that gives up.
type undecided string

var started = time.Now()

// patience gives up when an analysis takes too long or too much memory.
func patience(steps int) {
	if steps&0xfff != 0 {
		return
	}
	if time.Since(started) > 10*time.Minute {
		panic(undecided("it takes too long"))
	}
	if steps&0xffff == 0 {
		var m runtime.MemStats
		if runtime.ReadMemStats(&m); m.HeapAlloc > 20<<30 {
			panic(undecided("it takes too much memory"))
		}
	}
}

// each runs an analysis for every platform; one that gives up leaves what it found so far.
func (e *Env) each(f func(p *Program)) {
	for _, g := range gooses {
		p := e.prog(g)
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.gaveUp(g, r)
				}
			}()
			f(p)
		}()
	}
}

// gaveUp notes that the analysis could not follow the code.
func (e *Env) gaveUp(what string, r any) {
	switch r.(type) {
	case undecided, runtime.Error:
	default:
		panic(r)
	}
	e.undecided = append(e.undecided, fmt.Sprintf("%s: %v", what, r))
	if os.Getenv("SADEBUG") != "" {
		debug.PrintStack()
	}
}

var (
	repoDir  = "/repo"
	verifDir = "/verif"
	checks   = map[string]*Check{}
)

func register(c *Check) { checks[c.ID] = c }

type known struct {
	rule, construct string
	text            string
}

func knownFindings(id string) []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> rule=<rule> construct=<construct> :: <text>
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		head, text, _ := strings.Cut(l, " :: ")
		k := known{text: text}
		if i := strings.Index(head, "rule="); i >= 0 {
			rest := head[i+5:]
			rule, c, _ := strings.Cut(rest, " construct=")
			k.rule, k.construct = rule, strings.TrimSpace(c)
		}
		out = append(out, k)
	}
	return out
}

func runCheck(id string) (code int) {
	start := time.Now()
	c := checks[id]
	if c == nil {
		fmt.Printf("unknown check %s\n", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := newResult(id)
	env := &Env{progs: map[string]*Program{}, thorough: tier == "thorough"}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(undecided); ok {
					env.gaveUp("analysis", e)
					return
				}
				if _, ok := e.(runtime.Error); ok {
					env.gaveUp("analysis", e)
					return
				}
				r.bad("analysis", "analyser", "", fmt.Sprintf("the analysis could not decide the property: %v", e))
				if os.Getenv("SADEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		c.Run(env, r)
	}()
	count := map[string]int{}
	for _, o := range r.Obls {
		count[o.Rule]++
	}
	var rules []string
	for k := range r.Floor {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, u := range env.undecided {
		fmt.Printf("UNDECIDED: %s\n", u)
		r.Notes = append(r.Notes, "undecided, the analysis gave up: "+u)
		r.Units["analyses that gave up"]++
	}
	for _, k := range rules {
		if count[k] < r.Floor[k] && len(env.undecided) == 0 {
			r.bad("instances", k, "", fmt.Sprintf("rule %q matched %d constructs, at least %d were expected: the code it speaks about is gone or was not recognised", k, count[k], r.Floor[k]))
		}
	}
	kf := knownFindings(id)
	var viol []Obligation
	discharged := 0
	for _, o := range r.Obls {
		if o.OK {
			discharged++
			continue
		}
		listed := false
		for _, k := range kf {
			if k.rule == o.Rule && k.construct == o.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s] %s\n", id, o.Rule, o.Construct, o.Where, k.text)
				listed = true
			}
		}
		if !listed {
			viol = append(viol, o)
		}
	}
	// report
	fmt.Printf("check %s (%s): %d obligations, %d discharged, %.1fs\n", id, tier, len(r.Obls), discharged, time.Since(start).Seconds())
	var uk []string
	for k := range r.Units {
		uk = append(uk, k)
	}
	sort.Strings(uk)
	for _, k := range uk {
		fmt.Printf("  analysed %s: %d\n", k, r.Units[k])
	}
	var ck []string
	for k := range count {
		ck = append(ck, k)
	}
	sort.Strings(ck)
	for _, k := range ck {
		fmt.Printf("  rule %s: %d instances\n", k, count[k])
	}
	var samples []string
	for _, o := range r.Obls {
		samples = append(samples, fmt.Sprintf("%s @ %s (%s): %v", o.Rule, o.Construct, o.Where, map[bool]string{true: "holds", false: "violated"}[o.OK]))
	}
	if len(samples) > 60 {
		samples = samples[:60]
	}
	explain := c.Rule
	cov := map[string]any{
		"explanation": explain,
		"analysed":    r.Units,
		"instances":   count,
		"obligations": len(r.Obls),
		"discharged":  discharged,
		"samples":     samples,
		"notes":       r.Notes,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	if len(viol) > 0 {
		ev["violations"] = len(viol)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644)
	if len(viol) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&sb, "property %s violated\n  rule: %s\n  construct: %s\n  at: %s\n  %s\n", id, o.Rule, o.Construct, o.Where, o.Detail)
		for _, p := range o.Path {
			fmt.Fprintf(&sb, "    %s\n", p)
		}
		sb.WriteString("\n")
	}
	rep := filepath.Join(verifDir, "evidence", id+".violation.txt")
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}
