package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where too many states meet that agree on what the rule tracks (the ghosts), they are joined:
// what they disagree on becomes unknown.

var unknownAV = AV{k: avSym, sym: "olds:join"}

func interList(a, b string) string {
	if a == b {
		return a
	}
	var out []string
	for _, x := range strings.Split(a, "|") {
		if x != "" && inList(b, x) {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

func (x *Esp) joinAV(sa, sb *EState, a, b AV) AV {
	if a.key() == b.key() {
		if a.sym != b.sym {
			a.sym = ""
		}
		return a
	}
	isNN := func(v AV) bool { return v.k == avNonNil || v.k == avPtr && strings.HasPrefix(v.cell, "a:") }
	switch {
	case isNN(a) && isNN(b):
		ta, _ := x.wraps(sa, a)
		tb, _ := x.wraps(sb, b)
		r := AV{k: avNonNil, tags: interList(ta, tb)}
		if a.k == avNonNil && b.k == avNonNil {
			r.not = interList(a.not, b.not)
		}
		if a.dyn != nil && b.dyn != nil && a.dyn.String() == b.dyn.String() {
			r.dyn = a.dyn
		}
		return r
	case a.k == avTuple && b.k == avTuple && len(a.el) == len(b.el):
		r := AV{k: avTuple}
		for i := range a.el {
			r.el = append(r.el, x.joinAV(sa, sb, a.el[i], b.el[i]))
		}
		return r
	case a.k == avBits && b.k == avBits:
		r := AV{k: avBits, mask: a.mask & b.mask &^ (a.val ^ b.val)}
		r.val = a.val & r.mask
		if r.mask != 0 {
			return r
		}
	case a.k == avAgg && b.k == avAgg && a.zero == b.zero && len(a.agg) == len(b.agg):
		r := AV{k: avAgg, zero: a.zero, agg: map[string]AV{}}
		for k, v := range a.agg {
			w, ok := b.agg[k]
			if !ok {
				return unknownAV
			}
			r.agg[k] = x.joinAV(sa, sb, v, w)
		}
		return r
	case a.k == avSlice && b.k == avSlice && a.cell == b.cell:
		return AV{k: avSlice, cell: a.cell}
	}
	u := unknownAV
	if a.dyn != nil && b.dyn != nil && a.dyn.String() == b.dyn.String() {
		u.dyn = a.dyn
	}
	return u
}

func (x *Esp) joinEnv(sa, sb *EState, a, b map[ssa.Value]AV) map[ssa.Value]AV {
	r := make(map[ssa.Value]AV, len(a))
	for k, v := range a {
		if w, ok := b[k]; ok {
			r[k] = x.joinAV(sa, sb, v, w)
		} else {
			r[k] = unknownAV
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r[k] = unknownAV
		}
	}
	return r
}

// joinStates returns a state that stands for both; they have the same ghosts.
func (x *Esp) joinStates(a, b *EState) *EState {
	n := &EState{mem: map[string]AV{}, roots: map[string]string{}, facts: map[string]AV{}, ghost: map[string]string{}, trace: a.trace}
	for k, v := range a.ghost {
		n.ghost[k] = v
	}
	n.env = x.joinEnv(a, b, a.env, b.env)
	for i := range a.stack {
		n.stack = append(n.stack, x.joinEnv(a, b, a.stack[i], b.stack[i]))
	}
	for r, v := range a.roots {
		if w, ok := b.roots[r]; ok {
			if v == w {
				n.roots[r] = v
			} else {
				n.roots[r] = "olds"
			}
		}
	}
	for c, v := range a.mem {
		w, ok := b.mem[c]
		if ok {
			n.mem[c] = x.joinAV(a, b, v, w)
		} else if ver, known := n.roots[rootOf(c)]; known && ver == "" {
			n.mem[c] = unknownAV
		}
	}
	for c := range b.mem {
		if _, ok := a.mem[c]; !ok {
			if ver, known := n.roots[rootOf(c)]; known && ver == "" {
				n.mem[c] = unknownAV
			}
		}
	}
	for k, v := range a.facts {
		w, ok := b.facts[k]
		if !ok {
			continue
		}
		j := x.joinAV(a, b, v, w)
		if j.k != avSym {
			n.facts[k] = j
		}
	}
	return n
}

func ghostKey(st *EState) string {
	var ks []string
	for c, a := range st.ghost {
		ks = append(ks, c+"="+a)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func dfKey(df []*edefer) string {
	s := ""
	for _, d := range df {
		s += fmt.Sprintf("d%p", d.in)
		for _, a := range d.args {
			s += a.key() + ","
		}
		s += d.fnv.key()
	}
	return s
}

// resClass is what must stay apart in a result.
func (x *Esp) resClass(st *EState, res AV) string {
	el := []AV{res}
	if res.k == avTuple {
		el = res.el
	}
	s := ""
	for _, e := range el {
		e = x.norm(st, e)
		switch e.k {
		case avBits:
			s += fmt.Sprintf("b%x/%x;", e.val&1, e.mask&1)
		case avPtr, avNonNil:
			t, _ := x.wraps(st, e)
			s += "n" + t + ";"
		default:
			s += fmt.Sprintf("%d;", e.k)
		}
	}
	return s
}

// joinOutcomes reduces the outcomes of a call.
func (x *Esp) joinOutcomes(outs []EOutcome) []EOutcome {
	if x.mergeAt == 0 || len(outs) <= x.mergeAt {
		return outs
	}
	var order []string
	m := map[string]*EOutcome{}
	for _, o := range outs {
		k := ghostKey(o.st) + "\x00" + x.resClass(o.st, o.res)
		if g, ok := m[k]; ok {
			res := x.joinAV(g.st, o.st, g.res, o.res)
			g.st = x.joinStates(g.st, o.st)
			g.res = res
		} else {
			c := o
			m[k] = &c
			order = append(order, k)
		}
	}
	var r []EOutcome
	for _, k := range order {
		r = append(r, *m[k])
	}
	return r
}
