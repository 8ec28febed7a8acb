package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is a call string: the chain of call sites that led to a frame.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

type ctxKey struct {
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
}

// Deferred is a pending deferred call.
type Deferred struct {
	instr *ssa.Defer
	fn    *Term   // callee value (static function, closure, or unknown)
	recv  *Term   // interface receiver of an invoke
	args  []*Term // arguments
}

// Frame is one activation in the abstract call stack.
type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	blk    *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]*Term
	loop   map[*ssa.Phi]*Term
	defers []Deferred
	instr  ssa.Instruction // the instruction of the caller that made the call
	retTo  ssa.Value       // register of the caller that takes the result
	defer_ bool            // called by the caller's RunDefers (or panic)

	unwinding bool // its deferred calls run because of a panic
	recovered bool // a deferred call has recovered
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	if f.loop != nil {
		g.loop = make(map[*ssa.Phi]*Term, len(f.loop))
		for k, v := range f.loop {
			g.loop[k] = v
		}
	}
	g.defers = append([]Deferred(nil), f.defers...)
	return &g
}

// Step is one element of the path to a state, for reports only.
type Step struct {
	prev *Step
	pos  token.Pos
	what string
}

// State is one abstract state: a call stack, a heap, what is known, and the
// automaton of the rule being checked.
type State struct {
	frames    []*Frame
	heap      map[*Term]*Term
	facts     Facts
	A         map[string]*Term // named registers of the rule's automaton
	TS        map[*Term]string // typestates of the rule's automaton
	panicking bool
	path      *Step
	depth     int
}

func (s *State) clone() *State {
	t := &State{panicking: s.panicking, path: s.path, depth: s.depth}
	t.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		t.frames[i] = f.clone()
	}
	t.heap = make(map[*Term]*Term, len(s.heap))
	for k, v := range s.heap {
		t.heap[k] = v
	}
	t.facts = s.facts.clone()
	t.A = make(map[string]*Term, len(s.A))
	for k, v := range s.A {
		t.A[k] = v
	}
	t.TS = make(map[*Term]string, len(s.TS))
	for k, v := range s.TS {
		t.TS[k] = v
	}
	return t
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(pos token.Pos, what string) {
	s.path = &Step{prev: s.path, pos: pos, what: what}
}

// key identifies the state up to what matters for its future.
func (s *State) key() string {
	h := sha256.New()
	w := func(f string, a ...interface{}) { fmt.Fprintf(h, f, a...) }
	for _, f := range s.frames {
		w("F%d.%d.%d.%v%v%v;", f.ctx.id, f.blk.Index, f.pc, f.defer_, f.unwinding, f.recovered)
		type kv struct {
			n  string
			id int
		}
		var kvs []kv
		for v, t := range f.env {
			kvs = append(kvs, kv{v.Name(), t.id})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].n < kvs[j].n })
		for _, x := range kvs {
			w("%s=%d,", x.n, x.id)
		}
		kvs = kvs[:0]
		for v, t := range f.loop {
			kvs = append(kvs, kv{v.Name(), t.id})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].n < kvs[j].n })
		for _, x := range kvs {
			w("%s~%d,", x.n, x.id)
		}
		for _, d := range f.defers {
			w("D%d:", d.instr.Pos())
			if d.fn != nil {
				w("%d", d.fn.id)
			}
			if d.recv != nil {
				w("r%d", d.recv.id)
			}
			for _, a := range d.args {
				w(",%d", a.id)
			}
		}
	}
	var ids []int
	for k := range s.heap {
		ids = append(ids, k.id)
	}
	sort.Ints(ids)
	w("H")
	for _, i := range ids {
		k := T.all[i-1]
		w("%d=%d,", i, s.heap[k].id)
	}
	w("P")
	for _, k := range s.facts.sorted() {
		w("%d=%v,", k.id, s.facts[k])
	}
	w("A")
	var ns []string
	for n := range s.A {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if s.A[n] != nil {
			w("%s=%d,", n, s.A[n].id)
		}
	}
	w("T")
	ids = ids[:0]
	for k := range s.TS {
		ids = append(ids, k.id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		w("%d=%s,", i, s.TS[T.all[i-1]])
	}
	w("%v", s.panicking)
	return string(h.Sum(nil))
}

// rename applies a substitution to the whole state.
func (s *State) rename(m substMap, e *Engine) {
	memo := map[*Term]*Term{}
	s.renameBy(func(t *Term) *Term { return m.apply(t, memo) })
}

// renameBy applies a renaming of terms to the whole state.
func (s *State) renameBy(ren func(t *Term) *Term) {
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = ren(v)
		}
		for k, v := range f.loop {
			f.loop[k] = ren(v)
		}
		for i := range f.defers {
			d := &f.defers[i]
			if d.fn != nil {
				d.fn = ren(d.fn)
			}
			if d.recv != nil {
				d.recv = ren(d.recv)
			}
			as := make([]*Term, len(d.args))
			for j, a := range d.args {
				as[j] = ren(a)
			}
			d.args = as
		}
	}
	nh := make(map[*Term]*Term, len(s.heap))
	for k, v := range s.heap {
		nk := ren(k)
		nv := ren(v)
		if o, dup := nh[nk]; dup && o != nv {
			nv = T.mk("top", "merged", nil)
		}
		nh[nk] = nv
	}
	s.heap = nh
	nf := make(Facts, len(s.facts))
	for k, v := range s.facts {
		n := ren(k)
		if mentionsTop(n) {
			continue
		}
		for n.Op == "not" {
			n, v = n.Args[0], !v
		}
		if n.isBool() {
			continue
		}
		if n.Op == "lt0" && !v {
			n, v = lt0(add(mulc(n.Args[0], -1), intTerm(-1))), true
			if n.isBool() {
				continue
			}
		}
		nf[n] = v
	}
	s.facts = nf
	for k, v := range s.A {
		if v != nil {
			s.A[k] = ren(v)
		}
	}
	nt := make(map[*Term]string, len(s.TS))
	for k, v := range s.TS {
		nk := ren(k)
		if o, dup := nt[nk]; dup && o != v {
			v = mergeTS(o, v)
		}
		nt[nk] = v
	}
	s.TS = nt
}

func mergeTS(a, b string) string {
	set := map[string]bool{}
	for _, x := range append(strings.Split(a, "|"), strings.Split(b, "|")...) {
		set[x] = true
	}
	var r []string
	for x := range set {
		r = append(r, x)
	}
	sort.Strings(r)
	return strings.Join(r, "|")
}

func mentionsTop(t *Term) bool {
	if t.Op == "top" {
		return true
	}
	for _, a := range t.Args {
		if t.Op != "old" && mentionsTop(a) {
			return true
		}
	}
	return false
}

// mentions reports whether the state uses the symbol anywhere.
func (s *State) mentions(sym *Term) bool {
	for _, f := range s.frames {
		for _, v := range f.env {
			if v.hasSym(sym) {
				return true
			}
		}
		for _, v := range f.loop {
			if v.hasSym(sym) {
				return true
			}
		}
		for _, d := range f.defers {
			if d.fn != nil && d.fn.hasSym(sym) || d.recv != nil && d.recv.hasSym(sym) {
				return true
			}
			for _, a := range d.args {
				if a.hasSym(sym) {
					return true
				}
			}
		}
	}
	for k, v := range s.heap {
		if k.hasSym(sym) || v.hasSym(sym) {
			return true
		}
	}
	for k := range s.facts {
		if k.hasSym(sym) {
			return true
		}
	}
	for _, v := range s.A {
		if v != nil && v.hasSym(sym) {
			return true
		}
	}
	for k := range s.TS {
		if k.hasSym(sym) {
			return true
		}
	}
	return false
}

// retire makes room for a new value of the symbol: what the state knew by that
// name becomes its previous value, and what was the previous value is forgotten.
func (s *State) retire(sym *Term, e *Engine) {
	if !s.mentions(sym) {
		old := T.mk("old", "", nil, sym)
		_ = old
		return
	}
	old := T.mk("old", "", nil, sym)
	if old.Typ == nil {
		old.Typ = sym.Typ
	}
	if s.mentions(old) {
		if e.H.Forget != nil {
			e.H.Forget(e, s, old)
		}
		top := T.mk("top", sym.Aux, nil)
		s.rename(substMap{old: top}, e)
		s.dropTop()
	}
	s.rename(substMap{sym: old}, e)
}

// dropTop forgets heap cells and typestates of objects without a name, and
// collapses identical pending calls on them.
func (s *State) dropTop() {
	for k := range s.heap {
		if mentionsTop(k) {
			delete(s.heap, k)
		}
	}
	for k := range s.TS {
		if mentionsTop(k) {
			delete(s.TS, k)
		}
	}
	for _, f := range s.frames {
		var out []Deferred
		for _, d := range f.defers {
			dup := false
			for _, o := range out {
				if o.instr == d.instr && o.fn == d.fn && o.recv == d.recv && sameTerms(o.args, d.args) {
					dup = true
				}
			}
			if !dup {
				out = append(out, d)
			}
		}
		f.defers = out
	}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// gc drops heap cells and facts about objects nothing refers to any more.
func (s *State) gc(e *Engine) {
	live := map[*Term]bool{}
	var addTerm func(t *Term)
	addTerm = func(t *Term) {
		if t == nil {
			return
		}
		for _, x := range t.syms {
			live[x] = true
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			addTerm(v)
		}
		for _, v := range f.loop {
			addTerm(v)
		}
		for _, d := range f.defers {
			addTerm(d.fn)
			addTerm(d.recv)
			for _, a := range d.args {
				addTerm(a)
			}
		}
	}
	for _, v := range s.A {
		addTerm(v)
	}
	for k := range s.TS {
		addTerm(k)
	}
	allLive := func(t *Term) bool {
		for _, x := range t.syms {
			if !live[x] {
				return false
			}
		}
		return true
	}
	// heap cells of live objects keep their values alive
	for ch := true; ch; {
		ch = false
		for k, v := range s.heap {
			if allLive(k) {
				for _, x := range v.syms {
					if !live[x] {
						live[x] = true
						ch = true
					}
				}
			}
		}
	}
	for k := range s.heap {
		if !allLive(k) {
			delete(s.heap, k)
		}
	}
	for k := range s.facts {
		if !allLive(k) || e.H.KeepFact != nil && !e.H.KeepFact(k) {
			delete(s.facts, k)
		}
	}
}
