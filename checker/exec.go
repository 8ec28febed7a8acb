package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Out is one possible outcome of a modelled call.
type Out struct {
	Res    *Term
	Assume []Lit
	Do     func(*State)
	Panics bool
}

// Lit is an atom with its truth value.
type Lit struct {
	T   *Term
	Val bool
}

// CallEv is a call about to happen in an abstract state.
type CallEv struct {
	Name  string        // resolved callee: "os.Rename", "(*os.File).Close", "(api.Output).Send", "dynamic"
	Fn    *ssa.Function // nil for unresolved callees
	FnT   *Term         // the called value, for dynamic calls
	Args  []*Term       // receiver first
	Instr ssa.Instruction
	Pos   token.Pos
	Frame *Frame
	Defer bool
	Sig   *types.Signature
}

func (c *CallEv) Arg(i int) *Term {
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// Hooks are what a rule observes and decides; all optional.
type Hooks struct {
	// Call is told of every call. It may model it by returning outcomes.
	Call func(e *Engine, st *State, c *CallEv) ([]Out, bool)
	// After is told the result of calls that were not inlined.
	After  func(e *Engine, st *State, c *CallEv, res *Term)
	Store  func(e *Engine, st *State, addr, val *Term, in ssa.Instruction)
	Load   func(e *Engine, st *State, addr *Term, in ssa.Instruction)
	MapUpd func(e *Engine, st *State, m, k, v *Term, in ssa.Instruction)
	MapGet func(e *Engine, st *State, m, k *Term, in ssa.Instruction)
	Next   func(e *Engine, st *State, coll, k, v, ok *Term, in ssa.Instruction)
	Chan   func(e *Engine, st *State, op string, ch, val *Term, in ssa.Instruction) // send, recv, close, select-send, select-recv
	Go     func(e *Engine, st *State, c *CallEv)
	Return func(e *Engine, st *State, res []*Term, in ssa.Instruction) // of the entry function
	Panic  func(e *Engine, st *State, val *Term, in ssa.Instruction)   // explicit panic
	Exit   func(e *Engine, st *State, f *Frame)                        // a frame (of any function) is left normally
	Back   func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock)  // a back edge is taken
	Forget func(e *Engine, st *State, t *Term)                         // the state loses track of t
	// Append may give the result of an append.
	Append func(e *Engine, st *State, c *CallEv) *Term
	// Elem may give the content of an element never stored.
	Elem func(e *Engine, st *State, addr *Term) *Term
	// Devirt lists the concrete types an interface receiver may have (nil: opaque).
	Devirt   func(e *Engine, st *State, recv *Term, iface types.Type, m *types.Func) []types.Type
	KeepFact func(t *Term) bool
	// NoInline keeps a repository function opaque.
	NoInline func(fn *ssa.Function) bool
	// Split: case split a lookup in this constant table over its keys.
	Split func(g *ssa.Global) bool
	// Bounds is told of every index and slice bound: at must be in [0, n), or
	// [0, n] for the bounds of a slice.
	Bounds func(e *Engine, st *State, at, n *Term, incl bool, in ssa.Instruction)
}

// Engine is the abstract interpreter: it explores all abstract states
// reachable from an entry, to a fixpoint.
type Engine struct {
	P         *Prog
	H         Hooks
	Base      *Base
	work      []*State
	seen      map[string]bool
	ctxs      map[ctxKey]*Ctx
	nctx      int
	live      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	States    int // abstract states explored
	Blocks    int // block visits
	Undecided []string
	MaxStates int
	Stop      func(states int) string // ends the exploration: "stop", or why it stays undecided
	MaxDepth  int
	Recs      map[*Term]*Rec
	FnSeen    map[*ssa.Function]bool
	phiConst  map[string]map[*Term]bool
	dead      bool // the current state is infeasible
	scope     *Ctx // calling context of entries
	Trace     bool
	Unroll    int64 // loop counters up to this stay exact
	Havoc     bool  // objects lose their mutable fields when their lock is taken
}

// Rec records how a loop variable evolves.
type Rec struct {
	Init map[*Term]bool
	Step map[*Term]bool // terms over the variable itself
}

func newEngine(p *Prog, b *Base) *Engine {
	return &Engine{P: p, Base: b, seen: map[string]bool{}, ctxs: map[ctxKey]*Ctx{},
		live:      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		MaxStates: 400000, MaxDepth: 24, Recs: map[*Term]*Rec{}, FnSeen: map[*ssa.Function]bool{},
		phiConst: map[string]map[*Term]bool{}, Havoc: true}
}

func (e *Engine) undecided(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, u := range e.Undecided {
		if u == s {
			return
		}
	}
	e.Undecided = append(e.Undecided, s)
}

func (e *Engine) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	k := ctxKey{parent, site, fn}
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	e.nctx++
	c := &Ctx{id: e.nctx, parent: parent, site: site, fn: fn}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	e.ctxs[k] = c
	return c
}

// siteName names the symbol of an instruction in a calling context.
func (e *Engine) siteName(f *Frame, in ssa.Instruction, what string) string {
	var sb strings.Builder
	sb.WriteString(what)
	sb.WriteString("@")
	pos := in.Pos()
	if !pos.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			pos = v.Pos()
		}
	}
	sb.WriteString(e.P.Pos(pos))
	n := 0
	for i, x := range in.Block().Instrs {
		if x == in {
			n = i
		}
	}
	fmt.Fprintf(&sb, "/%d.%d", in.Block().Index, n)
	fmt.Fprintf(&sb, "^%d", f.ctx.id)
	return sb.String()
}

// fresh makes the symbol for a new value produced at an instruction.
func (e *Engine) fresh(st *State, f *Frame, in ssa.Instruction, what string, typ types.Type) *Term {
	t := T.mkFull("sym", e.siteName(f, in, what), typ, nil, nil, 0, nil)
	st.retire(t, e)
	return t
}

func (e *Engine) freshAlloc(st *State, f *Frame, in ssa.Instruction, what string, typ types.Type) *Term {
	t := T.mkFull("alloc", e.siteName(f, in, what), typ, nil, nil, 0, nil)
	if t.Typ == nil {
		t.Typ = typ
	}
	st.retire(t, e)
	return t
}

func paramTerm(name string, typ types.Type) *Term {
	t := T.mk("param", name, typ)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func fnTerm(fn *ssa.Function) *Term {
	return T.mkFull("func", fn.String(), fn.Type(), fn, nil, 0, nil)
}

func globalTerm(g *ssa.Global) *Term {
	return T.mkFull("global", g.String(), g.Type(), g, nil, 0, nil)
}

// Entry starts an analysis at fn with the given arguments (nil: parameters).
func (e *Engine) Entry(fn *ssa.Function, args []*Term, init func(st *State, args []*Term)) {
	if fn == nil || fn.Blocks == nil {
		e.undecided("entry point without a body: %v", fn)
		return
	}
	c := e.ctx(e.scope, nil, fn)
	f := &Frame{fn: fn, ctx: c, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, loop: map[*ssa.Phi]*Term{}}
	st := &State{frames: []*Frame{f}, heap: map[*Term]*Term{}, facts: Facts{}, A: map[string]*Term{}, TS: map[*Term]string{}}
	if e.Base != nil {
		for k, v := range e.Base.heap {
			st.heap[k] = v
		}
	}
	var as []*Term
	for i, p := range fn.Params {
		t := paramTerm(p.Name(), p.Type())
		if i < len(args) && args[i] != nil {
			t = args[i]
		}
		as = append(as, t)
		f.env[p] = t
	}
	for i, p := range fn.FreeVars {
		t := T.mk("param", "free."+p.Name(), p.Type())
		if j := len(fn.Params) + i; j < len(args) && args[j] != nil {
			t = args[j]
		}
		f.env[p] = t
	}
	if init != nil {
		init(st, as)
	}
	e.FnSeen[fn] = true
	e.work = append(e.work, st)
	e.run()
}

// seqStep is one call of a sequence: fn and its arguments, given the state
// before it, and what is told of its results.
type seqStep struct {
	call func(st *State) (*ssa.Function, []*Term)
	ret  func(st *State, res []*Term, in ssa.Instruction)
}

// Sequence explores calls one after the other, each from every state the
// one before may end in.
func (e *Engine) Sequence(first *State, steps ...seqStep) {
	states := []*State{first}
	for _, s := range steps {
		var after []*State
		e.nctx++
		e.scope = &Ctx{id: e.nctx}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			n := len(e.Undecided)
			s.ret(st, res, in)
			if !e.dead && st.A["stop"] == nil && n == len(e.Undecided) {
				after = append(after, st.clone())
			}
		}
		for _, b := range states {
			fn, args := s.call(b)
			if fn == nil {
				continue
			}
			e.scope.fn = fn
			e.Entry(fn, args, func(st *State, _ []*Term) {
				c := b.clone()
				st.heap, st.facts, st.A, st.TS, st.path, st.depth = c.heap, c.facts, c.A, c.TS, c.path, c.depth
			})
		}
		states = after
	}
	e.scope = nil
}

func emptyState() *State {
	return &State{heap: map[*Term]*Term{}, facts: Facts{}, A: map[string]*Term{}, TS: map[*Term]string{}}
}

func (e *Engine) run() {
	for len(e.work) > 0 {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.States++
		if debug && e.States%1000 == 0 && e.States > 1000 {
			println(e.States, st.top().fn.String(), st.top().blk.Index)
			dumpState(st)
		}
		if e.Stop != nil && e.States%64 == 0 {
			switch why := e.Stop(e.States); why {
			case "":
			case "stop":
				e.work = nil
				return
			default:
				e.undecided("%s in %s", why, st.frames[0].fn)
				e.work = nil
				return
			}
		}
		if e.States > e.MaxStates {
			e.undecided("state limit of %d exceeded in %s", e.MaxStates, st.frames[0].fn)
			e.work = nil
			return
		}
		e.runState(st)
	}
}

func (e *Engine) push(st *State) { e.work = append(e.work, st) }

// runState executes until the state ends, forks or reaches a known state.
func (e *Engine) runState(st *State) {
	for {
		if len(st.frames) == 0 {
			return
		}
		f := st.top()
		if st.panicking || f.unwinding {
			if !e.unwind(st) {
				return
			}
			continue
		}
		if f.recovered && len(f.defers) == 0 {
			f.recovered = false
			if f.fn.Recover == nil {
				var rs []*Term
				for i := 0; i < f.fn.Signature.Results().Len(); i++ {
					rs = append(rs, zeroTerm(f.fn.Signature.Results().At(i).Type()))
				}
				if !e.ret(st, f, rs, f.blk.Instrs[len(f.blk.Instrs)-1]) {
					return
				}
				continue
			}
			f.blk, f.pc = f.fn.Recover, 0
		} else if f.recovered {
			if !e.runDefer(st, f) {
				return
			}
			continue
		}
		if f.pc >= len(f.blk.Instrs) {
			return
		}
		in := f.blk.Instrs[f.pc]
		e.dead = false
		cont := e.step(st, f, in)
		if !cont || e.dead {
			return
		}
	}
}

// enter moves a frame to a block, binding phis, pruning and merging.
func (e *Engine) enter(st *State, f *Frame, to *ssa.BasicBlock) bool {
	from := f.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	back := to.Dominates(from)
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	vals := make([]*Term, len(phis))
	for i, p := range phis {
		vals[i] = e.val(st, f, p.Edges[pi])
	}
	head := len(phis) > 0 && isLoopHead(to)
	if back && e.H.Back != nil {
		e.H.Back(e, st, f, to)
	}
	if back {
		// congruent phis share a widened name
		type wd struct {
			inc  *Term
			name *Term
		}
		var ws []wd
		heads := make([]*Term, len(phis))
		from := map[int]*Term{} // what is left of a slice: the slice it is left of
		for i, p := range phis {
			inc, cur := vals[i], f.loop[p]
			heads[i] = cur
			if cur == nil || inc == cur {
				continue
			}
			if inc.Op == "slice" && inc.Args[1] != nilTerm && inc.Args[2] == nilTerm && e.Unroll == 0 {
				clo := intTerm(0)
				if cur.Op == "slice" && cur.Args[0] == inc.Args[0] && cur.Args[2] == nilTerm && cur.Args[1] != nilTerm {
					clo = cur.Args[1]
				}
				if cur == inc.Args[0] || clo != intTerm(0) {
					// only the start moves
					name := T.mkFull("sym", e.siteName(f, p, "loop:start of "+p.Comment), types.Typ[types.Int], nil, nil, 0, nil)
					ws = append(ws, wd{inc.Args[1], name})
					from[i], heads[i], vals[i] = inc.Args[0], clo, name
					continue
				}
			}
			if !e.needWiden(st, p, p.Edges[pi], inc, cur, f) {
				continue
			}
			var name *Term
			for _, w := range ws {
				if w.inc == inc {
					name = w.name
				}
			}
			if name == nil {
				name = T.mkFull("sym", e.siteName(f, p, "loop:"+p.Comment), p.Type(), nil, nil, 0, nil)
				ws = append(ws, wd{inc, name})
				// remember the recurrence
				r := e.Recs[name]
				if r == nil {
					r = &Rec{Init: map[*Term]bool{}, Step: map[*Term]bool{}}
					e.Recs[name] = r
				}
				if cur != name {
					r.Init[cur] = true
				}
				if inc.contains(cur) {
					r.Step[substMap{cur: name}.apply(inc, map[*Term]*Term{})] = true
				} else {
					r.Init[inc] = true
				}
			}
			vals[i] = name
		}
		if len(ws) > 0 {
			// bounds that survive the widening
			type bd struct {
				name   *Term
				lo, hi int64
			}
			var bds []bd
			shift := substMap{} // exact: the variable now is what it was plus a constant
			for _, w := range ws {
				if !isInteger(w.name.Typ) {
					continue
				}
				lo, hi := st.facts.bounds(w.inc)
				cur := headVal(heads, vals, w.name)
				if cur == w.name {
					cl, ch := st.facts.bounds(cur)
					if cl < lo {
						lo = cl
					}
					if ch > hi {
						hi = ch
					}
				}
				if d := sub(w.inc, cur); d.isInt() {
					if d.C > 0 {
						hi = inf
					}
					if d.C < 0 {
						lo = -inf
					}
					if cur == w.name {
						shift[w.name] = sub(w.name, d)
					}
				} else {
					hi = inf
					if lo < 0 {
						lo = -inf
					}
				}
				bds = append(bds, bd{w.name, landmarkLo(lo), landmarkHi(hi)})
			}
			for _, w := range ws {
				// values of earlier iterations
				if st.mentions(w.name) {
					old := T.mk("old", "", nil, w.name)
					if old.Typ == nil {
						old.Typ = w.name.Typ
					}
					if st.mentions(old) {
						if e.H.Forget != nil {
							e.H.Forget(e, st, old)
						}
						gone := substMap{old: T.mk("top", w.name.Aux, nil)}
						st.rename(gone, e)
						for i := range vals {
							vals[i] = gone.apply(vals[i], map[*Term]*Term{})
						}
						for i := range ws {
							ws[i].inc = gone.apply(ws[i].inc, map[*Term]*Term{})
						}
						st.dropTop()
					}
				}
			}
			m1 := substMap{}
			for _, w := range ws {
				if w.inc.isConst() {
					continue
				}
				m1[w.inc] = w.name
			}
			for _, w := range ws {
				if _, ok := m1[w.name]; !ok {
					old := T.mk("old", "", nil, w.name)
					m1[w.name] = old
				}
			}
			// constants: only the automaton follows the variable
			var consts []wd
			for _, w := range ws {
				if w.inc.isConst() {
					consts = append(consts, w)
				}
			}
			// facts and the automaton follow affine variables exactly
			m2 := substMap{}
			for k, v := range m1 {
				m2[k] = v
			}
			for k, v := range shift {
				m2[k] = v
			}
			nf := shiftFacts(st.facts, m2, shift)
			na := map[string]*Term{}
			memo2 := map[*Term]*Term{}
			for k, v := range st.A {
				if v != nil {
					x := m2.apply(v, memo2)
					if farFrom(x, shift) {
						x = m1.apply(v, map[*Term]*Term{})
					}
					na[k] = x
				}
			}
			st.facts = Facts{}
			memo1 := map[*Term]*Term{}
			follow := func(t *Term) *Term {
				x := m2.apply(t, memo2)
				if farFrom(x, shift) {
					return m1.apply(t, memo1)
				}
				return x
			}
			st.renameBy(follow)
			st.facts = nf
			st.A = na
			for _, w := range consts {
				for k, v := range st.A {
					if strings.HasPrefix(k, "=") || v == nil {
						continue
					}
					if v == w.inc {
						st.A[k] = w.name
					} else if v.isInt() && w.inc.isInt() && v.C-w.inc.C >= -2 && v.C-w.inc.C <= 2 {
						// exact: the variable has this value now
						st.A[k] = add(w.name, intTerm(v.C-w.inc.C))
					}
				}
			}
			for _, b := range bds {
				if b.lo > -inf {
					st.facts.assume(lt0(sub(intTerm(b.lo), add(b.name, intTerm(1)))), true)
				}
				if b.hi < inf {
					st.facts.assume(lt0(sub(b.name, intTerm(b.hi+1))), true)
				}
			}
			// values computed before the renaming
			for i := range vals {
				isW := false
				for _, w := range ws {
					if vals[i] == w.name {
						isW = true
					}
				}
				if !isW {
					vals[i] = follow(vals[i])
				} else if x := from[i]; x != nil {
					vals[i] = sliceTerm(follow(x), vals[i], nilTerm)
				}
			}
		}
	}
	if back {
		e.widenCells(st, f, to)
	}
	f.blk = to
	f.pc = len(phis)
	for i, p := range phis {
		f.env[p] = vals[i]
		if head {
			f.loop[p] = vals[i]
		}
	}
	// prune
	lv := e.liveIn(f.fn, to)
	for v := range f.env {
		if !lv[v] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == to {
				continue
			}
			delete(f.env, v)
		}
	}
	for p := range f.loop {
		if !p.Block().Dominates(to) || !reaches(to, p.Block()) {
			delete(f.loop, p)
		}
	}
	st.gc(e)
	e.Blocks++
	if e.Blocks > 200*(e.States+1000) {
		e.undecided("no fixpoint in %s", f.fn)
		e.work = nil
		return false
	}
	if len(to.Preds) > 1 || len(to.Preds) == 1 && back {
		k := st.key()
		if e.seen[k] {
			return false
		}
		e.seen[k] = true
	}
	return true
}

// widenCells: counters kept in memory lose their exact value once they have
// taken several in the same loop.
func (e *Engine) widenCells(st *State, f *Frame, head *ssa.BasicBlock) {
	var ks []*Term
	for k, v := range st.heap {
		if (k.Op == "faddr" || k.Op == "alloc" || k.Op == "global") && (v.isInt() || v.Op == "lin" || v.Op == "append" || v.Op == "appendall" || v.Op == "list") {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		key := fmt.Sprintf("cell %d/%s/%d/%d", f.ctx.id, f.fn, head.Index, k.id)
		m := e.phiConst[key]
		if m == nil {
			m = map[*Term]bool{}
			e.phiConst[key] = m
		}
		m[st.heap[k]] = true
		if len(m) <= 4 {
			continue
		}
		t := T.mkFull("sym", e.siteName(f, head.Instrs[0], "cell"), st.heap[k].Typ, nil, nil, int64(k.id), nil)
		st.retire(t, e)
		st.heap[k] = t
	}
}

// shiftFacts rewrites the facts for the next iteration of affine variables,
// weakening what would otherwise keep growing.
func shiftFacts(f Facts, m, shift substMap) Facts {
	nf := Facts{}
	memo := map[*Term]*Term{}
	for k, v := range f {
		n := m.apply(k, memo)
		if mentionsTop(n) {
			continue
		}
		for n.Op == "not" {
			n, v = n.Args[0], !v
		}
		if n.isBool() {
			continue
		}
		moved := false
		for x := range shift {
			if n.hasSym(x) {
				moved = true
			}
		}
		if moved {
			switch n.Op {
			case "lt0":
				l := toLin(n.Args[0])
				vars := 0
				for range l.k {
					vars++
				}
				if vars == 1 || l.c < -2 {
					continue // bounds of the variable itself are kept apart
				}
				far := false
				for a := range l.k {
					far = far || farFrom(a, shift)
				}
				if far {
					continue
				}
				if l.c > 2 {
					l.c = 2
				}
				n = lt0(l.term())
			case "eq":
				if farFrom(n.Args[0], shift) || farFrom(n.Args[1], shift) {
					continue
				}
			default:
				if farFrom(n, shift) {
					continue
				}
			}
		}
		nf.assume(n, v)
	}
	return nf
}

// farFrom: t mentions a shifted variable at a distance beyond the landmarks.
func farFrom(t *Term, shift substMap) bool {
	if t.Op == "lin" {
		for _, a := range t.Args {
			if _, ok := shift[a]; ok && (t.C > 2 || t.C < -2) {
				return true
			}
		}
	}
	for _, a := range t.Args {
		if t.Op != "old" && farFrom(a, shift) {
			return true
		}
	}
	return false
}

func headVal(heads, vals []*Term, name *Term) *Term {
	for i := range vals {
		if vals[i] == name {
			return heads[i]
		}
	}
	return name
}

func landmarkLo(v int64) int64 {
	switch {
	case v >= 1:
		return 1
	case v >= 0:
		return 0
	case v >= -1:
		return -1
	}
	return -inf
}

func landmarkHi(v int64) int64 {
	switch {
	case v <= -1:
		return -1
	case v <= 0:
		return 0
	case v <= 1:
		return 1
	}
	return inf
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

var reachMemo = map[[2]*ssa.BasicBlock]bool{}

func reaches(a, b *ssa.BasicBlock) bool {
	k := [2]*ssa.BasicBlock{a, b}
	if v, ok := reachMemo[k]; ok {
		return v
	}
	seen := map[*ssa.BasicBlock]bool{}
	q := []*ssa.BasicBlock{a}
	r := false
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == b {
			r = true
			break
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		q = append(q, x.Succs...)
	}
	reachMemo[k] = r
	return r
}

// needWiden decides whether the loop variable must lose its exact value.
func (e *Engine) needWiden(st *State, p *ssa.Phi, edge ssa.Value, inc, cur *Term, f *Frame) bool {
	if inc.contains(cur) && !cur.isConst() {
		return true
	}
	if inc.isInt() {
		if _, ok := edge.(*ssa.Const); ok {
			return false
		}
		if cur.isInt() && inc.C <= e.Unroll && inc.C > 0-e.Unroll {
			return false
		}
		if _, ok := edge.(*ssa.BinOp); ok {
			return !(cur.isInt() && e.fixedLoop(st, f, p, inc))
		}
		k := fmt.Sprintf("%d/%s/%s", f.ctx.id, f.fn, p.Name())
		m := e.phiConst[k]
		if m == nil {
			m = map[*Term]bool{}
			e.phiConst[k] = m
		}
		m[inc] = true
		return len(m) > 3
	}
	if inc.isStr() {
		if _, ok := edge.(*ssa.Const); ok {
			return false
		}
		return cur.isStr()
	}
	if inc.isConst() {
		return false
	}
	if cur.isConst() && isInteger(p.Type()) {
		// i = 0; i = f(i) with f already folded
		if _, ok := edge.(*ssa.BinOp); ok {
			return true
		}
	}
	if inc.Op == "append" && isAccum(edge, p, map[ssa.Value]bool{}) {
		return true
	}
	if isInteger(p.Type()) && (!cur.isConst() || inc.find(isLoopSym) != nil) {
		// kept in some iterations, replaced in others
		for i, x := range p.Edges {
			if p.Block().Dominates(p.Block().Preds[i]) && isAccum(x, p, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return inc.size > 40
}

// fixedLoop: the counter runs up to a small constant, as over a fixed table.
func (e *Engine) fixedLoop(st *State, f *Frame, p *ssa.Phi, inc *Term) bool {
	b := p.Block()
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || inc.C < -1 || inc.C > 8 {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.LEQ || cmp.Block() != b {
		return false
	}
	x := cmp.X
	if s, ok := x.(*ssa.BinOp); ok && s.Block() == b && s.Op == token.ADD && s.X == p {
		x = p
	}
	if x != p {
		return false
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && in.Block() == b {
		return false // may change
	}
	if _, ok := cmp.Y.(*ssa.Const); !ok && f.env[cmp.Y] == nil {
		return false
	}
	n := e.val(st, f, cmp.Y)
	return n.isInt() && n.C <= 8
}

func isLoopSym(t *Term) bool { return t.Op == "sym" && strings.HasPrefix(t.Aux, "loop:") }

// isAccum: the edge value is computed from the phi itself.
func isAccum(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == p {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && isAccum(*o, p, seen) {
			return true
		}
	}
	return false
}

// ---- liveness of registers

func (e *Engine) liveIn(fn *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	m, ok := e.live[fn]
	if !ok {
		m = computeLive(fn)
		e.live[fn] = m
	}
	return m[b]
}

func computeLive(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	blocks := fn.Blocks
	if fn.Recover != nil {
		found := false
		for _, b := range blocks {
			if b == fn.Recover {
				found = true
			}
		}
		if !found {
			blocks = append(append([]*ssa.BasicBlock(nil), blocks...), fn.Recover)
		}
	}
	for _, b := range blocks {
		in[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return true
	}
	// recover block needs the named results
	for ch := true; ch; {
		ch = false
		for i := len(blocks) - 1; i >= 0; i-- {
			b := blocks[i]
			lv := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					lv[v] = true
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(lv, p)
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for j, pr := range s.Preds {
						if pr == b && tracked(p.Edges[j]) {
							lv[p.Edges[j]] = true
						}
					}
				}
			}
			if fn.Recover != nil && b != fn.Recover {
				for v := range in[fn.Recover] {
					lv[v] = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(lv, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, o := range ins.Operands(nil) {
					if *o != nil && tracked(*o) {
						lv[*o] = true
					}
				}
			}
			// phis of b itself are bound on entry
			for _, ins := range b.Instrs {
				if p, ok := ins.(*ssa.Phi); ok {
					lv[p] = true
				}
			}
			if len(lv) != len(in[b]) {
				ch = true
				in[b] = lv
			} else {
				for v := range lv {
					if !in[b][v] {
						ch = true
						in[b] = lv
						break
					}
				}
			}
		}
	}
	return in
}

// ---- values

func (e *Engine) val(st *State, f *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroTerm(x.Type())
		}
		return constTerm(x.Value, x.Type())
	case *ssa.Function:
		return fnTerm(x)
	case *ssa.Global:
		return globalTerm(x)
	case *ssa.Builtin:
		return T.mk("builtin", x.Name(), nil)
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	// a register that is not bound: cannot happen in a well formed program
	e.undecided("unbound register %s in %s", v.Name(), f.fn)
	return T.mk("unbound", v.Name(), v.Type())
}

func (e *Engine) set(f *Frame, v ssa.Value, t *Term) { f.env[v] = t }

// load reads an abstract memory cell.
func (e *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.heap[addr]; ok {
		return v
	}
	// part of a struct stored as a whole
	if addr.Op == "faddr" {
		if w := e.loadWhole(st, addr.Args[0]); w != nil {
			return fieldOf(w, int(addr.C), fieldVar(addr))
		}
	}
	// a struct some of whose fields are known
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok {
			known := false
			for k := range st.heap {
				if k.Op == "faddr" && k.Args[0] == addr {
					known = true
				}
			}
			if known || freshRoot(st, addr) {
				as := make([]*Term, s.NumFields())
				for i := range as {
					as[i] = e.load(st, faddr(addr, i, s.Field(i)), s.Field(i).Type())
				}
				return T.mk("mk", typKey(typ), typ, as...)
			}
		}
	}
	if freshRoot(st, addr) && typ != nil {
		return zeroTerm(typ)
	}
	if addr.Op == "iaddr" {
		if l, i := addr.Args[0], addr.Args[1]; l.Op == "list" && i.isInt() && i.C >= 0 && i.C < int64(len(l.Args)) {
			return l.Args[i.C]
		}
		if e.H.Elem != nil {
			if v := e.H.Elem(e, st, addr); v != nil {
				return v
			}
		}
	}
	var t *Term
	if mk, ok := st.heap[markOf(root(addr))]; ok && mk != trueTerm {
		t = T.mk("ld", "", typ, addr, mk)
	} else {
		t = T.mk("ld", "", typ, addr)
	}
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func (e *Engine) loadWhole(st *State, addr *Term) *Term {
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if addr.Op == "faddr" {
		if w := e.loadWhole(st, addr.Args[0]); w != nil {
			return fieldOf(w, int(addr.C), fieldVar(addr))
		}
	}
	return nil
}

var markField = "unknown-content"

func markOf(r *Term) *Term { return T.mk("mark", markField, nil, r) }

// freshRoot: the cell belongs to an object allocated on this path whose
// content nothing else has touched.
func freshRoot(st *State, addr *Term) bool {
	r := root(addr)
	for r.Op == "old" {
		r = r.Args[0]
	}
	if r.Op != "alloc" {
		return false
	}
	_, m := st.heap[markOf(root(addr))]
	return !m
}

func (e *Engine) store(st *State, f *Frame, in ssa.Instruction, addr, val *Term, typ types.Type) {
	// forget parts of the cell
	for k := range st.heap {
		if k != addr && (k.Op == "faddr" || k.Op == "iaddr") && within(k, addr) {
			delete(st.heap, k)
		}
	}
	// cells that may be the same one
	for k := range st.heap {
		if k != addr && mayAlias(st, k, addr) {
			t := T.mkFull("sym", e.siteName(f, in, "aliased"), nil, nil, nil, int64(k.id), nil)
			st.heap[k] = t
		}
	}
	st.heap[addr] = val
}

func within(k, addr *Term) bool {
	for k.Op == "faddr" || k.Op == "iaddr" {
		k = k.Args[0]
		if k == addr {
			return true
		}
	}
	return false
}

// mayAlias: whether two different address terms may name the same cell.
func mayAlias(st *State, a, b *Term) bool {
	if a.Op != b.Op {
		return false
	}
	switch a.Op {
	case "faddr":
		va, vb := fieldVar(a), fieldVar(b)
		if a.C != b.C || va != nil && vb != nil && va != vb {
			return false
		}
		return a.Args[0] == b.Args[0] || baseMayAlias(st, a.Args[0], b.Args[0])
	case "iaddr":
		if a.Args[0] != b.Args[0] && !baseMayAlias(st, a.Args[0], b.Args[0]) {
			return false
		}
		return st.facts.eval(eqTerm(a.Args[1], b.Args[1])) != no
	case "maddr":
		if a.Args[0] != b.Args[0] {
			return baseMayAlias(st, a.Args[0], b.Args[0]) && st.facts.eval(eqTerm(a.Args[1], b.Args[1])) != no
		}
		return st.facts.eval(eqTerm(a.Args[1], b.Args[1])) != no
	case "mver":
		return false
	}
	return false
}

func baseMayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == "faddr" || a.Op == "iaddr" || b.Op == "faddr" || b.Op == "iaddr" {
		if a.Op != b.Op {
			return false // an embedded object and a separately allocated one
		}
		return mayAlias(st, a, b)
	}
	fa, fb := isFreshObj(a), isFreshObj(b)
	if fa && fb {
		return false // distinct allocations
	}
	if fa != fb {
		o := b
		if fb {
			o = a
		}
		// something that existed before the allocation
		switch o.Op {
		case "param", "global", "ld":
			return false
		}
	}
	if a.Typ != nil && b.Typ != nil && !types.Identical(a.Typ, b.Typ) {
		if _, ok := a.Typ.Underlying().(*types.Interface); !ok {
			if _, ok := b.Typ.Underlying().(*types.Interface); !ok {
				return false
			}
		}
	}
	if a.Op == "param" && b.Op == "param" && strings.HasPrefix(a.Aux, "!") && strings.HasPrefix(b.Aux, "!") {
		return false
	}
	if st.facts.eval(eqTerm(a, b)) == no {
		return false
	}
	return true
}

func isFreshObj(t *Term) bool {
	for t.Op == "old" {
		t = t.Args[0]
	}
	return t.Op == "alloc"
}

// havocReach forgets what a callee may have written through pointer p.
func (e *Engine) havocReach(st *State, f *Frame, in ssa.Instruction, p *Term) {
	if p.Op == "mki" {
		p = p.Args[0]
	}
	switch p.Op {
	case "alloc", "faddr", "iaddr", "param", "ld", "sym", "old", "slice":
	case "mkslice":
		delete(st.heap, copyOf(p))
		return
	default:
		return
	}
	base := p
	if p.Op == "slice" {
		base = p.Args[0]
	}
	hit := false
	for k := range st.heap {
		if k == base || within(k, base) || (k.Op == "maddr" && k.Args[0] == base) {
			if k.Op == "mark" {
				continue
			}
			st.heap[k] = T.mkFull("sym", e.siteName(f, in, "out"), nil, nil, nil, int64(k.id), nil)
			hit = true
		}
	}
	if isFreshObj(root(base)) || p.Op == "slice" || isSliceTyped(p) {
		t := T.mkFull("sym", e.siteName(f, in, "modified"), nil, nil, nil, int64(root(base).id), nil)
		st.retire(t, e)
		st.heap[markOf(root(base))] = t
	}
	_ = hit
}

// copyOf holds what all of a slice made was copied from.
func copyOf(x *Term) *Term { return T.mk("copyof", "", nil, x) }

func isSliceTyped(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok
}

// havocObject forgets the mutable fields of an object (its lock was taken:
// other goroutines may have changed them).
func (e *Engine) havocObject(st *State, f *Frame, in ssa.Instruction, obj *Term) {
	if isFreshObj(root(obj)) && !e.escaped(st, root(obj)) {
		return
	}
	var ks []*Term
	for k := range st.heap {
		if k.Op == "faddr" && k.Args[0] == obj {
			ks = append(ks, k)
		}
	}
	if obj.Typ != nil {
		if s := structOf(obj.Typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if k := faddr(obj, i, s.Field(i)); st.heap[k] == nil && !isLockType(s.Field(i).Type()) {
					ks = append(ks, k)
				}
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		v := fieldVar(k)
		if v == nil || e.Base == nil {
			continue
		}
		if _, isMap := v.Type().Underlying().(*types.Map); e.Base.immutable[v] && !isMap || isLockType(v.Type()) {
			continue
		}
		if _, isStruct := v.Type().Underlying().(*types.Struct); isStruct && st.heap[k] == nil {
			continue
		}
		t := T.mkFull("sym", e.siteName(f, in, "locked "+v.Name()), v.Type(), nil, nil, int64(k.id), nil)
		st.retire(t, e)
		st.heap[k] = t
	}
}

func isLockType(t types.Type) bool {
	for _, n := range []string{"sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "sync.Cond"} {
		if isNamed(deref(t), n) {
			return true
		}
	}
	return false
}

func (e *Engine) escaped(st *State, obj *Term) bool {
	for k, v := range st.heap {
		if v.hasSym(obj) && root(k) != obj && !isFreshObj(root(k)) {
			return true
		}
	}
	return false
}

// branch continues a state under an extra assumption.
func (e *Engine) assume(st *State, c *Term, val bool) bool {
	return st.facts.assume(c, val)
}

// ---- instructions

func (e *Engine) step(st *State, f *Frame, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// bound by enter; only the entry block has none
	case *ssa.Alloc:
		t := e.freshAlloc(st, f, in, "new:"+x.Comment, deref(x.Type()))
		e.set(f, x, t)
	case *ssa.BinOp:
		e.set(f, x, e.binop(st, f, x))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := e.val(st, f, x.X)
			if e.H.Load != nil {
				e.H.Load(e, st, a, in)
			}
			v := e.load(st, a, x.Type())
			if v.Typ == nil && !v.isConst() && v.Op == "ld" {
				v.Typ = x.Type()
			}
			e.set(f, x, v)
		case token.NOT:
			e.set(f, x, notTerm(e.val(st, f, x.X)))
		case token.SUB:
			a := e.val(st, f, x.X)
			if isInteger(x.Type()) {
				e.set(f, x, mulc(a, -1))
			} else {
				e.set(f, x, T.mk("neg", "", x.Type(), a))
			}
		case token.ARROW:
			return e.recv(st, f, x)
		default:
			e.set(f, x, T.mk("unop", x.Op.String(), x.Type(), e.val(st, f, x.X)))
		}
	case *ssa.ChangeType:
		e.set(f, x, e.val(st, f, x.X))
	case *ssa.ChangeInterface:
		e.set(f, x, e.val(st, f, x.X))
	case *ssa.Convert:
		e.set(f, x, e.convert(st, f, x))
	case *ssa.MultiConvert:
		e.set(f, x, T.mk("conv", "", x.Type(), e.val(st, f, x.X)))
	case *ssa.SliceToArrayPointer:
		e.set(f, x, T.mk("conv", "", x.Type(), e.val(st, f, x.X)))
	case *ssa.MakeInterface:
		e.set(f, x, T.mk("mki", "", x.X.Type(), e.val(st, f, x.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, f, b))
		}
		fn := x.Fn.(*ssa.Function)
		e.set(f, x, T.mkFull("closure", fn.String(), x.Type(), fn, nil, 0, bs))
	case *ssa.MakeMap:
		t := e.freshAlloc(st, f, in, "map", x.Type())
		st.heap[mverOf(t)] = T.mk("empty", "", nil)
		e.set(f, x, t)
	case *ssa.MakeChan:
		t := e.freshAlloc(st, f, in, "chan", x.Type())
		st.heap[T.mk("chancap", "", nil, t)] = e.val(st, f, x.Size)
		e.set(f, x, t)
	case *ssa.MakeSlice:
		if n := e.val(st, f, x.Len); n.isInt() && n.C == 0 && !isStringOrBytes(x.Type()) {
			t := T.mk("list", "", x.Type())
			if t.Typ == nil {
				t.Typ = x.Type()
			}
			e.set(f, x, t)
			break
		}
		t := e.freshAlloc(st, f, in, "slice", x.Type())
		e.set(f, x, T.mk("mkslice", "", x.Type(), t, e.val(st, f, x.Len)))
	case *ssa.FieldAddr:
		b := e.val(st, f, x.X)
		s := deref(x.X.Type()).Underlying().(*types.Struct)
		e.set(f, x, faddr(b, x.Field, s.Field(x.Field)))
	case *ssa.Field:
		b := e.val(st, f, x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		v := fieldOf(b, x.Field, s.Field(x.Field))
		e.set(f, x, v)
	case *ssa.IndexAddr:
		if e.H.Bounds != nil {
			n := lenTerm(e.val(st, f, x.X))
			if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
				n = intTerm(a.Len())
			}
			e.H.Bounds(e, st, e.val(st, f, x.Index), n, false, x)
		}
		e.set(f, x, iaddr(e.val(st, f, x.X), e.val(st, f, x.Index)))
	case *ssa.Index:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if e.H.Bounds != nil {
				e.H.Bounds(e, st, e.val(st, f, x.Index), lenTerm(e.val(st, f, x.X)), false, x)
			}
			e.set(f, x, T.mk("index", "", x.Type(), e.val(st, f, x.X), e.val(st, f, x.Index)))
			break
		}
		e.set(f, x, e.load(st, iaddr(e.val(st, f, x.X), e.val(st, f, x.Index)), x.Type()))
	case *ssa.Slice:
		lo, hi := nilTerm, nilTerm
		if x.Low != nil {
			lo = e.val(st, f, x.Low)
		}
		if x.High != nil {
			hi = e.val(st, f, x.High)
		}
		b := e.val(st, f, x.X)
		if e.H.Bounds != nil {
			n := lenTerm(b)
			if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
				n = intTerm(a.Len())
			}
			if lo != nilTerm && hi != nilTerm {
				e.H.Bounds(e, st, lo, hi, true, x)
			} else if lo != nilTerm {
				e.H.Bounds(e, st, lo, n, true, x)
			}
			if hi != nilTerm {
				e.H.Bounds(e, st, hi, n, true, x)
			}
		}
		e.set(f, x, sliceTerm(b, lo, hi))
	case *ssa.Lookup:
		return e.lookup(st, f, x)
	case *ssa.Extract:
		e.set(f, x, extTerm(e.val(st, f, x.Tuple), x.Index))
		if t := f.env[x]; t.Typ == nil && t.Op == "ext" {
			t.Typ = x.Type()
		}
	case *ssa.Store:
		a, v := e.val(st, f, x.Addr), e.val(st, f, x.Val)
		if e.H.Store != nil {
			e.H.Store(e, st, a, v, in)
		}
		e.store(st, f, in, a, v, x.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := e.val(st, f, x.Map), e.val(st, f, x.Key), e.val(st, f, x.Value)
		if e.H.MapUpd != nil {
			e.H.MapUpd(e, st, m, k, v, in)
		}
		e.mapUpdate(st, f, in, m, k, v)
	case *ssa.Range:
		c := e.val(st, f, x.X)
		t := T.mkFull("sym", e.siteName(f, in, "range"), nil, nil, nil, 0, nil)
		st.retire(t, e)
		rt := T.mk("iter", "", nil, t, c)
		e.set(f, x, rt)
	case *ssa.Next:
		return e.next(st, f, x)
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, x)
	case *ssa.Call:
		return e.call(st, f, x, &x.Call, x, false)
	case *ssa.Defer:
		d := Deferred{instr: x}
		if x.Call.IsInvoke() {
			d.recv = e.val(st, f, x.Call.Value)
		} else {
			d.fn = e.val(st, f, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(st, f, a))
		}
		f.defers = append(f.defers, d)
		if len(f.defers) > 40 {
			e.undecided("more than 40 pending deferred calls in %s", f.fn)
			return false
		}
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			return e.runDefer(st, f)
		}
	case *ssa.Go:
		ev := e.callEv(st, f, in, &x.Call)
		if e.H.Go != nil {
			e.H.Go(e, st, ev)
		}
	case *ssa.Send:
		c, v := e.val(st, f, x.Chan), e.val(st, f, x.X)
		if e.H.Chan != nil {
			e.H.Chan(e, st, "send", c, v, in)
		}
	case *ssa.Select:
		return e.selectStmt(st, f, x)
	case *ssa.Jump:
		return e.enter(st, f, f.blk.Succs[0])
	case *ssa.If:
		c := e.val(st, f, x.Cond)
		r := st.facts.eval(c)
		if r == yes {
			return e.enter(st, f, f.blk.Succs[0])
		}
		if r == no {
			return e.enter(st, f, f.blk.Succs[1])
		}
		o := st.clone()
		if e.assume(o, c, false) && !e.absurd(o) {
			o.note(x.Cond.Pos(), "not: "+c.String())
			if e.enter(o, o.top(), f.blk.Succs[1]) {
				e.push(o)
			}
		}
		if !e.assume(st, c, true) || e.absurd(st) {
			return false
		}
		st.note(x.Cond.Pos(), "when: "+c.String())
		return e.enter(st, f, f.blk.Succs[0])
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, e.val(st, f, r))
		}
		return e.ret(st, f, rs, in)
	case *ssa.Panic:
		v := e.val(st, f, x.X)
		if e.H.Panic != nil {
			e.H.Panic(e, st, v, in)
		}
		st.note(x.Pos(), "panic")
		st.panicking = true
		return true
	default:
		e.undecided("instruction %T not modelled in %s", in, f.fn)
		return false
	}
	f.pc++
	return true
}

// absurd reports whether the facts of a state contradict each other.
func (e *Engine) absurd(st *State) bool {
	for k := range st.facts {
		if k.Op == "lt0" || k.Op == "eq" {
			return st.facts.zone().inconsistent()
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) ret(st *State, f *Frame, rs []*Term, in ssa.Instruction) bool {
	if e.H.Exit != nil {
		e.H.Exit(e, st, f)
	}
	if len(st.frames) == 1 {
		if e.H.Return != nil {
			e.H.Return(e, st, rs, in)
		}
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	if f.defer_ {
		// stay on RunDefers
		return e.merge(st)
	}
	if f.retTo != nil {
		switch len(rs) {
		case 0:
		case 1:
			e.set(p, f.retTo, rs[0])
		default:
			e.set(p, f.retTo, T.mk("tuple", "", nil, rs...))
		}
	}
	p.pc++
	return e.merge(st)
}

// merge prunes dead registers in the middle of a block (after a call) and
// drops the state if it is known.
func (e *Engine) merge(st *State) bool {
	p := st.top()
	lv := e.liveAt(p)
	for v := range p.env {
		if !lv[v] {
			delete(p.env, v)
		}
	}
	st.gc(e)
	k := st.key()
	if e.seen[k] {
		return false
	}
	e.seen[k] = true
	return true
}

var liveAtMemo = map[*ssa.BasicBlock]map[int]map[ssa.Value]bool{}

// liveAt: registers live before instruction pc of the frame's block.
func (e *Engine) liveAt(f *Frame) map[ssa.Value]bool {
	if m, ok := liveAtMemo[f.blk][f.pc]; ok {
		return m
	}
	e.liveIn(f.fn, f.blk) // compute
	lv := map[ssa.Value]bool{}
	b := f.blk
	for _, s := range b.Succs {
		for v := range e.liveIn(f.fn, s) {
			lv[v] = true
		}
		for _, ins := range s.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if s != b {
				delete(lv, p)
			}
			_ = p
		}
		for _, ins := range s.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for j, pr := range s.Preds {
				if pr == b {
					lv[p.Edges[j]] = true
				}
			}
		}
	}
	if f.fn.Recover != nil && b != f.fn.Recover {
		for v := range e.liveIn(f.fn, f.fn.Recover) {
			lv[v] = true
		}
	}
	for j := len(b.Instrs) - 1; j >= f.pc; j-- {
		ins := b.Instrs[j]
		if v, ok := ins.(ssa.Value); ok {
			delete(lv, v)
		}
		for _, o := range ins.Operands(nil) {
			if *o != nil {
				lv[*o] = true
			}
		}
	}
	if liveAtMemo[b] == nil {
		liveAtMemo[b] = map[int]map[ssa.Value]bool{}
	}
	liveAtMemo[b][f.pc] = lv
	return lv
}

// unwind runs the deferred calls of a panicking stack.
func (e *Engine) unwind(st *State) bool {
	f := st.top()
	st.panicking = false
	if len(f.defers) > 0 {
		f.unwinding = true
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.invokeDeferred(st, f, d)
	}
	f.unwinding = false
	if len(st.frames) == 1 {
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	st.panicking = true
	return true
}

func (e *Engine) runDefer(st *State, f *Frame) bool {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	return e.invokeDeferred(st, f, d)
}

func (e *Engine) invokeDeferred(st *State, f *Frame, d Deferred) bool {
	ev := &CallEv{Instr: d.instr, Pos: d.instr.Pos(), Frame: f, Defer: true, Args: d.args, Sig: d.instr.Call.Signature()}
	e.resolve(st, ev, d.fn, d.recv, &d.instr.Call)
	return e.doCall(st, f, ev, nil, true)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (e *Engine) binop(st *State, f *Frame, x *ssa.BinOp) *Term {
	a, b := e.val(st, f, x.X), e.val(st, f, x.Y)
	isInt := isInteger(x.X.Type())
	isStr := false
	if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	switch x.Op {
	case token.ADD:
		if isInt {
			return add(a, b)
		}
		if isStr {
			return catTerm(a, b)
		}
	case token.SUB:
		if isInt {
			return sub(a, b)
		}
	case token.MUL:
		if isInt {
			if a.isInt() {
				return mulc(b, a.C)
			}
			if b.isInt() {
				return mulc(a, b.C)
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case token.SHL:
		if isInt && b.isInt() && b.C >= 0 && b.C < 62 {
			return mulc(a, 1<<uint(b.C))
		}
	case token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHR, token.AND_NOT:
		if isInt && a.isInt() && b.isInt() {
			switch x.Op {
			case token.QUO:
				if b.C != 0 {
					return intTerm(a.C / b.C)
				}
			case token.REM:
				if b.C != 0 {
					return intTerm(a.C % b.C)
				}
			case token.AND:
				return intTerm(a.C & b.C)
			case token.OR:
				return intTerm(a.C | b.C)
			case token.XOR:
				return intTerm(a.C ^ b.C)
			case token.SHR:
				if b.C >= 0 && b.C < 64 {
					return intTerm(a.C >> uint(b.C))
				}
			case token.AND_NOT:
				return intTerm(a.C &^ b.C)
			}
		}
		if isInt && (x.Op == token.AND || x.Op == token.OR || x.Op == token.XOR) && a.id > b.id {
			a, b = b, a
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isInt {
			switch x.Op {
			case token.LSS:
				return lt0(sub(a, b))
			case token.GTR:
				return lt0(sub(b, a))
			case token.LEQ: // !(b < a)
				return notTerm(lt0(sub(b, a)))
			case token.GEQ:
				return notTerm(lt0(sub(a, b)))
			}
		}
		switch x.Op {
		case token.LSS:
			return T.mk("less", "", nil, a, b)
		case token.GTR:
			return T.mk("less", "", nil, b, a)
		case token.LEQ:
			return notTerm(T.mk("less", "", nil, b, a))
		case token.GEQ:
			return notTerm(T.mk("less", "", nil, a, b))
		}
	case token.EQL, token.NEQ:
		if isStr {
			// s == "" is len(s) == 0
			if a.isStr() && a.Aux == "" {
				a, b = b, a
			}
			if b.isStr() && b.Aux == "" && !a.isStr() {
				t := eqTerm(lenTerm(a), intTerm(0))
				if x.Op == token.NEQ {
					return notTerm(t)
				}
				return t
			}
		}
		t := eqTerm(a, b)
		if isInt && !t.isBool() && t.Op == "eq" && !isIntish(t.Args[0]) && !isIntish(t.Args[1]) {
			t = eqTerm(sub(a, b), intTerm(0))
		}
		if x.Op == token.NEQ {
			return notTerm(t)
		}
		return t
	}
	return T.mk("bin", x.Op.String(), x.Type(), a, b)
}

func (e *Engine) convert(st *State, f *Frame, x *ssa.Convert) *Term {
	v := e.val(st, f, x.X)
	from, to := x.X.Type(), x.Type()
	if isInteger(from) && isInteger(to) {
		if v.isInt() {
			return v
		}
		if sz := types.SizesFor("gc", "amd64"); sz.Sizeof(to) >= sz.Sizeof(from) {
			return v
		}
		return T.mk("conv", "int", to, v)
	}
	if isStringOrBytes(from) && isStringOrBytes(to) {
		// []byte(string) and string([]byte) preserve the content
		if v.Op == "conv" && len(v.Args) == 1 && v.Aux == "bytes" {
			return v.Args[0]
		}
		return T.mk("conv", "bytes", to, v)
	}
	return T.mk("conv", "", to, v)
}

// ---- maps

func mverOf(m *Term) *Term { return T.mk("mver", "", nil, m) }

func maddr(m, k *Term) *Term { return T.mk("maddr", "", nil, m, k) }

func (e *Engine) mapUpdate(st *State, f *Frame, in ssa.Instruction, m, k, v *Term) {
	_, had := e.mapGet(st, m, k, types.Typ[types.Int])
	isNew := st.facts.eval(had) == no
	for h, x := range st.heap {
		if isNew && x.Op != "absent" {
			continue // a key that is present is not the new one
		}
		if h.Op == "maddr" && h.Args[0] == m && h.Args[1] != k && st.facts.eval(eqTerm(h.Args[1], k)) != no {
			delete(st.heap, h)
		}
	}
	st.heap[maddr(m, k)] = v
	t := T.mkFull("sym", e.siteName(f, in, "mapver"), nil, nil, nil, 0, nil)
	st.retire(t, e)
	// a fresh map whose every key is known stays exactly known
	if cur, ok := st.heap[mverOf(m)]; ok && (cur.Op == "empty" || cur.Op == "exact") && k.isConst() {
		st.heap[mverOf(m)] = T.mk("exact", "", nil)
		return
	}
	st.heap[mverOf(m)] = t
}

// mapGet returns the value and presence of m[k].
func (e *Engine) mapGet(st *State, m, k *Term, vt types.Type) (v, ok *Term) {
	if kk := st.facts.rep(k); kk.isConst() {
		k = kk
	}
	if x, has := st.heap[maddr(m, k)]; has {
		if x.Op == "absent" {
			return zeroTerm(vt), falseTerm
		}
		return x, trueTerm
	}
	ver, hasVer := st.heap[mverOf(m)]
	if m == nilTerm {
		return zeroTerm(vt), falseTerm
	}
	if hasVer && ver.Op == "empty" {
		return zeroTerm(vt), falseTerm
	}
	if hasVer && ver.Op == "exact" && k.isConst() {
		return zeroTerm(vt), falseTerm
	}
	if hasVer && ver.Op == "exact" {
		// all keys known and different
		all := true
		for h := range st.heap {
			if h.Op == "maddr" && h.Args[0] == m && st.facts.eval(eqTerm(h.Args[1], k)) != no {
				all = false
			}
		}
		if all {
			return zeroTerm(vt), falseTerm
		}
	}
	if !hasVer {
		ver = nilTerm
	}
	v = T.mk("lookup", "", vt, m, k, ver)
	if v.Typ == nil {
		v.Typ = vt
	}
	ok = T.mk("has", "", nil, m, k, ver)
	if st.facts.eval(ok) == no {
		return zeroTerm(vt), falseTerm
	}
	return v, ok
}

func (e *Engine) lookup(st *State, f *Frame, x *ssa.Lookup) bool {
	m, k := e.val(st, f, x.X), e.val(st, f, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap { // string index
		e.set(f, x, T.mk("index", "", x.Type(), m, k))
		f.pc++
		return true
	}
	if e.H.MapGet != nil {
		e.H.MapGet(e, st, m, k, x)
	}
	if !k.isConst() && e.splitTable(st, m) {
		// case split over the keys of a constant table
		var keys []*Term
		for h := range st.heap {
			if h.Op == "maddr" && h.Args[0] == m && st.heap[h].Op != "absent" {
				keys = append(keys, h.Args[1])
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		for _, c := range keys {
			o := st.clone()
			if o.facts.assume(eqTerm(k, c), true) && !e.absurd(o) {
				e.setLookup(o, o.top(), x, st.heap[maddr(m, c)], trueTerm)
				o.top().pc++
				o.note(x.Pos(), "when: "+k.String()+" = "+c.String())
				e.push(o)
			}
		}
		for _, c := range keys {
			if !st.facts.assume(eqTerm(k, c), false) {
				return false
			}
		}
		if e.absurd(st) {
			return false
		}
		e.setLookup(st, f, x, zeroTerm(mt.Elem()), falseTerm)
		f.pc++
		return true
	}
	v, ok := e.mapGet(st, m, k, mt.Elem())
	if !x.CommaOk && v.Op == "lookup" {
		// absent keys read as the zero value: same term either way
	}
	e.setLookup(st, f, x, v, ok)
	f.pc++
	return true
}

func (e *Engine) setLookup(st *State, f *Frame, x *ssa.Lookup, v, ok *Term) {
	if x.CommaOk {
		e.set(f, x, T.mk("tuple", "", nil, v, ok))
	} else {
		e.set(f, x, v)
	}
}

func (e *Engine) splitTable(st *State, m *Term) bool {
	if e.Base == nil {
		return false
	}
	g := e.Base.tables[m]
	if g == nil {
		ks := e.exactKeys(st, m)
		return ks != nil && len(ks) <= 9
	}
	if e.H.Split != nil {
		return e.H.Split(g)
	}
	n := 0
	for h := range e.Base.heap {
		if h.Op == "maddr" && h.Args[0] == m {
			n++
		}
	}
	return n <= 4
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) bool {
	it := e.val(st, f, x.Iter)
	coll := it
	if it.Op == "iter" {
		coll = it.Args[1]
	}
	var kt, vt types.Type
	if tu, ok := x.Type().(*types.Tuple); ok {
		kt, vt = tu.At(1).Type(), tu.At(2).Type()
	}
	k := T.mkFull("sym", e.siteName(f, x, "key"), kt, nil, nil, 0, nil)
	ok := T.mkFull("sym", e.siteName(f, x, "more"), nil, nil, nil, 0, nil)
	st.retire(k, e)
	st.retire(ok, e)
	var v *Term
	if x.IsString {
		v = T.mk("index", "rune", vt, coll, k)
	}
	if !x.IsString {
		if keys := e.exactKeys(st, coll); keys != nil {
			return e.nextExact(st, x, it, coll, keys)
		}
	}
	o := st.clone()
	// exhausted
	if e.H.Next != nil {
		e.H.Next(e, o, coll, k, nil, falseTerm, x)
	}
	e.set(o.top(), x, T.mk("tuple", "", nil, falseTerm, k, T.mk("zero", "", vt)))
	o.top().pc++
	e.push(o)
	// one more element
	if !x.IsString {
		ver, has := st.heap[mverOf(coll)]
		if has && ver.Op == "empty" {
			return false
		}
		if !has {
			ver = nilTerm
		}
		if vt == nil || vt == types.Typ[types.Invalid] {
			if mt, ok := typeOfTerm(coll); ok {
				vt = mt.Elem()
			}
		}
		if x2, has := st.heap[maddr(coll, k)]; has {
			v = x2
		} else {
			v = T.mk("lookup", "", vt, coll, k, ver)
			if v.Typ == nil {
				v.Typ = vt
			}
		}
		st.facts.assume(T.mk("has", "", nil, coll, k, ver), true)
	}
	if e.H.Next != nil {
		e.H.Next(e, st, coll, k, v, trueTerm, x)
	}
	e.set(f, x, T.mk("tuple", "", nil, trueTerm, k, v))
	f.pc++
	return true
}

func typeOfTerm(t *Term) (*types.Map, bool) {
	if t.Typ == nil {
		return nil, false
	}
	m, ok := t.Typ.Underlying().(*types.Map)
	return m, ok
}

// ---- channels

// exactKeys are the keys of a small map that is known completely.
func (e *Engine) exactKeys(st *State, m *Term) []*Term {
	if ver, ok := st.heap[mverOf(m)]; !ok || ver.Op != "exact" {
		return nil
	}
	var keys []*Term
	for h, v := range st.heap {
		if h.Op == "maddr" && h.Args[0] == m && v.Op != "absent" {
			if !h.Args[1].isConst() {
				return nil
			}
			keys = append(keys, h.Args[1])
		}
	}
	max := 9
	if e.Base == nil {
		max = 64 // package initialisation: one order stands for all
	}
	if len(keys) > max {
		return nil
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	return keys
}

// nextExact visits the keys of a known map in every order.
func (e *Engine) nextExact(st *State, x *ssa.Next, it, coll *Term, keys []*Term) bool {
	reg := T.mk("visited", "", nil, it)
	mask := int64(0)
	if m, ok := st.heap[reg]; ok {
		mask = m.C
	}
	if mask == int64(1)<<len(keys)-1 {
		if e.H.Next != nil {
			e.H.Next(e, st, coll, nil, nil, falseTerm, x)
		}
		delete(st.heap, reg)
		f := st.top()
		e.set(f, x, T.mk("tuple", "", nil, falseTerm, keys[0], st.heap[maddr(coll, keys[0])]))
		f.pc++
		return true
	}
	for i, k := range keys {
		if mask&(1<<i) != 0 {
			continue
		}
		o := st.clone()
		o.heap[reg] = intTerm(mask | 1<<i)
		v := o.heap[maddr(coll, k)]
		if e.H.Next != nil {
			e.H.Next(e, o, coll, k, v, trueTerm, x)
		}
		f := o.top()
		e.set(f, x, T.mk("tuple", "", nil, trueTerm, k, v))
		f.pc++
		e.push(o)
		if e.Base == nil {
			break
		}
	}
	return false
}

func (e *Engine) recv(st *State, f *Frame, x *ssa.UnOp) bool {
	c := e.val(st, f, x.X)
	v := e.fresh(st, f, x, "recv", x.X.Type().Underlying().(*types.Chan).Elem())
	if e.H.Chan != nil {
		e.H.Chan(e, st, "recv", c, v, x)
	}
	if x.CommaOk {
		ok := T.mkFull("sym", e.siteName(f, x, "recvok"), nil, nil, nil, 0, nil)
		st.retire(ok, e)
		if e.H.Chan != nil {
			e.H.Chan(e, st, "recvok", c, ok, x)
		}
		e.set(f, x, T.mk("tuple", "", nil, v, ok))
	} else {
		e.set(f, x, v)
	}
	f.pc++
	return true
}

func (e *Engine) selectStmt(st *State, f *Frame, x *ssa.Select) bool {
	n := len(x.States)
	total := n
	if !x.Blocking {
		total = n + 1
	}
	for i := total - 1; i >= 0; i-- {
		o := st
		if i > 0 {
			o = st.clone()
		}
		fr := o.top()
		idx := i
		if i == n {
			idx = -1
		}
		rs := []*Term{intTerm(int64(idx)), falseTerm}
		ok := T.mkFull("sym", e.siteName(fr, x, "recvok"), nil, nil, nil, 0, nil)
		if idx >= 0 && x.States[idx].Dir == types.RecvOnly {
			o.retire(ok, e)
			rs[1] = ok
		}
		ri := 0
		for j, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == idx {
				v := T.mkFull("sym", e.siteName(fr, x, fmt.Sprintf("recv%d", j)), et, nil, nil, 0, nil)
				o.retire(v, e)
				rs = append(rs, v)
			} else {
				rs = append(rs, zeroTerm(et))
			}
			ri++
		}
		e.set(fr, x, T.mk("tuple", "", nil, rs...))
		if e.H.Chan != nil && idx >= 0 {
			s := x.States[idx]
			c := e.val(o, fr, s.Chan)
			if s.Dir == types.RecvOnly {
				var v *Term
				r := 2
				for j, q := range x.States {
					if q.Dir != types.RecvOnly {
						continue
					}
					if j == idx {
						v = rs[r]
					}
					r++
				}
				e.H.Chan(e, o, "select-recv", c, v, x)
				e.H.Chan(e, o, "recvok", c, ok, x)
			} else {
				op := "select-send"
				e.H.Chan(e, o, op, c, e.val(o, fr, s.Send), x)
			}
		}
		if idx < 0 && e.H.Chan != nil {
			e.H.Chan(e, o, "select-default", nil, nil, x)
		}
		o.note(x.Pos(), fmt.Sprintf("select case %d", idx))
		fr.pc++
		if i > 0 {
			e.push(o)
		}
	}
	return true
}

// ---- type assertions

func (e *Engine) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) bool {
	v := e.val(st, f, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	okRes := func(s *State, fr *Frame, r *Term, ok *Term) {
		if x.CommaOk {
			e.set(fr, x, T.mk("tuple", "", nil, r, ok))
		} else {
			e.set(fr, x, r)
		}
		fr.pc++
	}
	conv := func() *Term {
		if toIface {
			return v
		}
		if v.Op == "mki" {
			return v.Args[0]
		}
		t := T.mk("dyn", typKey(x.AssertedType), x.AssertedType, v)
		if t.Typ == nil {
			t.Typ = x.AssertedType
		}
		return t
	}
	var r tri
	switch {
	case v == nilTerm:
		r = no
	case v.Op == "mki":
		if toIface {
			it := x.AssertedType.Underlying().(*types.Interface)
			r = triOf(types.Implements(v.Typ, it))
		} else {
			r = triOf(types.Identical(v.Typ, x.AssertedType))
		}
	}
	atom := T.mk("typeis", typKey(x.AssertedType), x.AssertedType, v)
	if r == unknown {
		r = st.facts.eval(atom)
	}
	if r == unknown && st.facts.eval(eqTerm(v, nilTerm)) == yes {
		r = no
	}
	if r == unknown && !toIface {
		for k, b := range st.facts {
			if k.Op == "typeis" && b && k.Args[0] == v && k != atom && k.Typ != nil {
				if _, isI := k.Typ.Underlying().(*types.Interface); !isI {
					r = no
				}
			}
		}
	}
	if !x.CommaOk {
		// the other case panics
		if r == no {
			return false
		}
		st.facts.assume(atom, true)
		okRes(st, f, conv(), nil)
		return true
	}
	switch r {
	case yes:
		okRes(st, f, conv(), trueTerm)
		return true
	case no:
		okRes(st, f, zeroTerm(x.AssertedType), falseTerm)
		return true
	}
	o := st.clone()
	o.facts.assume(atom, false)
	o.note(x.Pos(), fmt.Sprintf("when %s is not a %s", v, x.AssertedType))
	okRes(o, o.top(), zeroTerm(x.AssertedType), falseTerm)
	e.push(o)
	st.facts.assume(atom, true)
	st.note(x.Pos(), fmt.Sprintf("when %s is a %s", v, x.AssertedType))
	okRes(st, f, conv(), trueTerm)
	return true
}

// ---- calls

func (e *Engine) callEv(st *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon) *CallEv {
	ev := &CallEv{Instr: in, Pos: in.Pos(), Frame: f, Sig: c.Signature()}
	for _, a := range c.Args {
		ev.Args = append(ev.Args, e.val(st, f, a))
	}
	var fnT, recv *Term
	if c.IsInvoke() {
		recv = e.val(st, f, c.Value)
	} else {
		fnT = e.val(st, f, c.Value)
	}
	e.resolve(st, ev, fnT, recv, c)
	return ev
}

// resolve finds the callee.
func (e *Engine) resolve(st *State, ev *CallEv, fnT, recv *Term, c *ssa.CallCommon) {
	if c.IsInvoke() {
		ev.Args = append([]*Term{recv}, ev.Args...)
		ev.Name = c.Method.FullName()
		if recv.Op == "mki" {
			if fn := e.P.SSA.LookupMethod(recv.Typ, c.Method.Pkg(), c.Method.Name()); fn != nil {
				ev.Fn = fn
				ev.Args[0] = recv.Args[0]
				ev.Name = fn.RelString(nil)
			}
		}
		return
	}
	ev.FnT = fnT
	switch fnT.Op {
	case "builtin":
		ev.Name = "builtin." + fnT.Aux
	case "func", "closure":
		ev.Fn = fnT.Obj.(*ssa.Function)
		// method values and expressions of library types are the methods
		if m, ok := ev.Fn.Object().(*types.Func); ok && (strings.HasPrefix(ev.Fn.Synthetic, "bound method") || strings.HasPrefix(ev.Fn.Synthetic, "thunk")) && !e.P.IsRepo(ev.Fn) {
			if fnT.Op == "closure" {
				ev.Args = append(append([]*Term{}, fnT.Args...), ev.Args...)
			}
			ev.Sig = m.Type().(*types.Signature)
			ev.Name = m.FullName()
			if fn := e.P.SSA.FuncValue(m); fn != nil {
				ev.Fn = fn
				ev.FnT = fnTerm(fn)
			}
			return
		}
		ev.Name = ev.Fn.RelString(nil)
	default:
		ev.Name = "dynamic"
	}
}

func (e *Engine) call(st *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, ret ssa.Value, def bool) bool {
	if c.IsInvoke() {
		recv := e.val(st, f, c.Value)
		if recv.Op != "mki" && e.H.Devirt != nil {
			var known types.Type
			for k, b := range st.facts {
				if k.Op == "typeis" && b && k.Args[0] == recv && k.Typ != nil {
					if _, isI := k.Typ.Underlying().(*types.Interface); !isI {
						known = k.Typ
					}
				}
			}
			var cands []types.Type
			if known != nil {
				cands = []types.Type{known}
			} else {
				cands = e.H.Devirt(e, st, recv, c.Value.Type(), c.Method)
			}
			if len(cands) > 0 {
				for i, ct := range cands {
					o := st
					if i < len(cands)-1 {
						o = st.clone()
					}
					dynT := T.mk("dyn", typKey(ct), ct, recv)
					if dynT.Typ == nil {
						dynT.Typ = ct
					}
					o.facts.assume(T.mk("typeis", typKey(ct), ct, recv), true)
					fr := o.top()
					ev := &CallEv{Instr: in, Pos: in.Pos(), Frame: fr, Sig: c.Signature()}
					for _, a := range c.Args {
						ev.Args = append(ev.Args, e.val(o, fr, a))
					}
					e.resolve(o, ev, nil, T.mk("mki", "", ct, dynT), c)
					if i < len(cands)-1 {
						if e.doCall(o, fr, ev, ret, false) {
							e.push(o)
						}
					} else {
						return e.doCall(o, fr, ev, ret, false)
					}
				}
			}
		}
	}
	ev := e.callEv(st, f, in, c)
	return e.doCall(st, f, ev, ret, def)
}

// doCall performs a call: by the rule's model, by inlining, by the library
// model, or as an opaque operation.
func (e *Engine) doCall(st *State, f *Frame, ev *CallEv, ret ssa.Value, def bool) bool {
	if strings.HasPrefix(ev.Name, "builtin.") {
		return e.builtin(st, f, ev, ret, def)
	}
	if e.H.Call != nil {
		if outs, ok := e.H.Call(e, st, ev); ok {
			return e.outs(st, f, ev, ret, def, outs)
		}
		if e.dead {
			return false
		}
	}
	if ev.Fn != nil && ev.Fn.Blocks != nil && e.inlinable(ev.Fn) && !(e.H.NoInline != nil && e.H.NoInline(ev.Fn)) {
		return e.inline(st, f, ev, ret, def)
	}
	if outs, ok := e.model(st, f, ev); ok {
		if outs == nil {
			return true // continues in a pushed frame
		}
		return e.outs(st, f, ev, ret, def, outs)
	}
	return e.outs(st, f, ev, ret, def, e.opaque(st, f, ev))
}

func (e *Engine) inlinable(fn *ssa.Function) bool { return e.P.IsRepo(fn) }

func (e *Engine) inline(st *State, f *Frame, ev *CallEv, ret ssa.Value, def bool) bool {
	fn := ev.Fn
	depth := 0
	for _, g := range st.frames {
		if g.fn == fn {
			depth++
		}
	}
	if depth > 2 || len(st.frames) > e.MaxDepth {
		e.undecided("recursion through %s at %s is not followed further", fn, e.P.Pos(ev.Pos))
		return e.outs(st, f, ev, ret, def, e.opaque(st, f, ev))
	}
	e.FnSeen[fn] = true
	nf := &Frame{fn: fn, ctx: e.ctx(f.ctx, ev.Instr, fn), blk: fn.Blocks[0], env: map[ssa.Value]*Term{},
		loop: map[*ssa.Phi]*Term{}, instr: ev.Instr, retTo: ret, defer_: def}
	for i, p := range fn.Params {
		if i < len(ev.Args) {
			nf.env[p] = ev.Args[i]
			if t := ev.Args[i]; t.Typ == nil && (t.Op == "ld" || t.Op == "lookup" || t.Op == "ext" || t.Op == "sym") {
				t.Typ = p.Type()
			}
		} else {
			nf.env[p] = T.mk("param", "missing."+p.Name(), p.Type())
		}
	}
	if ev.FnT != nil && ev.FnT.Op == "closure" {
		for i, v := range fn.FreeVars {
			nf.env[v] = ev.FnT.Args[i]
		}
	}
	st.frames = append(st.frames, nf)
	return true
}

func (e *Engine) outs(st *State, f *Frame, ev *CallEv, ret ssa.Value, def bool, outs []Out) bool {
	if len(outs) == 0 {
		return false
	}
	for i := len(outs) - 1; i >= 0; i-- {
		o := st
		if i > 0 {
			o = st.clone()
		}
		fr := o.top()
		ok := true
		for _, l := range outs[i].Assume {
			if !o.facts.assume(l.T, l.Val) {
				ok = false
				break
			}
		}
		if !ok {
			if i == 0 {
				return false
			}
			continue
		}
		if outs[i].Do != nil {
			outs[i].Do(o)
		}
		if e.H.After != nil {
			e.dead = false
			ev2 := *ev
			ev2.Frame = fr
			e.H.After(e, o, &ev2, outs[i].Res)
			if e.dead {
				if i == 0 {
					return false
				}
				continue
			}
		}
		if outs[i].Panics {
			o.panicking = true
			if i > 0 {
				e.push(o)
			}
			continue
		}
		if ret != nil && outs[i].Res != nil {
			e.set(fr, ret, outs[i].Res)
		} else if ret != nil {
			e.set(fr, ret, T.mk("tuple", "", nil))
		}
		if !def {
			fr.pc++
		}
		if i > 0 {
			e.push(o)
		}
	}
	return true
}

// opaque: the callee is unknown. Its results are new values, and what its
// pointer arguments lead to may have changed.
func (e *Engine) opaque(st *State, f *Frame, ev *CallEv) []Out {
	for _, a := range ev.Args {
		e.havocReach(st, f, ev.Instr, a)
	}
	return []Out{{Res: e.opaqueResult(st, f, ev)}}
}

func (e *Engine) opaqueResult(st *State, f *Frame, ev *CallEv) *Term {
	n := ev.Sig.Results().Len()
	if n == 0 {
		return nil
	}
	short := ev.Name
	if i := strings.LastIndex(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	if n == 1 {
		return e.fresh(st, f, ev.Instr, short, ev.Sig.Results().At(0).Type())
	}
	s := e.fresh(st, f, ev.Instr, short, nil)
	rs := make([]*Term, n)
	for i := range rs {
		rs[i] = extTerm(s, i)
		if rs[i].Typ == nil {
			rs[i].Typ = ev.Sig.Results().At(i).Type()
		}
	}
	return T.mk("tuple", "", nil, rs...)
}

func (e *Engine) builtin(st *State, f *Frame, ev *CallEv, ret ssa.Value, def bool) bool {
	var r *Term
	switch strings.TrimPrefix(ev.Name, "builtin.") {
	case "len":
		x := ev.Args[0]
		r = lenTerm(x)
		if _, ok := typeOfTerm(x); ok || x.Op == "alloc" && r.Op == "len" {
			if v, has := st.heap[mverOf(x)]; has {
				if v.Op == "empty" {
					r = intTerm(0)
				} else {
					r = T.mk("len", "", nil, x, v)
				}
			}
		}
	case "cap":
		r = T.mk("cap", "", nil, ev.Args[0])
	case "append":
		if e.H.Append != nil {
			r = e.H.Append(e, st, ev)
		}
		if r == nil {
			r = e.appendTerm(st, ev)
		}
	case "copy":
		r = e.fresh(st, f, ev.Instr, "copy", types.Typ[types.Int])
		e.havocReach(st, f, ev.Instr, ev.Args[0])
		if d := ev.Args[0]; d.Op == "mkslice" {
			delete(st.heap, copyOf(d))
			if lenTerm(d) == lenTerm(ev.Args[1]) {
				st.heap[copyOf(d)] = ev.Args[1]
				r = lenTerm(d)
			}
		}
	case "delete":
		m, k := ev.Args[0], ev.Args[1]
		if e.H.Call != nil {
			if _, ok := e.H.Call(e, st, ev); ok {
				break
			}
		}
		for h := range st.heap {
			if h.Op == "maddr" && h.Args[0] == m && h.Args[1] != k && st.facts.eval(eqTerm(h.Args[1], k)) != no {
				delete(st.heap, h)
			}
		}
		t := T.mkFull("sym", e.siteName(f, ev.Instr, "mapver"), nil, nil, nil, 0, nil)
		st.retire(t, e)
		st.heap[maddr(m, k)] = T.mk("absent", "", nil)
		if cur := st.heap[mverOf(m)]; cur == nil || cur.Op != "empty" {
			st.heap[mverOf(m)] = t
		}
	case "close":
		if e.H.Chan != nil {
			e.H.Chan(e, st, "close", ev.Args[0], nil, ev.Instr)
		}
	case "recover":
		r = nilTerm
		if n := len(st.frames); n >= 2 && st.frames[n-2].unwinding && f.defer_ {
			st.frames[n-2].unwinding = false
			st.frames[n-2].recovered = true
			r = T.mk("mki", "", types.Typ[types.String], e.fresh(st, f, ev.Instr, "recovered", nil))
		}
	case "panic":
		st.panicking = true
		return true
	case "print", "println":
		if e.H.Call != nil {
			e.H.Call(e, st, ev)
		}
	case "min", "max":
		r = T.mk("bin", ev.Name, nil, ev.Args...)
	case "ssa:wrapnilchk":
		r = ev.Args[0]
	default:
		r = e.fresh(st, f, ev.Instr, ev.Name, nil)
	}
	if ret != nil {
		if r == nil {
			r = T.mk("tuple", "", nil)
		}
		e.set(f, ret, r)
	}
	if !def {
		f.pc++
	}
	return true
}

// appendTerm: append(s, x...) with the elements spelled out when the variadic
// part is an array built for the call.
func (e *Engine) appendTerm(st *State, ev *CallEv) *Term {
	s := ev.Args[0]
	var typ types.Type
	if ev.Sig != nil && ev.Sig.Results().Len() == 1 {
		typ = ev.Sig.Results().At(0).Type()
	}
	if len(ev.Args) == 1 {
		return s
	}
	x := ev.Args[1]
	if x == nilTerm {
		return s
	}
	if els := e.elements(st, x); els != nil {
		if s.Op == "slice" && s.Args[0].Op == "alloc" && s.Args[1] == nilTerm && s.Args[2] == nilTerm && e.Unroll > 0 {
			if l := e.elements(st, s); l != nil { // a copy: there is no room
				s = T.mk("list", "", typ, l...)
			}
		}
		if s.Op == "slice" && s.Args[0].Op == "alloc" && s.Args[1] == nilTerm && s.Args[2].isInt() && s.Args[2].C == 0 && !isStringOrBytes(typ) {
			s = T.mk("list", "", typ) // made empty
		}
		if s == nilTerm || s.Op == "list" {
			var all []*Term
			if s.Op == "list" {
				all = append(all, s.Args...)
			}
			all = append(all, els...)
			t := T.mk("list", "", typ, all...)
			if t.Typ == nil {
				t.Typ = typ
			}
			if len(all) <= 6 {
				return t
			}
		}
		r := T.mk("append", "", typ, append([]*Term{s}, els...)...)
		if r.Typ == nil {
			r.Typ = typ
		}
		return r
	}
	r := T.mk("appendall", "", typ, s, x)
	if r.Typ == nil {
		r.Typ = typ
	}
	return r
}

// elements lists the elements of a slice whose length and content are known.
func (e *Engine) elements(st *State, x *Term) []*Term {
	switch x.Op {
	case "list":
		return x.Args
	case "slice":
		b, lo, hi := x.Args[0], x.Args[1], x.Args[2]
		if b.Op == "alloc" && lo == nilTerm && b.Typ != nil {
			a, ok := b.Typ.Underlying().(*types.Array)
			if !ok {
				return nil
			}
			n := a.Len()
			if hi != nilTerm {
				if !hi.isInt() {
					return nil
				}
				n = hi.C
			}
			if n > 16 {
				return nil
			}
			els := make([]*Term, n)
			for i := range els {
				els[i] = e.load(st, iaddr(b, intTerm(int64(i))), a.Elem())
			}
			return els
		}
	}
	return nil
}

var _ = constant.MakeBool
