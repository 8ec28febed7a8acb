package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C05",
		Technique: "abstract stack-depth analysis (linear arithmetic over inlined call strings) and capture-before-send dataflow over SSA",
		Rule: "at every runtime.Caller reached from a logging method the argument equals the number of frames between it and the user's call plus the skip set with SetCallerSkip; " +
			"whenever the caller flag of the outputs requires it, the caller information is in the event's context before the first Send; the flag of outputs, formatters and loggers is at least what each verb needs",
		Trusts: []string{"runtime.Caller counts source-level frames (compiler-generated wrappers are skipped)", "the caller flag is 0, 1 or 2, as api.Formatter documents", "the context given to WithCtx is not the one of an earlier event"},
		Run:    runC05})
}

// realDepth counts the source-level frames of the abstract stack.
func realDepth(st *State) int64 {
	n := int64(0)
	for _, f := range st.frames {
		if f.fn.Synthetic == "" {
			n++
		}
	}
	return n
}

// accumBack tracks, for every integer loop variable, whether it is at least
// the value met in each iteration (A["v"]) and never decreases: "=acc:x" is the
// value of such a variable, "=bad:x" marks one that is not.
func accumBack(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) {
	v := st.A["v"]
	pi := -1
	for i, p := range head.Preds {
		if p == f.blk {
			pi = i
		}
	}
	for _, in := range head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(p.Type()) || pi < 0 {
			continue
		}
		x := e.val(st, f, p.Edges[pi])
		cur := f.loop[p]
		k := p.Name()
		if cur == nil || st.A["=acc:"+k] != nil && st.A["=acc:"+k] != cur ||
			v != nil && st.facts.eval(lt0(sub(x, v))) != no || st.facts.eval(lt0(sub(x, cur))) != no {
			st.A["=bad:"+k] = trueTerm
			delete(st.A, "=acc:"+k)
			continue
		}
		st.A["=acc:"+k] = x
	}
	delete(st.A, "v")
}

// accumulated: x is at least every value met so far.
func accumulated(st *State, x *Term) bool {
	if v := st.A["v"]; v != nil && st.facts.eval(lt0(sub(x, v))) != no {
		return false
	}
	any := false
	for k, v := range st.A {
		if strings.HasPrefix(k, "=acc:") {
			any = true
			if st.A["=bad:"+k[5:]] == nil && (v == x || st.facts.eval(lt0(sub(x, v))) == no) {
				return true
			}
		}
	}
	if any {
		return false
	}
	for k := range st.A {
		if strings.HasPrefix(k, "=bad:") {
			return false
		}
	}
	return true // no loop iteration was completed
}

func runC05(r *Run) {
	l := r.logger()
	if l == nil {
		return
	}
	// the skip field: what SetCallerSkip writes
	lg := obj("logger", l.typ)
	var skipF fieldAt
	var base *Term
	fn := r.method(l.typ, "SetCallerSkip")
	if fn == nil {
		r.missing("SetCallerSkip")
		return
	}
	e := r.engine()
	e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op == "faddr" && addr.Args[0] == lg && isInteger(fieldVar(addr).Type()) {
			skip := paramTerm(fn.Params[1].Name(), fn.Params[1].Type())
			d := sub(val, skip)
			if r.check(d.isInt() && (base == nil || base == d), "skip set", in.Pos(), st, "SetCallerSkip stores a constant plus the skip (%v)", val) {
				base = d
				skipF = fieldAt{int(addr.C), fieldVar(addr)}
			}
		}
	}
	e.Entry(fn, []*Term{lg}, func(st *State, args []*Term) { assumeNonNil(st, lg) })
	r.done(e, "SetCallerSkip")
	if base == nil {
		r.missing("the field SetCallerSkip sets")
		return
	}
	// a new logger skips nothing
	for _, fn := range r.P.allocators(l.typ) {
		e := r.engine()
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			seen := map[*Term]bool{}
			for k := range st.heap {
				o := root(k)
				if isFreshObj(o) && o.Typ != nil && types.Identical(o.Typ, deref(l.typ)) && !seen[o] {
					seen[o] = true
					got := e.load(st, skipF.addr(o), skipF.v.Type())
					r.check(got == base, "skip initial", in.Pos(), st, "a new logger skips nothing (%v, SetCallerSkip(0) gives %v)", got, base)
				}
			}
		}
		e.Entry(fn, nil, nil)
		r.done(e, fn.String())
	}
	r.need("skip initial", 1)
	// every other store to it
	for _, s := range r.B.stores[skipF.v] {
		f := s.Parent()
		if f != fn && !allocs(f, l.typ) && r.P.IsRepo(f) && !calledOnlyFrom(r.P, f, fn) {
			r.bad("skip set", s.Pos(), nil, "the skip is changed outside SetCallerSkip")
		}
	}
	// the flag field: the maximum over the outputs
	flagF := r.flagField(l)
	if flagF.v == nil {
		return
	}
	// depth and capture
	for _, s := range r.sessions() {
		s.onLoad = func(s *session, e *Engine, st *State, addr *Term) {
			if addr == skipF.addr(s.lg) {
				st.A["skip"] = e.load(st, addr, skipF.v.Type())
			}
		}
		s.onCall = func(s *session, e *Engine, st *State, c *CallEv) ([]Out, bool) {
			switch c.Name {
			case "(context.Context).Value":
				// only the library can put something under its own keys
				if c.Args[0] == e.load(st, s.ctxF.addr(s.w), s.ctxF.v.Type()) && s.r.libraryKey(c.Args[1]) {
					return []Out{{Res: nilTerm}}, true
				}
			case "runtime.Caller":
				skip := st.A["skip"] // as read by the writer
				if skip == nil {
					skip = e.load(st, skipF.addr(s.lg), skipF.v.Type())
				}
				d := sub(c.Args[0], skip)
				want := sub(intTerm(realDepth(st)), base)
				// base + set skip + rest = frames up to the user's call
				s.r.check(d == want, "depth", c.Pos, st, "%s: runtime.Caller(%v) with %d frames below the user's call", s.label, c.Args[0], realDepth(st))
				st.A["cap"] = trueTerm
			case "runtime.FuncForPC":
				if c.Args[0].find(func(t *Term) bool { return t.Op == "sym" && strings.HasPrefix(t.Aux, "runtime.Caller@") }) != nil {
					st.A["fun"] = trueTerm
				}
			}
			return nil, false
		}
		s.onSend = func(s *session, e *Engine, st *State, c *CallEv, ev *Term) {
			cur := s.l.walkOutputs(e, st)
			fl := e.load(st, flagF.addr(cur), flagF.v.Type())
			ctx := strip(s.eventField(e, st, ev, "Ctx"))
			inCtx := ctx.Op == "call" && ctx.Aux == "context.WithValue" && s.r.libraryKey(ctx.Args[1])
			full := st.A["cap"] != nil && inCtx
			if st.A["S"] != nil {
				s.r.check(st.A["S"] == trueTerm, "captured", c.Pos, st, "%s captures the caller when the outputs need it", s.label)
				return
			}
			good := (st.facts.eval(eqTerm(fl, intTerm(1))) == no || full) &&
				(st.facts.eval(eqTerm(fl, intTerm(2))) == no || full && st.A["fun"] != nil)
			st.A["S"] = boolTerm(good)
			s.r.check(good, "captured", c.Pos, st, "%s captures the caller before sending whenever the outputs need it", s.label)
		}
		s.run()
	}
	r.need("depth", 1)
	r.need("captured", 1)
	r.verbFlags()
}

func allocs(f *ssa.Function, t types.Type) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && types.Identical(deref(a.Type()), deref(t)) {
				return true
			}
		}
	}
	return false
}

// calledOnlyFrom: every caller of f is g (or f is only reached through g).
func calledOnlyFrom(p *Prog, f, g *ssa.Function) bool {
	n := 0
	bad := false
	p.instrs(func(h *ssa.Function, in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() != f {
			return
		}
		n++
		if h != g && h.Synthetic == "" {
			bad = true
		}
	})
	return n > 0 && !bad
}

// flagField finds the logger field that SetOutputs sets to the maximum of the
// caller flags of the outputs.
func (r *Run) flagField(l *loggerRole) fieldAt {
	lg := obj("logger", l.typ)
	fn := r.method(l.typ, "SetOutputs")
	if fn == nil {
		r.missing("SetOutputs")
		return fieldAt{}
	}
	cif := r.ifaceMethod("Output", "CallerInfoFlag")
	outs := paramTerm(fn.Params[1].Name(), fn.Params[1].Type())
	cand := fieldsWhere(l.typ, func(v *types.Var) bool { return isInteger(v.Type()) && !types.Identical(v.Type(), l.level.v.Type()) })
	okF := map[*types.Var]int{}
	badF := map[*types.Var]bool{}
	n := 0
	e := r.engine()
	e.Havoc = false
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Name == cif {
			t := c.Args[0]
			// an output answers the same each time it is asked
			fl := T.mk("flag", "", types.Typ[types.Int], t)
			if t.Op == "ld" && t.Args[0].Op == "iaddr" && t.Args[0].Args[0] == outs {
				idx := t.Args[0].Args[1]
				if idx == add(st.A["last"], intTerm(1)) {
					st.A["last"] = idx
					st.A["v"] = fl
				}
			}
			return []Out{{Res: fl}}, true
		}
		return nil, false
	}
	e.H.Back = accumBack
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		n++
		all := st.facts.eval(lt0(sub(add(st.A["last"], intTerm(1)), lenTerm(outs)))) == no
		for _, f := range cand {
			x, set := st.heap[f.addr(lg)]
			good := set && all && accumulated(st, x)
			if set && x.isInt() && x.C >= 2 {
				good = true
			}
			if good {
				okF[f.v]++
			} else {
				badF[f.v] = true
			}
		}
	}
	e.Entry(fn, []*Term{lg}, func(st *State, args []*Term) {
		assumeNonNil(st, lg)
		st.A["last"] = intTerm(-1)
	})
	r.done(e, "SetOutputs")
	for _, f := range cand {
		if okF[f.v] > 0 && !badF[f.v] {
			r.ok("flag of a logger", fn.Pos(), "SetOutputs keeps the maximum of the flags of all outputs in %s", f.v.Name())
			return f
		}
	}
	r.bad("flag of a logger", fn.Pos(), nil, "SetOutputs does not keep the maximum of the caller flags of all outputs in any field")
	return fieldAt{}
}

// formatTable finds the table of verbs: string -> function of an event.
func (r *Run) formatTable() (map[string]*ssa.Function, *Term) {
	evT := r.apiType("Event")
	var tab *Term
	for m, g := range r.B.tables {
		mt, ok := deref(g.Type()).Underlying().(*types.Map)
		if !ok {
			continue
		}
		sig, ok := mt.Elem().Underlying().(*types.Signature)
		if !ok || sig.Params().Len() == 0 || !types.Identical(deref(sig.Params().At(0).Type()), evT) {
			continue
		}
		if tab != nil {
			r.missing("the one table of format verbs")
			return nil, nil
		}
		tab = m
	}
	if tab == nil {
		r.missing("the table of format verbs")
		return nil, nil
	}
	fs := map[string]*ssa.Function{}
	for k, v := range r.B.heap {
		if k.Op == "maddr" && k.Args[0] == tab && k.Args[1].isStr() {
			if f, ok := v.Obj.(*ssa.Function); ok {
				fs[k.Args[1].Aux] = f
			}
		}
	}
	return fs, tab
}

func sortedKeys(m map[string]*ssa.Function) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// verbFlags: the flag of a formatter covers what the verbs of its layout need.
func (r *Run) verbFlags() {
	verbs, _ := r.formatTable()
	evT := types.NewPointer(r.apiType("Event"))
	need := map[string]int64{}
	for _, v := range sortedKeys(verbs) {
		n := int64(0)
		e := r.engine()
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if c.Name == "runtime.Caller" && n < 1 {
				n = 1
			}
			if c.Name == "runtime.FuncForPC" {
				n = 2
			}
			return nil, false
		}
		ev := obj("event", evT)
		e.Entry(verbs[v], []*Term{ev}, func(st *State, args []*Term) { assumeNonNil(st, args...) })
		r.done(e, "verb "+v)
		need[v] = n
	}
	// CallerInfoFlag of every formatter
	for _, t := range r.impls("Formatter") {
		fn := r.method(t, "CallerInfoFlag")
		f := obj("formatter", t)
		e := r.engine()
		table := false
		e.H.Split = func(g *ssa.Global) bool { return false }
		e.H.MapGet = func(e *Engine, st *State, m, k *Term, in ssa.Instruction) {
			g := r.B.tables[m]
			if g == nil {
				return
			}
			mt := deref(g.Type()).Underlying().(*types.Map)
			if !isInteger(mt.Elem()) {
				return
			}
			table = true
			for _, v := range sortedKeys(verbs) {
				fl := int64(0)
				if x, ok := r.B.heap[maddr(m, strTerm(v))]; ok && x.isInt() {
					fl = x.C
				}
				r.check(fl >= need[v], "flag of a verb", in.Pos(), st, "verb %s has flag %d, its rendering needs %d", v, fl, need[v])
			}
			// the part whose verb is looked up: element after element
			if k.Op == "ld" && k.Args[0].Op == "faddr" {
				p := k.Args[0].Args[0]
				if p.Op == "ld" && p.Args[0].Op == "iaddr" {
					idx := p.Args[0].Args[1]
					if idx == add(st.A["last"], intTerm(1)) {
						st.A["last"] = idx
						st.A["parts"] = p.Args[0].Args[0]
						v, _ := e.mapGet(st, m, k, mt.Elem())
						st.A["v"] = v
						st.A["has"] = T.mk("has", "", nil, v.Args...)
					}
				}
			}
		}
		e.H.Back = func(e *Engine, st *State, fr *Frame, head *ssa.BasicBlock) {
			if h := st.A["has"]; h != nil && st.facts.eval(h) == no {
				delete(st.A, "v")
			}
			delete(st.A, "has")
			accumBack(e, st, fr, head)
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			x := res[0]
			if x.isInt() && x.C >= 2 {
				r.ok("flag of a formatter", in.Pos(), "the highest flag")
				return
			}
			good := accumulated(st, x)
			if ps := st.A["parts"]; ps != nil {
				good = good && st.facts.eval(lt0(sub(add(st.A["last"], intTerm(1)), lenTerm(ps)))) == no
			}
			r.check(good, "flag of a formatter", in.Pos(), st, "CallerInfoFlag returns at least the flag of every part (%v)", x)
		}
		e.Entry(fn, []*Term{f}, func(st *State, args []*Term) {
			assumeNonNil(st, args...)
			st.A["last"] = intTerm(-1)
		})
		r.done(e, fn.String())
		if !table {
			r.missing("the flags of the verbs in " + fn.String())
		}
	}
	r.need("flag of a verb", 10)
	r.need("flag of a formatter", 1)
	// CallerInfoFlag of an output is that of its formatter
	cif := r.ifaceMethod("Formatter", "CallerInfoFlag")
	ocif := r.ifaceMethod("Output", "CallerInfoFlag")
	for _, t := range r.impls("Output") {
		fn := r.method(t, "CallerInfoFlag")
		o := obj("output", t)
		e := r.engine()
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if c.Name == cif || c.Name == ocif {
				return []Out{{Res: T.mk("flag", "", types.Typ[types.Int], c.Args[0])}}, true
			}
			return nil, false
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			x := res[0]
			if x.Op == "flag" {
				r.ok("flag of an output", in.Pos(), "%s asks its formatter", fn)
				return
			}
			// without a formatter
			none := false
			for k, v := range st.facts {
				if k.Op == "eq" && k.Args[1] == nilTerm && v && k.Args[0].Typ != nil && types.Identical(k.Args[0].Typ, r.apiType("Formatter")) {
					none = true
				}
				if k.Op == "eq" && k.Args[0] == nilTerm && v && k.Args[1].Typ != nil && types.Identical(k.Args[1].Typ, r.apiType("Formatter")) {
					none = true
				}
			}
			r.check(none || x.isInt() && x.C >= 2, "flag of an output", in.Pos(), st, "%s returns %v only without a formatter", fn, x)
		}
		e.Entry(fn, []*Term{o}, func(st *State, args []*Term) { assumeNonNil(st, args...) })
		r.done(e, fn.String())
	}
	r.need("flag of an output", 2)
}
