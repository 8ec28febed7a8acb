package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// session explores one logging method (or other method of the logger).
type session struct {
	r     *Run
	l     *loggerRole
	lg    *Term // the logger
	w     *Term // the writer
	ctxF  fieldAt
	lvl   *Term // the level logged at
	m     logMethod
	args  []*Term // parameters after the receiver
	entry *ssa.Function
	label string

	onSend   func(s *session, e *Engine, st *State, c *CallEv, ev *Term)
	onReturn func(s *session, e *Engine, st *State, in ssa.Instruction)
	onCall   func(s *session, e *Engine, st *State, c *CallEv) ([]Out, bool)
	onLoad   func(s *session, e *Engine, st *State, addr *Term)
	onStore  func(s *session, e *Engine, st *State, addr, val *Term, in ssa.Instruction)
}

func (r *Run) full(api string) string { return r.P.mod + "/" + api }

// sendName is the full name of Output.Send.
func (r *Run) ifaceMethod(iface, m string) string {
	return "(" + r.P.mod + "/api." + iface + ")." + m
}

// walkLevel advances the level cursor over ancestors whose level is not set.
func (l *loggerRole) walkLevel(e *Engine, st *State, unset int64) *Term {
	cur := st.A["lcur"]
	for i := 0; cur != nil && i < 6; i++ {
		if st.facts.eval(eqTerm(cur, nilTerm)) == yes {
			break
		}
		x := e.load(st, l.level.addr(cur), l.level.v.Type())
		if st.facts.eval(eqTerm(x, intTerm(unset))) != yes {
			break
		}
		cur = e.load(st, l.parent.addr(cur), l.parent.v.Type())
	}
	st.A["lcur"] = cur
	return cur
}

// effLevels are the terms known to be the effective level of the logger.
func (l *loggerRole) effLevels(e *Engine, st *State, lg *Term, unset, off int64) []*Term {
	r := []*Term{effOf(lg)}
	cur := l.walkLevel(e, st, unset)
	if cur == nil {
		return r
	}
	if st.facts.eval(eqTerm(cur, nilTerm)) == yes {
		return append(r, intTerm(off))
	}
	x := e.load(st, l.level.addr(cur), l.level.v.Type())
	if st.facts.eval(eqTerm(x, intTerm(unset))) == no {
		r = append(r, x)
	}
	if cur != lg {
		r = append(r, effOf(cur))
	}
	return r
}

func effOf(lg *Term) *Term { return T.mk("eff", "", nil, lg) }

// walkOutputs advances the outputs cursor over ancestors without outputs.
func (l *loggerRole) walkOutputs(e *Engine, st *State) *Term {
	cur := st.A["ocur"]
	for i := 0; cur != nil && i < 6; i++ {
		if st.facts.eval(eqTerm(cur, nilTerm)) == yes {
			break
		}
		x := e.load(st, l.outputs.addr(cur), l.outputs.v.Type())
		if st.facts.eval(eqTerm(lenTerm(x), intTerm(0))) != yes && st.facts.eval(eqTerm(x, nilTerm)) != yes {
			break
		}
		p := e.load(st, l.parent.addr(cur), l.parent.v.Type())
		if st.facts.eval(eqTerm(p, nilTerm)) == yes {
			break
		}
		cur = p
	}
	st.A["ocur"] = cur
	return cur
}

// sessions lists the logging methods of every writer and of the logger.
func (r *Run) sessions() []*session {
	l := r.logger()
	if l == nil {
		return nil
	}
	var ss []*session
	add := func(t types.Type, w *writerRole) {
		for _, m := range r.logMethods() {
			fn := r.method(t, m.name)
			if fn == nil {
				r.missing("method " + m.name + " of " + t.String())
				continue
			}
			s := &session{r: r, l: l, m: m, entry: fn, label: fn.RelString(nil)}
			if w != nil {
				s.w = obj("writer", t)
				s.ctxF = w.ctx
				s.lg = obj("logger", l.typ)
			} else {
				s.lg = obj("logger", l.typ)
				s.w = obj("writer", l.writers[0].typ)
				s.ctxF = l.writers[0].ctx
			}
			ss = append(ss, s)
		}
	}
	for i := range l.writers {
		add(l.writers[i].typ, &l.writers[i])
	}
	add(l.typ, nil)
	return ss
}

// preset lays out the logger and its writer: the writer belongs to the logger.
func (s *session) preset(st *State) {
	assumeNonNil(st, s.lg, s.w)
	for _, w := range s.l.writers {
		st.heap[w.logger.addr(s.w)] = s.lg
	}
	if types.Identical(s.entry.Params[0].Type(), s.l.typ) {
		for _, f := range fieldsWhere(s.l.typ, func(v *types.Var) bool {
			return s.l.isWriter(v.Type())
		}) {
			st.heap[f.addr(s.lg)] = s.w
		}
	}
	st.A["lcur"] = s.lg
	st.A["ocur"] = s.lg
	st.A["last"] = intTerm(-1)
}

func (l *loggerRole) isWriter(t types.Type) bool {
	for _, w := range l.writers {
		if types.Identical(t, w.typ) {
			return true
		}
	}
	return false
}

// run explores the method.
func (s *session) run() {
	r := s.r
	e := r.engine()
	unset := r.level("Uninitialized")
	send := r.ifaceMethod("Output", "Send")
	e.H.Back = func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) {
		s.l.walkLevel(e, st, unset)
		s.l.walkOutputs(e, st)
	}
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Fn == s.l.levelFn && s.entry != s.l.levelFn && c.Fn != nil {
			return []Out{{Res: effOf(c.Args[0])}}, true
		}
		if c.Name == send {
			if s.onSend != nil {
				s.onSend(s, e, st, c, c.Args[1])
			}
			return []Out{{}}, true
		}
		if s.onCall != nil {
			return s.onCall(s, e, st, c)
		}
		return nil, false
	}
	if s.onLoad != nil {
		e.H.Load = func(e *Engine, st *State, addr *Term, in ssa.Instruction) { s.onLoad(s, e, st, addr) }
	}
	if s.onStore != nil {
		e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) { s.onStore(s, e, st, addr, val, in) }
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if s.onReturn != nil {
			s.onReturn(s, e, st, in)
		}
	}
	recv := s.w
	if types.Identical(s.entry.Params[0].Type(), s.l.typ) {
		recv = s.lg
	}
	e.Entry(s.entry, []*Term{recv}, func(st *State, args []*Term) {
		s.preset(st)
		s.args = args[1:]
		if s.m.level >= 0 {
			s.lvl = intTerm(s.m.level)
		} else {
			s.lvl = args[1]
		}
	})
	r.done(e, s.label)
}

// enabled: the facts entail that the level is at or above the effective one.
func (s *session) enabled(e *Engine, st *State) tri {
	res := unknown
	for _, x := range s.l.effLevels(e, st, s.lg, s.r.level("Uninitialized"), s.r.level("Off")) {
		switch st.facts.eval(lt0(sub(s.lvl, x))) {
		case no:
			return yes
		case yes:
			res = no
		}
	}
	return res
}

// eventField reads a field of the event being sent.
func (s *session) eventField(e *Engine, st *State, ev *Term, name string) *Term {
	evT := s.r.apiType("Event")
	fs := fieldsWhere(evT, func(v *types.Var) bool { return v.Name() == name })
	if len(fs) != 1 {
		s.r.missing("api.Event." + name)
		return nilTerm
	}
	return e.load(st, fs[0].addr(ev), fs[0].v.Type())
}

// effective: the slice and index of the output addressed by a Send.
func (s *session) outputOf(st *State, c *CallEv) (slice, idx *Term) {
	t := c.Args[0]
	if t.Op == "ld" && t.Args[0].Op == "iaddr" {
		return copied(st, t.Args[0].Args[0]), t.Args[0].Args[1]
	}
	return nil, nil
}

func init() {
	register(&Rule{ID: "C01",
		Technique: "path-sensitive dataflow (value numbering + difference bounds) over SSA: level guard dominates every Output.Send",
		Rule:      "from every logging method of every writer type, each call of Output.Send is reached only in states whose facts entail level >= effective level of the logger; every XEnabled method returns exactly that comparison",
		Trusts:    []string{"the effective level is what Logger.Level returns (decided by C02)"},
		Run:       runC01})
	register(&Rule{ID: "C02",
		Technique: "loop-invariant dataflow over SSA: ancestor-walk automaton",
		Rule:      "Logger.Level returns the level of the first logger on the parent chain whose level is set, Off at its end; Output.Send is only called on elements of the outputs of the first logger on the parent chain that has outputs; SetLevel and SetOutputs set the logger's own, and a logger for which nothing is configured starts with neither",
		Run:       runC02})
	register(&Rule{ID: "C03",
		Technique: "typestate (prefix-sent automaton with affine loop index) and value-flow of event fields over SSA",
		Rule:      "on every path of a logging method that is not disabled, Send is called on element 0, 1, ... of the effective outputs in turn until all are done, with an event whose level, format, arguments, name and time flow from the call, and which is not written afterwards",
		Run:       runC03})
	register(&Rule{ID: "C04",
		Technique: "value-flow over SSA: context chain of the event",
		Rule:      "the context of every event sent is the writer's context, extended only under keys of unexported library types; WithFields extends a fresh context with every field in turn, WithCtx keeps the given one, and neither writes to anything but the new writer",
		Run:       runC04})
}

func runC01(r *Run) {
	for _, s := range r.sessions() {
		s.onSend = func(s *session, e *Engine, st *State, c *CallEv, ev *Term) {
			s.r.check(s.enabled(e, st) == yes, "level guard", c.Pos, st, "%s reaches Send with its level known to be at or above the effective level", s.label)
		}
		s.run()
	}
	r.need("level guard", 1)
	l := r.logger()
	if l == nil {
		return
	}
	for _, name := range []string{"Trace", "Debug", "Info", "Warn", "Error", "Critical", ""} {
		m := name + "Enabled"
		lvl := nilTerm
		if name == "" {
			m = "LevelEnabled"
		} else {
			lvl = intTerm(r.level(name))
		}
		fn := r.method(l.typ, m)
		if fn == nil {
			r.missing("method " + m)
			continue
		}
		s := &session{r: r, l: l, lg: obj("logger", l.typ), w: obj("writer", l.writers[0].typ), entry: fn}
		e := r.engine()
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if c.Fn == l.levelFn {
				return []Out{{Res: effOf(c.Args[0])}}, true
			}
			return nil, false
		}
		e.H.Back = func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) {
			l.walkLevel(e, st, r.level("Uninitialized"))
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			good := false
			for _, x := range l.effLevels(e, st, s.lg, r.level("Uninitialized"), r.level("Off")) {
				if equivalent(st, res[0], notTerm(lt0(sub(s.lvl, x)))) {
					good = true
				}
			}
			r.check(good, "enabled answer", in.Pos(), st, "%s returns level >= effective level", m)
		}
		e.Entry(fn, []*Term{s.lg}, func(st *State, args []*Term) {
			s.preset(st)
			s.lvl = lvl
			if name == "" {
				s.lvl = args[1]
			}
		})
		r.done(e, m)
	}
	r.need("enabled answer", 7)
}

// equivalent: two boolean terms agree in every way the state leaves open.
func equivalent(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	for _, v := range []bool{true, false} {
		f := st.facts.clone()
		if !f.assume(a, v) || f.zone().inconsistent() {
			continue
		}
		if f.eval(b) != triOf(v) {
			return false
		}
	}
	return true
}

func runC02(r *Run) {
	l := r.logger()
	if l == nil {
		return
	}
	unset, off := r.level("Uninitialized"), r.level("Off")
	// Level
	lg := obj("logger", l.typ)
	e := r.engine()
	e.H.Back = func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) { l.walkLevel(e, st, unset) }
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Fn == l.levelFn && c.Fn != nil && c.Args[0] != lg {
			return []Out{{Res: effOf(c.Args[0])}}, true
		}
		return nil, false
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		good := false
		for _, x := range l.effLevels(e, st, lg, unset, off)[1:] {
			if st.facts.eval(eqTerm(res[0], x)) == yes {
				good = true
			}
		}
		r.check(good, "level walk", in.Pos(), st, "Level returns %v: the level of the nearest logger that has one", res[0])
	}
	if l.levelFn == nil {
		r.missing("Level")
		return
	}
	e.Entry(l.levelFn, []*Term{lg}, func(st *State, args []*Term) {
		assumeNonNil(st, lg)
		st.A["lcur"] = lg
	})
	r.done(e, "Level")
	r.need("level walk", 2)
	// outputs
	for _, s := range r.sessions() {
		s.onSend = func(s *session, e *Engine, st *State, c *CallEv, ev *Term) {
			sl, _ := s.outputOf(st, c)
			cur := s.l.walkOutputs(e, st)
			good := sl != nil && cur != nil && st.A["S"] == sl
			if !good && sl != nil && cur != nil {
				good = sl == e.load(st, s.l.outputs.addr(cur), s.l.outputs.v.Type())
				st.A["S"] = sl
			}
			s.r.check(good, "output walk", c.Pos, st, "%s sends to the outputs of the nearest logger that has some", s.label)
		}
		s.onReturn = func(s *session, e *Engine, st *State, in ssa.Instruction) {
			if st.A["S"] != nil || s.enabled(e, st) == no {
				return
			}
			cur := s.l.walkOutputs(e, st)
			if cur == nil || st.facts.eval(eqTerm(cur, nilTerm)) == yes {
				// the walk went past the last, finding none
				return
			}
			n := lenTerm(e.load(st, s.l.outputs.addr(cur), s.l.outputs.v.Type()))
			p := e.load(st, s.l.parent.addr(cur), s.l.parent.v.Type())
			s.r.check(st.facts.eval(eqTerm(n, intTerm(0))) == yes && st.facts.eval(eqTerm(p, nilTerm)) == yes, "no outputs", in.Pos(), st, "%s sends nothing only when no ancestor has outputs", s.label)
		}
		s.run()
	}
	r.need("output walk", 1)
	// setters
	set := func(m string, f fieldAt) {
		fn := r.method(l.typ, m)
		if fn == nil {
			r.missing(m)
			return
		}
		e := r.engine()
		e.Havoc = false
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			v := e.load(st, f.addr(lg), f.v.Type())
			p := paramTerm(fn.Params[1].Name(), fn.Params[1].Type())
			good := copied(st, v) == p || v.Op == "appendall" && v.Args[1] == p && (v.Args[0] == nilTerm || st.facts.eval(eqTerm(lenTerm(v.Args[0]), intTerm(0))) == yes)
			r.check(good, "setter", in.Pos(), st, "%s sets the logger's own %s to the given one (is %v)", m, f.v.Name(), v)
		}
		e.Entry(fn, []*Term{lg}, func(st *State, args []*Term) { assumeNonNil(st, lg) })
		r.done(e, m)
	}
	set("SetLevel", l.level)
	set("SetOutputs", l.outputs)
	r.need("setter", 2)
	// nothing else sets them: a new logger has those of the configuration or none
	r.lookups(false)
}

// copied is the slice of which x is a fresh copy.
func copied(st *State, x *Term) *Term {
	for {
		switch {
		case x.Op == "appendall" && (x.Args[0] == nilTerm || (x.Args[0].Op == "list" || isFreshObj(root(x.Args[0]))) && st.facts.eval(eqTerm(lenTerm(x.Args[0]), intTerm(0))) == yes):
			x = x.Args[1]
		case x.Op == "mkslice" && st.heap[copyOf(x)] != nil:
			for k := range st.heap {
				if k.Op == "iaddr" && k.Args[0] == x {
					return x
				}
			}
			x = st.heap[copyOf(x)]
		default:
			return x
		}
	}
}

func runC03(r *Run) {
	for _, s := range r.sessions() {
		s.onSend = func(s *session, e *Engine, st *State, c *CallEv, ev *Term) {
			r := s.r
			sl, idx := s.outputOf(st, c)
			if !r.check(sl != nil, "iteration", c.Pos, st, "%s sends to an element of the outputs", s.label) {
				return
			}
			if st.A["S"] == nil {
				st.A["S"] = sl
			}
			next := add(st.A["last"], intTerm(1))
			good := st.A["S"] == sl && st.facts.eval(eqTerm(idx, next)) == yes
			r.check(good, "each once", c.Pos, st, "%s sends to the outputs one after the other (element %v after %v)", s.label, idx, st.A["last"])
			st.A["last"] = idx
			st.TS[ev] = "sent"
			// the event
			r.check(isFreshObj(root(ev)), "own event", c.Pos, st, "the event %s sends was made for this call, and is not used again while an output may still hold it", s.label)
			is := func(field string, want *Term) {
				got := s.eventField(e, st, ev, field)
				same := got == want || field == "Arguments" && copied(st, got) == want
				r.check(same, "event "+field, c.Pos, st, "the %s of the event sent by %s is %v (must be %v)", field, s.label, got, want)
			}
			is("Level", s.lvl)
			is("Name", e.load(st, s.l.name.addr(s.lg), s.l.name.v.Type()))
			msg := s.args[len(s.args)-1]
			is("Arguments", msg)
			if s.m.fmt {
				is("Format", s.args[len(s.args)-2])
			} else {
				is("Format", strTerm(""))
			}
			tm := s.eventField(e, st, ev, "Time")
			r.check(strings.HasPrefix(tm.Aux, "time.Now@"), "event Time", c.Pos, st, "the time of the event sent by %s is that of the call (%v)", s.label, tm)
		}
		s.onStore = func(s *session, e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if st.TS[root(addr)] == "sent" {
				s.r.bad("event written after Send", in.Pos(), st, "%s writes %v after handing the event out", s.label, addr)
			}
		}
		s.onReturn = func(s *session, e *Engine, st *State, in ssa.Instruction) {
			if s.enabled(e, st) == no {
				s.r.check(st.A["S"] == nil, "disabled", in.Pos(), st, "%s does nothing when the level is disabled", s.label)
				return
			}
			sl := st.A["S"]
			if sl == nil {
				cur := s.l.walkOutputs(e, st)
				if st.facts.eval(eqTerm(cur, nilTerm)) == yes {
					// the walk went past the last, finding none
					return
				}
				sl = e.load(st, s.l.outputs.addr(cur), s.l.outputs.v.Type())
				if st.facts.eval(eqTerm(lenTerm(sl), intTerm(0))) == yes {
					// none: it must be the last of the chain
					p := e.load(st, s.l.parent.addr(cur), s.l.parent.v.Type())
					s.r.check(st.facts.eval(eqTerm(p, nilTerm)) == yes, "no outputs", in.Pos(), st, "%s sends nothing only when no ancestor has outputs", s.label)
					return
				}
			}
			next := add(st.A["last"], intTerm(1))
			s.r.check(st.facts.eval(lt0(sub(next, lenTerm(sl)))) == no, "all sent", in.Pos(), st, "%s returns only after sending to every output", s.label)
		}
		s.run()
	}
	r.need("all sent", 1)
	r.need("each once", 1)
	r.need("disabled", 1)
	r.need("event Level", 13)
}

// libraryKey: a context key no user can produce.
func (r *Run) libraryKey(k *Term) bool {
	if k.Op != "mki" {
		return false
	}
	n, ok := deref(k.Typ).(*types.Named)
	return ok && n.Obj().Pkg() != nil && r.P.IsRepoPkg(n.Obj().Pkg()) && !n.Obj().Exported()
}

func runC04(r *Run) {
	for _, s := range r.sessions() {
		s.onSend = func(s *session, e *Engine, st *State, c *CallEv, ev *Term) {
			ctx := s.eventField(e, st, ev, "Ctx")
			want := e.load(st, s.ctxF.addr(s.w), s.ctxF.v.Type())
			for ctx != want {
				x := ctx
				if x.Op == "mki" {
					x = x.Args[0]
				}
				if x.Op == "call" && x.Aux == "context.WithValue" && s.r.libraryKey(x.Args[1]) {
					ctx = x.Args[0]
					continue
				}
				break
			}
			s.r.check(ctx == want, "event context", c.Pos, st, "the context of the event sent by %s is that of the writer (%v)", s.label, ctx)
		}
		s.onStore = func(s *session, e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			b := root(addr)
			if b == s.w || b == s.lg {
				s.r.bad("writer changed", in.Pos(), st, "%s changes %v", s.label, addr)
			}
		}
		s.run()
	}
	r.need("event context", 1)
	l := r.logger()
	if l == nil {
		return
	}
	lg := obj("logger", l.typ)
	keyF := r.oneField(r.apiType("Field"), "the key", func(v *types.Var) bool { return v.Name() == "Key" })
	valF := r.oneField(r.apiType("Field"), "the value", func(v *types.Var) bool { return v.Name() == "Value" })
	attach := func(m string, ctxOf func(e *Engine, st *State, args []*Term, in ssa.Instruction) *Term) {
		fn := r.method(l.typ, m)
		if fn == nil {
			r.missing(m)
			return
		}
		e := r.engine()
		var as []*Term
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if c.Name == "context.WithValue" && m == "WithFields" {
				next := add(st.A["last"], intTerm(1))
				f := iaddr(as[1], next)
				k := T.mk("mki", "", types.Typ[types.String], e.load(st, keyF.addr(f), keyF.v.Type()))
				v := e.load(st, valF.addr(f), valF.v.Type())
				res := pureCall(c.Name, c.Args)
				base := st.A["ctx"]
				okBase := base == nil && c.Args[0].Op == "call" && c.Args[0].Aux == "context.Background" || base == c.Args[0]
				gk, gv := e.elemField(st, c.Args[1]), e.elemField(st, c.Args[2])
				r.check(okBase && gk == e.elemField(st, k) && gv == e.elemField(st, v), "field attached", c.Pos, st, "WithFields attaches field after field under its own key (%v under %v)", c.Args[2], c.Args[1])
				st.A["last"] = next
				st.A["ctx"] = res
				return []Out{{Res: res}}, true
			}
			return nil, false
		}
		e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if !isFreshObj(root(addr)) {
				r.bad("logger changed", in.Pos(), st, "%s writes to %v", m, addr)
			}
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			w := strip(res[0])
			var role *writerRole
			for i := range l.writers {
				if res[0].Op == "mki" && types.Identical(res[0].Typ, l.writers[i].typ) {
					role = &l.writers[i]
				}
			}
			if !r.check(role != nil && isFreshObj(w), "new writer", in.Pos(), st, "%s returns a new writer (%v)", m, res[0]) {
				return
			}
			r.check(e.load(st, role.logger.addr(w), role.logger.v.Type()) == lg, "writer logger", in.Pos(), st, "the writer of %s logs to its logger", m)
			got := e.load(st, role.ctx.addr(w), role.ctx.v.Type())
			want := ctxOf(e, st, as, in)
			r.check(got == want, "writer context", in.Pos(), st, "the writer of %s carries the attached values (%v)", m, got)
		}
		e.Entry(fn, []*Term{lg}, func(st *State, args []*Term) {
			assumeNonNil(st, lg)
			as = args
			st.A["last"] = intTerm(-1)
		})
		r.done(e, m)
	}
	attach("WithCtx", func(e *Engine, st *State, args []*Term, in ssa.Instruction) *Term { return args[1] })
	attach("WithFields", func(e *Engine, st *State, args []*Term, in ssa.Instruction) *Term {
		next := add(st.A["last"], intTerm(1))
		r.check(st.facts.eval(lt0(sub(next, lenTerm(args[1])))) == no, "all fields", in.Pos(), st, "WithFields attaches every field")
		if st.A["ctx"] == nil {
			return T.mk("call", "context.Background", nil)
		}
		return st.A["ctx"]
	})
	r.need("writer context", 2)
	r.need("field attached", 1)
	// a new logger's own writer
	for _, fn := range r.P.allocators(l.typ) {
		e := r.engine()
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			for k := range st.heap {
				if k.Op != "faddr" || !isFreshObj(k.Args[0]) || fieldVar(k) == nil || !l.isWriter(fieldVar(k).Type()) {
					continue
				}
				w := st.heap[k]
				r.check(e.load(st, l.writers[0].logger.addr(w), l.writers[0].logger.v.Type()) == k.Args[0], "own writer", in.Pos(), st, "the writer built into a logger belongs to it")
			}
		}
		e.Entry(fn, nil, nil)
		r.done(e, fn.String())
	}
	r.need("own writer", 1)
}

// elemField sees through a struct element read as a whole.
func (e *Engine) elemField(st *State, t *Term) *Term {
	if t.Op == "field" && t.Args[0].Op == "ld" {
		return T.mk("ld", "", nil, faddr(t.Args[0].Args[0], int(t.C), fieldVar(t)))
	}
	if t.Op == "mki" {
		return T.mk("mki", "", t.Typ, e.elemField(st, t.Args[0]))
	}
	if t.Op == "ld" {
		return T.mk("ld", "", nil, t.Args...)
	}
	return t
}

var _ = token.NoPos
