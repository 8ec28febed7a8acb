package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// factoryRole is the implementation of api.Factory and what its fields are for.
type factoryRole struct {
	typ     types.Type
	loggers fieldAt // every logger by name
	root    fieldAt // the root logger, v is nil without such a field
	lg      *loggerRole
}

func (r *Run) factory() *factoryRole {
	lg := r.logger()
	if lg == nil {
		return nil
	}
	var f *factoryRole
	for _, t := range r.impls("Factory") {
		if structOf(t) == nil {
			continue
		}
		f = &factoryRole{typ: t, lg: lg}
		f.loggers = r.oneField(t, "the loggers by name", func(v *types.Var) bool {
			m, ok := v.Type().Underlying().(*types.Map)
			return ok && types.Identical(m.Elem(), lg.typ)
		})
		if fs := fieldsWhere(t, func(v *types.Var) bool { return types.Identical(v.Type(), lg.typ) }); len(fs) > 0 {
			f.root = r.oneField(t, "the root logger", func(v *types.Var) bool { return types.Identical(v.Type(), lg.typ) })
		}
	}
	if f == nil {
		r.missing("the factory implementation")
	}
	if len(r.viol) > 0 {
		return nil
	}
	return f
}

var (
	rootName = strTerm("root")
	rootMark = T.mk("rootmark", "", nil)
)

func hasCfg(name *Term) *Term { return T.mk("hascfg", "", nil, name) }
func cfgLvl(name *Term) *Term { return T.mk("cfglvl", "", nil, name) }
func cfgOps(name *Term) *Term { return T.mk("cfgops", "", nil, name) }

// configModel answers GetLoggerOutputs, SetLevel and SetOutputs, whose
// behaviour is decided by other properties.
func (f *factoryRole) configModel(r *Run, e *Engine, st *State, c *CallEv) ([]Out, bool) {
	switch {
	case r.isMethod(c, "Manager", "GetLoggerOutputs"):
		name := st.facts.rep(c.Args[len(c.Args)-1])
		if !name.isConst() {
			name = c.Args[len(c.Args)-1]
		}
		sig := c.Sig.Results()
		typed := func(t *Term, i int) *Term {
			if t.Typ == nil {
				t.Typ = sig.At(i).Type()
			}
			return t
		}
		yes := T.mk("tuple", "", nil, typed(cfgOps(name), 0), typed(cfgLvl(name), 1), nilTerm)
		bad := T.mk("call", "failed", sig.At(2).Type(), name)
		no := T.mk("tuple", "", nil, typed(T.mk("badops", "", nil, name), 0), typed(T.mk("badlvl", "", nil, name), 1), bad)
		return []Out{
			{Res: yes, Assume: []Lit{{hasCfg(name), true}}},
			{Res: no, Assume: []Lit{{hasCfg(name), false}, {eqTerm(bad, nilTerm), false}}},
		}, true
	case r.isMethod(c, "Logger", "SetLevel"):
		lg := strip(c.Args[0])
		e.store(st, c.Frame, c.Instr, f.lg.level.addr(lg), c.Args[1], f.lg.level.v.Type())
		return []Out{{}}, true
	case r.isMethod(c, "Logger", "SetOutputs"):
		lg := strip(c.Args[0])
		e.store(st, c.Frame, c.Instr, f.lg.outputs.addr(lg), c.Args[1], f.lg.outputs.v.Type())
		return []Out{{}}, true
	}
	return nil, false
}

// isMethod: the call is of the method of an api interface, or of an
// implementation of it.
func (r *Run) isMethod(c *CallEv, iface, m string) bool {
	if c.Name == r.ifaceMethod(iface, m) {
		return true
	}
	if c.Fn == nil || c.Fn.Name() != m {
		return false
	}
	for _, t := range r.B.Impls(r.apiType(iface)) {
		if r.method(t, m) == c.Fn {
			return true
		}
	}
	return false
}

func init() {
	register(&Rule{ID: "C17",
		Technique: "inductive-invariant dataflow over SSA: registry automaton (insert-once, configured, linked to the last separator's prefix)",
		Rule:      "GetLogger returns the logger registered under the name, or a new one that it registers where none was; the empty name gives the root; every logger registered bears its name, has asked the manager for its configuration and applied it, and has as parent the logger registered for the prefix before the last '/' or '.', or the root",
		Trusts:    []string{"GetLoggerOutputs answers with the configuration of the name it is given (C21)"},
		Run:       func(r *Run) { r.lookups(true) }})
}

// lookups explores GetLogger from every state of the registry that it leaves
// behind itself.
func (r *Run) lookups(all bool) {
	f := r.factory()
	if f == nil {
		return
	}
	fac := obj("factory", f.typ)
	unset := r.level("Uninitialized")
	reg := func(e *Engine, st *State) *Term { return e.load(st, f.loggers.addr(fac), f.loggers.v.Type()) }
	rootOf := func(e *Engine, st *State) *Term {
		if f.root.v != nil {
			return e.load(st, f.root.addr(fac), f.root.v.Type())
		}
		v, ok := e.mapGet(st, reg(e, st), rootName, f.lg.typ)
		if st.facts.eval(ok) != yes {
			return nilTerm
		}
		return v
	}
	rootSet := func(e *Engine, st *State, fac *Term) tri {
		m := e.load(st, f.loggers.addr(fac), f.loggers.v.Type())
		v, ok := e.mapGet(st, m, rootName, f.lg.typ)
		if f.root.v == nil {
			return st.facts.eval(ok)
		}
		rt := e.load(st, f.root.addr(fac), f.root.v.Type())
		isNil := st.facts.eval(eqTerm(rt, nilTerm))
		switch {
		case isNil == no && st.facts.eval(ok) == yes && v == rt:
			return yes
		case isNil == yes && st.facts.eval(ok) == no:
			return no
		}
		return unknown
	}
	// the states a factory may be found in: as built, and as left by a lookup
	lazy, eager := false, false
	for _, fn := range r.P.allocators(f.typ) {
		e := r.engine()
		e.Havoc = false
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) { return f.configModel(r, e, st, c) }
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			if len(res) == 0 || !isFreshObj(strip(res[0])) {
				return
			}
			switch rootSet(e, st, strip(res[0])) {
			case yes:
				eager = true
			case no:
				lazy = true
			default:
				if all {
					r.bad("root registered", in.Pos(), st, "%s leaves the root logger unregistered", fn)
				}
			}
		}
		e.Entry(fn, nil, func(st *State, args []*Term) { assumeNonNil(st, args...) })
		r.done(e, fn.String())
	}
	get := r.method(f.typ, "GetLogger")
	if get == nil {
		r.missing("GetLogger")
		return
	}
	near := func(e *Engine, st *State) *Term {
		if n := st.A["near"]; n != nil {
			return n
		}
		return rootMark
	}
	explore := func(withRoot bool) {
		e := r.engine()
		e.Havoc = false
		var name *Term
		sep := func(st *State, i *Term) tri {
			res := no
			for _, c := range []int64{'/', '.'} {
				q := unknown
				for k := range st.facts {
					if x := k.find(func(t *Term) bool {
						return t.Op == "index" && t.Args[0] == name && t.Args[1] == i
					}); x != nil {
						q = st.facts.eval(eqTerm(x, intTerm(c)))
						break
					}
				}
				if q == yes {
					return yes
				}
				if q == unknown {
					res = unknown
				}
			}
			return res
		}
		// settle checks the loggers registered in the course of the current step
		settle := func(e *Engine, st *State, pos token.Pos, depth int) {
			var objs []*Term
			for v, s := range st.TS {
				if strings.HasPrefix(s, "new") && len(s)-3 >= depth {
					objs = append(objs, v)
				}
			}
			for _, v := range objs {
				delete(st.TS, v)
				key := st.heap[T.mk("keyof", "", nil, v)]
				link := st.heap[T.mk("nearof", "", nil, v)]
				if key == nil {
					continue
				}
				isRoot := rootOf(e, st) == v
				lvl := e.load(st, f.lg.level.addr(v), f.lg.level.v.Type())
				ops := e.load(st, f.lg.outputs.addr(v), f.lg.outputs.v.Type())
				switch st.facts.eval(hasCfg(key)) {
				case yes:
					r.check(lvl == cfgLvl(key) && ops == cfgOps(key), "configured", pos, st, "a new logger takes the level and outputs configured for its name (level %v, outputs %v)", lvl, ops)
				case no:
					r.check(isRoot || lvl == intTerm(unset) && (ops == nilTerm || st.facts.eval(eqTerm(lenTerm(ops), intTerm(0))) == yes), "unconfigured", pos, st, "a new logger without configuration has neither a level nor outputs of its own (level %v, outputs %v)", lvl, ops)
				default:
					if all {
						r.bad("configured", pos, st, "a logger comes into being without asking for its configuration")
					}
				}
				if !all {
					continue
				}
				r.check(e.load(st, f.lg.name.addr(v), f.lg.name.v.Type()) == key, "named", pos, st, "a logger bears the name it is registered under (%v)", key)
				p := e.load(st, f.lg.parent.addr(v), f.lg.parent.v.Type())
				if isRoot {
					r.check(p == nilTerm, "root link", pos, st, "the root has no parent (%v)", p)
					continue
				}
				want := link
				if want == rootMark {
					want = rootOf(e, st)
				}
				r.check(p == want && want != nilTerm, "linked", pos, st, "the parent of %v is its nearest ancestor %v (is %v)", key, want, p)
			}
		}
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if c.Name == "builtin.delete" && c.Args[0] == reg(e, st) {
				r.bad("registered once", c.Pos, st, "a logger is taken out of the registry")
			}
			return f.configModel(r, e, st, c)
		}
		e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if !all {
				return
			}
			if addr == f.loggers.addr(fac) {
				r.bad("registered once", in.Pos(), st, "the registry is replaced")
			}
			if f.root.v != nil && addr == f.root.addr(fac) {
				rt := e.load(st, addr, f.root.v.Type())
				r.check(st.facts.eval(eqTerm(rt, nilTerm)) == yes, "root once", in.Pos(), st, "the root is set only where there is none")
			}
			if v := fieldVar(addr); addr.Op == "faddr" && (v == f.lg.parent.v || v == f.lg.name.v) && !isFreshObj(root(addr)) {
				r.bad("linked", in.Pos(), st, "the %s of a logger already handed out changes", v.Name())
			}
		}
		e.H.MapUpd = func(e *Engine, st *State, m, k, v *Term, in ssa.Instruction) {
			if m != reg(e, st) {
				return
			}
			if kk := st.facts.rep(k); kk.isConst() {
				k = kk
			}
			_, ok := e.mapGet(st, m, k, f.lg.typ)
			if all {
				r.check(st.facts.eval(ok) == no, "registered once", in.Pos(), st, "a logger is registered only under a name that has none (%v)", k)
				r.check(isFreshObj(v), "new logger", in.Pos(), st, "a new logger is registered (%v)", v)
				if k == name {
					at := st.A["pos"]
					if at == intTerm(0) {
						at = intTerm(1) // a separator in front ends no name
					}
					r.check(at == intTerm(-1) || st.facts.eval(lt0(sub(at, lenTerm(name)))) == no, "whole name", in.Pos(), st, "the name is searched for separators to its end")
				}
			}
			d := len(st.frames)
			st.TS[v] = "new" + strings.Repeat(".", d)
			st.heap[T.mk("keyof", "", nil, v)] = k
			st.heap[T.mk("nearof", "", nil, v)] = near(e, st)
		}
		e.H.Next = func(e *Engine, st *State, coll, k, v, ok *Term, in ssa.Instruction) {
			if coll != name {
				return
			}
			if ok == falseTerm {
				st.A["pos"] = intTerm(-1) // all done
				delete(st.A, "cur")
			} else {
				st.A["cur"] = k
			}
		}
		e.H.Back = func(e *Engine, st *State, fr *Frame, head *ssa.BasicBlock) {
			depth := 0
			for i, g := range st.frames {
				if g == fr {
					depth = i + 1
				}
			}
			settle(e, st, fr.fn.Pos(), depth)
			i, runes := st.A["cur"], true
			if i == nil {
				i, runes = st.A["pos"], false
				if i == intTerm(-1) {
					return
				}
			}
			compared := func(i *Term) bool {
				for k := range st.facts {
					if k.find(func(t *Term) bool { return t.Op == "index" && t.Args[0] == name && t.Args[1] == i }) != nil {
						return true
					}
				}
				return false
			}
			met := compared(i)
			if !met && !runes && i == intTerm(0) && compared(intTerm(1)) {
				i, met = intTerm(1), true // a separator in front ends no name
			}
			if !met {
				if runes && all {
					r.bad("separator", fr.fn.Pos(), st, "a character of the name is passed over without being compared to the separators")
				}
				return
			}
			prefix := sliceTerm(name, intTerm(0), i)
			switch sep(st, i) {
			case yes:
				empty := st.facts.eval(eqTerm(prefix, strTerm("")))
				if empty == unknown {
					switch {
					case st.facts.eval(eqTerm(i, intTerm(0))) == yes:
						empty = yes
					case st.facts.eval(lt0(sub(intTerm(0), i))) == yes || st.facts.eval(eqTerm(i, intTerm(0))) == no:
						empty = no
					}
				}
				if empty == yes {
					break
				}
				x, ok := e.mapGet(st, reg(e, st), prefix, f.lg.typ)
				if all {
					r.check(empty == no && st.facts.eval(ok) == yes, "ancestor", fr.fn.Pos(), st, "every ancestor of the name has its logger")
				}
				st.A["near"] = x
			case unknown:
				if all {
					r.bad("separator", fr.fn.Pos(), st, "both '/' and '.' separate the components of a name")
				}
			}
			delete(st.A, "cur")
			if !runes {
				st.A["pos"] = add(i, intTerm(1))
			}
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			settle(e, st, in.Pos(), 0)
			if !all {
				return
			}
			r.check(rootSet(e, st, fac) != unknown, "root registered", in.Pos(), st, "the root is registered under its name")
			got := strip(res[0])
			isEmpty, isRoot := st.facts.eval(eqTerm(name, strTerm(""))), st.facts.eval(eqTerm(name, rootName))
			if isEmpty == yes || isRoot == yes {
				r.check(got == rootOf(e, st) && got != nilTerm, "root lookup", in.Pos(), st, "the empty name and %q give the root (%v)", "root", got)
				return
			}
			if !r.check(isEmpty == no, "root lookup", in.Pos(), st, "the empty name is told apart") {
				return
			}
			x, ok := e.mapGet(st, reg(e, st), name, f.lg.typ)
			r.check(st.facts.eval(ok) == yes && x == got, "lookup", in.Pos(), st, "GetLogger returns the logger registered under the name (%v)", got)
		}
		e.Entry(get, []*Term{fac}, func(st *State, args []*Term) {
			assumeNonNil(st, fac)
			name = args[1]
			st.A["name"] = name
			st.A["pos"] = intTerm(0)
			m := T.mk("param", "loggers", f.loggers.v.Type())
			st.heap[f.loggers.addr(fac)] = m
			assumeNonNil(st, m)
			if withRoot {
				rt := obj("root", f.lg.typ)
				assumeNonNil(st, rt)
				st.heap[maddr(m, rootName)] = rt
				if f.root.v != nil {
					st.heap[f.root.addr(fac)] = rt
				}
			} else {
				st.heap[maddr(m, rootName)] = T.mk("absent", "", nil)
				if f.root.v != nil {
					st.heap[f.root.addr(fac)] = nilTerm
				}
			}
		})
		r.done(e, get.String())
	}
	if lazy || !eager {
		explore(false)
	}
	explore(true)
	r.need("configured", 1)
	r.need("unconfigured", 1)
	if all {
		for _, k := range []string{"named", "linked", "registered once", "lookup", "root lookup", "ancestor"} {
			r.need(k, 1)
		}
	}
}
