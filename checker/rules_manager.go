package main

import (
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// managerRole is the implementation of api.Manager and what its fields are for.
type managerRole struct {
	typ     types.Type
	config  fieldAt
	formats fieldAt   // formatters by name
	outputs fieldAt   // outputs by name
	others  []fieldAt // lists of further outputs
	notify  fieldAt   // who is told of a new configuration
	told    types.Type
}

func (r *Run) manager() *managerRole {
	cfgT, outT, fmtT := r.apiType("Config"), r.apiType("Output"), r.apiType("Formatter")
	if cfgT == nil || outT == nil || fmtT == nil {
		return nil
	}
	var m *managerRole
	for _, t := range r.impls("Manager") {
		if structOf(t) == nil {
			continue
		}
		m = &managerRole{typ: t}
		m.config = r.oneField(t, "the configuration", func(v *types.Var) bool { return types.Identical(deref(v.Type()), cfgT) })
		mapOf := func(el types.Type) func(v *types.Var) bool {
			return func(v *types.Var) bool {
				mt, ok := v.Type().Underlying().(*types.Map)
				return ok && types.Identical(mt.Elem(), el)
			}
		}
		m.formats = r.oneField(t, "the formatters by name", mapOf(fmtT))
		m.outputs = r.oneField(t, "the outputs by name", mapOf(outT))
		m.others = fieldsWhere(t, func(v *types.Var) bool {
			s, ok := v.Type().Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), outT)
		})
		m.notify = r.oneField(t, "the parties told of a new configuration", func(v *types.Var) bool {
			s, ok := v.Type().Underlying().(*types.Slice)
			if !ok || types.Identical(s.Elem(), outT) {
				return false
			}
			for _, f := range r.impls("Factory") {
				if i, ok := s.Elem().Underlying().(*types.Interface); ok && types.Implements(f, i) || types.Identical(s.Elem(), f) {
					m.told = s.Elem()
					return true
				}
			}
			return false
		})
	}
	if m == nil {
		r.missing("the manager implementation")
	}
	if len(r.viol) > 0 {
		return nil
	}
	return m
}

// cfgField is a field of api.Config, by its public name.
func (r *Run) cfgField(e *Engine, st *State, cfg *Term, name string) *Term {
	f := r.oneField(r.apiType("Config"), name, func(v *types.Var) bool { return v.Name() == name })
	if f.v == nil {
		return nilTerm
	}
	return e.load(st, f.addr(cfg), f.v.Type())
}

// cfgOf models the lookup of a definition in a configuration (decided once
// by lookupsOfConfig).
func (r *Run) cfgOf(c *CallEv) ([]Out, bool) {
	if c.Fn == nil || c.Fn.Pkg == nil || len(c.Args) != 2 {
		return nil, false
	}
	for _, k := range []string{"Format", "Output", "Logger"} {
		if c.Fn == r.method(types.NewPointer(r.apiType("Config")), "GetCfg"+k) {
			t := defOf(k, c.Args[0], c.Args[1], c.Sig.Results().At(0).Type())
			name := c.Args[1]
			isNil := eqTerm(t, nilTerm)
			return []Out{
				{Res: t, Assume: []Lit{{isNil, false}}, Do: func(st *State) {
					if k == "Logger" {
						f := fieldsWhere(r.apiType("CfgLogger"), func(v *types.Var) bool { return v.Name() == "Name" })
						if len(f) == 1 {
							st.heap[f[0].addr(t)] = name
						}
						return
					}
					st.heap[maddr(t, strTerm("name"))] = name
				}},
				{Res: nilTerm, Assume: []Lit{{isNil, true}}},
			}, true
		}
	}
	return nil, false
}

func defOf(kind string, cfg, name *Term, t types.Type) *Term {
	d := T.mk("defof", kind, t, cfg, name)
	if d.Typ == nil {
		d.Typ = t
	}
	return d
}

func (r *Run) def(kind string, cfg, name *Term) *Term {
	return defOf(kind, cfg, name, r.cfgType(kind))
}

func (r *Run) cfgType(kind string) types.Type {
	t := r.apiType("Cfg" + kind)
	if kind == "Logger" {
		return types.NewPointer(t)
	}
	return t
}

// same is the atom that two definitions are equal.
func same(a, b *Term) *Term {
	a, b = strip(a), strip(b)
	if a == b {
		return trueTerm
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk("same", "", nil, a, b)
}

func sameModel(st *State, c *CallEv) ([]Out, bool) {
	if c.Name == "reflect.DeepEqual" || c.Name == "maps.Equal" {
		a, b := st.facts.eval(eqTerm(strip(c.Args[0]), nilTerm)), st.facts.eval(eqTerm(strip(c.Args[1]), nilTerm))
		if c.Name == "reflect.DeepEqual" && (a == yes && b == no || a == no && b == yes) {
			return []Out{{Res: falseTerm}}, true
		}
		return []Out{{Res: same(c.Args[0], c.Args[1])}}, true
	}
	return nil, false
}

func init() {
	register(&Rule{ID: "C18",
		Technique: "effect analysis along every path over SSA (no effect before an error), value flow of the decoded configuration, bounds of every string operation",
		Rule:      "on every path of LoadConfigFile, LoadConfig and SetConfig that returns an error nothing outside the call is written and nobody is notified; success is returned only when the configuration in force is the one given, decoded without error from the bytes given (those of the file read) by the decoder of its type; no panic is reachable and every index is in bounds",
		Trusts:    []string{"the JSON and YAML decoders report malformed text and do not panic"},
		Run:       runC18})
	register(&Rule{ID: "C19",
		Technique: "inductive validation automaton over SSA (set membership facts per element)",
		Rule:      "a configuration is put in force only in states where every format, output and logger in turn was found absent from the set of names before it and added to it, every output's format name is in the set of formats and every output name of every logger in the set of outputs",
		Run:       runC19})
	register(&Rule{ID: "C20",
		Technique: "loop-automaton and value-flow analysis over SSA: notification and cache invalidation",
		Rule:      "setting a configuration puts it in force and then notifies every listener; the factory is a listener and applies the configuration of each registered logger to it; of the cached formatters and outputs only those whose definition, and format definition, is equal in both configurations are kept",
		Run:       runC20})
	register(&Rule{ID: "C21",
		Technique: "ownership and typestate dataflow over SSA (created -> formatter set -> registered -> closed)",
		Rule:      "an output or formatter is created only under a name that has none, from the definition of that name, is given its formatter before anyone sees it and is registered on every path; GetLoggerOutputs returns, without error, exactly the registered outputs named, in order; Close closes every element of every collection of outputs, and nothing leaves a collection without being closed or moved to another",
		Run:       runC21})
}

// ---- C19

type validation struct {
	r    *Run
	cfg  *Term
	good bool
	at   map[string][]*ssa.BasicBlock // where the names of a kind are added
}

// kinds of definitions, by the field of api.Config.
var cfgKinds = []string{"Formats", "Outputs", "Loggers"}

const refs = " references"

// cfgObligations: the names are distinct and the references defined.
var cfgObligations = []string{"Formats", "Outputs", "Outputs" + refs, "Loggers", "Loggers" + refs}

func (v *validation) start(st *State, cfg *Term) {
	v.cfg = cfg
	st.A["cfg"] = cfg
}

func (v *validation) elem(e *Engine, st *State, kind string) *Term {
	return iaddr(v.r.cfgField(e, st, st.A["cfg"], strings.TrimSuffix(kind, refs)), orInt(st.A[kind]))
}

// field reads a named property of the current element of a kind.
func (v *validation) field(e *Engine, st *State, kind, key string) *Term {
	el := v.elem(e, st, kind)
	kind = strings.TrimSuffix(kind, refs)
	if kind == "Loggers" {
		f := fieldsWhere(v.r.apiType("CfgLogger"), func(x *types.Var) bool { return x.Name() == key })
		if len(f) != 1 {
			return nilTerm
		}
		return e.load(st, f[0].addr(el), f[0].v.Type())
	}
	t := v.r.apiType("Cfg" + strings.TrimSuffix(kind, "s"))
	m := e.load(st, el, t)
	x, _ := e.mapGet(st, m, strTerm(strings.ToLower(key)), types.Typ[types.String])
	return x
}

// member: the name is known to be in the set built for a kind.
func (v *validation) member(e *Engine, st *State, kind string, name *Term) bool {
	if set := st.A["set:"+kind]; set != nil && set != nilTerm {
		x, ok := e.mapGet(st, set, name, types.Typ[types.Bool])
		if st.facts.eval(ok) == yes || st.facts.eval(x) == yes {
			return true
		}
	}
	d := v.r.def(strings.TrimSuffix(kind, "s"), st.A["cfg"], name)
	return st.facts.eval(eqTerm(d, nilTerm)) == no
}

// around: the loop of head is one that adds names of a kind.
func (v *validation) around(k string, head *ssa.BasicBlock) tri {
	res := unknown
	for _, b := range v.at[k] {
		if b.Parent() == head.Parent() {
			if head.Dominates(b) {
				return yes
			}
			res = no
		}
	}
	return res
}

// step advances over the elements that are fully checked, at the end of an
// iteration of the loop of head, if given.
func (v *validation) step(e *Engine, st *State, head *ssa.BasicBlock) {
	for _, k := range cfgObligations {
		if st.A["full:"+k] != nil {
			continue
		}
		kind := strings.TrimSuffix(k, refs)
		n := orInt(st.A[k])
		if l := v.r.cfgField(e, st, st.A["cfg"], kind); st.facts.eval(lt0(sub(n, lenTerm(l)))) == no {
			st.A["full:"+k] = trueTerm
			delete(st.A, k)
			delete(st.A, "ins:"+k)
			delete(st.A, "j")
			switch {
			case k == "Outputs"+refs:
				v.forget(st, "Formats")
			case k == "Loggers"+refs:
				v.forget(st, "Outputs")
			default:
				v.forget(st, k)
			}
			continue
		}
		switch k {
		case "Outputs" + refs:
			if !v.member(e, st, "Formats", v.field(e, st, k, "format")) {
				continue
			}
		case "Loggers" + refs:
			j := orInt(st.A["j"])
			ops := v.field(e, st, k, "OutputNames")
			for i := 0; i < 3; i++ {
				nm := e.load(st, iaddr(ops, j), types.Typ[types.String])
				if st.facts.eval(lt0(sub(j, lenTerm(ops)))) == no || !v.member(e, st, "Outputs", nm) {
					break
				}
				j = add(j, intTerm(1))
				st.A["j"] = j
			}
			if st.facts.eval(lt0(sub(j, lenTerm(ops)))) != no {
				continue
			}
			delete(st.A, "j")
		default:
			if st.A["ins:"+k] == nil || head != nil && v.around(k, head) == no {
				continue
			}
			delete(st.A, "ins:"+k)
		}
		st.A[k] = add(n, intTerm(1))
	}
}

// forget drops a set of names that nothing is left to be looked up in.
func (v *validation) forget(st *State, k string) {
	user := map[string]string{"Formats": "Outputs", "Outputs": "Loggers"}[k]
	if st.A["full:"+k] != nil && (user == "" || st.A["full:"+user+refs] != nil) {
		delete(st.A, "set:"+k)
	}
}

func (v *validation) inserted(e *Engine, st *State, m, key, val *Term, in ssa.Instruction) {
	if !isFreshObj(root(m)) {
		return
	}
	v.step(e, st, nil)
	for _, k := range cfgKinds {
		set := st.A["set:"+k]
		if st.A["full:"+k] == nil && (set == nil || set == m) && e.elemField(st, key) == e.elemField(st, v.field(e, st, k, "Name")) {
			x, has := e.mapGet(st, m, key, types.Typ[types.Bool])
			absent := st.facts.eval(has) == no
			if val == trueTerm && st.facts.eval(x) == no {
				absent = true // every value is true
			}
			if absent {
				st.A["set:"+k] = m
				st.A["ins:"+k] = trueTerm
				if b := in.Block(); !slices.Contains(v.at[k], b) {
					v.at[k] = append(v.at[k], b)
				}
			}
			continue
		}
		if set == m {
			st.A["set:"+k] = nilTerm // holds other names than those defined
		}
	}
}

func (v *validation) accepted(e *Engine, st *State) string {
	v.step(e, st, nil)
	for _, k := range cfgObligations {
		if st.A["full:"+k] == nil {
			return k
		}
	}
	return ""
}

func runC19(r *Run) {
	if m := r.manager(); m != nil {
		r.validated(m)
	}
}

// validated: a configuration is put in force only once it is found valid.
func (r *Run) validated(m *managerRole) {
	mgr := obj("manager", m.typ)
	for _, entry := range []string{"SetConfig", "LoadConfig"} {
		fn := r.method(m.typ, entry)
		if fn == nil {
			r.missing(entry)
			continue
		}
		v := &validation{r: r, at: map[string][]*ssa.BasicBlock{}}
		e := r.engine()
		e.Havoc = false
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if isDecode(c) {
				v.start(st, strip(c.Args[1]))
				return nil, false
			}
			if x, ok := sameModel(st, c); ok {
				return x, ok
			}
			return r.cfgOf(c)
		}
		e.H.KeepFact = func(t *Term) bool { return !t.contains(mgr) || t.Op == "eq" }
		e.H.MapUpd = func(e *Engine, st *State, mm, k, val *Term, in ssa.Instruction) {
			if st.A["cfg"] != nil {
				v.inserted(e, st, mm, k, val, in)
			}
		}
		e.H.Back = func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) {
			if st.A["cfg"] != nil {
				v.step(e, st, head)
			}
		}
		e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr != m.config.addr(mgr) {
				return
			}
			ok := st.A["cfg"] != nil && val == st.A["cfg"]
			r.check(ok, "configuration", in.Pos(), st, "%s puts the given configuration in force (%v)", entry, val)
			if ok {
				miss := v.accepted(e, st)
				r.check(miss == "", "accepted", in.Pos(), st, "%s puts a configuration in force only after every element of each kind is checked (not all of %s)", entry, miss)
			}
			e.dead = true // what follows does not matter here
		}
		e.Entry(fn, []*Term{mgr}, func(st *State, args []*Term) {
			assumeNonNil(st, mgr)
			if entry == "SetConfig" {
				assumeNonNil(st, args[1])
				v.start(st, args[1])
			}
		})
		r.done(e, entry)
	}
	r.need("accepted", 1)
}

// isDecode: the call decodes text into a value.
func isDecode(c *CallEv) bool {
	switch {
	case len(c.Args) == 2 && c.Name == "encoding/json.Unmarshal":
		return true
	case len(c.Args) == 2 && strings.Contains(c.Name, "yaml") && strings.HasPrefix(c.Name[strings.LastIndex(c.Name, ".")+1:], "Unmarshal"):
		return true
	}
	return false
}

// ---- C18

func runC18(r *Run) {
	m := r.manager()
	if m == nil {
		return
	}
	mgr := obj("manager", m.typ)
	for _, entry := range []string{"SetConfig", "LoadConfig", "LoadConfigFile"} {
		fn := r.method(m.typ, entry)
		if fn == nil {
			r.missing(entry)
			continue
		}
		e := r.engine()
		e.Havoc = false
		dirty := func(st *State, what string, pos token.Pos) {
			st.A["dirty"] = strTerm(what + " at " + r.P.Pos(pos))
		}
		var args []*Term
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if strings.HasPrefix(c.Name, "builtin.") {
				if c.Name == "builtin.delete" && !isFreshObj(root(c.Args[0])) {
					dirty(st, "an entry is deleted", c.Pos)
				}
				return nil, false
			}
			if isDecode(c) {
				kind, want := "json", []string{"json"}
				if strings.Contains(c.Name, "yaml") {
					kind, want = "yaml", []string{"yaml", "yml"}
				}
				good := false
				for k, val := range st.facts {
					if !val || k.Op != "eq" {
						continue
					}
					for _, w := range want {
						if k.Args[0] == strTerm(w) || k.Args[1] == strTerm(w) {
							good = true
						}
					}
				}
				r.check(good, "decoder", c.Pos, st, "%s text is decoded as %s", kind, kind)
				from := args[1]
				if entry == "LoadConfigFile" {
					from = st.A["content"]
				}
				r.check(c.Args[0] == from, "decoded text", c.Pos, st, "%s decodes the text it is given (%v)", entry, c.Args[0])
				cfg := strip(c.Args[1])
				r.check(isFreshObj(cfg), "decoded into", c.Pos, st, "%s decodes into a configuration of its own (%v)", entry, cfg)
				st.A["cfg"] = cfg
				err := e.fresh(st, c.Frame, c.Instr, "decode", c.Sig.Results().At(0).Type())
				st.A["err"] = err
				st.heap[markOf(cfg)] = T.mkFull("sym", e.siteName(c.Frame, c.Instr, "decoded"), nil, nil, nil, 0, nil)
				return []Out{{Res: err, Assume: []Lit{{eqTerm(err, nilTerm), true}}},
					{Res: err, Assume: []Lit{{eqTerm(err, nilTerm), false}}}}, true
			}
			if c.Name == "os.ReadFile" || c.Name == "io/ioutil.ReadFile" {
				r.check(entry == "LoadConfigFile" && c.Args[0] == args[1], "file", c.Pos, st, "the file named is read (%v)", c.Args[0])
				bs := e.fresh(st, c.Frame, c.Instr, "content", types.NewSlice(types.Typ[types.Byte]))
				err := e.fresh(st, c.Frame, c.Instr, "readerr", c.Sig.Results().At(1).Type())
				st.A["content"], st.A["readerr"] = bs, err
				res := T.mk("tuple", "", nil, bs, err)
				return []Out{{Res: res, Assume: []Lit{{eqTerm(err, nilTerm), true}}},
					{Res: res, Assume: []Lit{{eqTerm(err, nilTerm), false}}}}, true
			}
			if r.toldOf(m, c) {
				dirty(st, "a listener is notified", c.Pos)
				return []Out{{}}, true
			}
			if c.Name == r.ifaceMethod("Output", "Close") || c.Name == "dynamic" {
				dirty(st, c.Name+" is called", c.Pos)
			}
			if x, ok := sameModel(st, c); ok {
				return x, ok
			}
			return r.cfgOf(c)
		}
		e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if !isFreshObj(root(addr)) {
				dirty(st, addr.String()+" is written", in.Pos())
			}
		}
		e.H.MapUpd = func(e *Engine, st *State, mm, k, val *Term, in ssa.Instruction) {
			if !isFreshObj(root(mm)) {
				dirty(st, "a table is written", in.Pos())
			}
		}
		e.H.Go = func(e *Engine, st *State, c *CallEv) { dirty(st, "a goroutine is started", c.Pos) }
		e.H.Panic = func(e *Engine, st *State, val *Term, in ssa.Instruction) {
			r.bad("panic", in.Pos(), st, "%s can panic", entry)
		}
		e.H.Bounds = func(e *Engine, st *State, at, n *Term, incl bool, in ssa.Instruction) {
			lim := sub(at, n)
			if incl {
				lim = sub(lim, intTerm(1))
			}
			good := st.facts.eval(lt0(lim)) == yes && st.facts.eval(lt0(at)) == no
			r.check(good, "index", in.Pos(), st, "index %v of %v is in bounds", at, n)
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			err := res[len(res)-1]
			ok := st.facts.eval(eqTerm(err, nilTerm))
			if ok != yes {
				r.check(ok == no || st.A["dirty"] == nil, "certain", in.Pos(), st, "%s knows whether it succeeded", entry)
				what := ""
				if d := st.A["dirty"]; d != nil {
					what = d.Aux
				}
				r.check(st.A["dirty"] == nil, "error leaves everything", in.Pos(), st, "%s returns an error only before any effect (%s)", entry, what)
			}
			if ok != no {
				want := args[1]
				if entry != "SetConfig" {
					want = st.A["cfg"]
				}
				got := e.load(st, m.config.addr(mgr), m.config.v.Type())
				r.check(want != nil && got == want, "in force", in.Pos(), st, "%s succeeds only with the given configuration in force (%v)", entry, got)
				for _, k := range []string{"err", "readerr"} {
					if x := st.A[k]; x != nil {
						r.check(st.facts.eval(eqTerm(x, nilTerm)) == yes, "read and parsed", in.Pos(), st, "%s succeeds only if reading and parsing did", entry)
					}
				}
				if entry != "SetConfig" {
					r.check(st.A["err"] != nil, "read and parsed", in.Pos(), st, "%s succeeds only after parsing", entry)
				}
				if entry == "LoadConfigFile" {
					r.check(st.A["readerr"] != nil, "read and parsed", in.Pos(), st, "%s succeeds only after reading", entry)
				}
			}
		}
		e.Entry(fn, []*Term{mgr}, func(st *State, as []*Term) {
			assumeNonNil(st, mgr)
			if entry == "SetConfig" {
				assumeNonNil(st, as[1])
			}
			args = as
		})
		r.done(e, entry)
	}
	r.validated(m)
	for _, k := range []string{"error leaves everything", "in force", "decoder", "read and parsed"} {
		r.need(k, 1)
	}
}

// toldOf: the call tells a listener of a new configuration.
func (r *Run) toldOf(m *managerRole, c *CallEv) bool {
	if len(c.Args) == 0 {
		return false
	}
	if strings.HasPrefix(c.Name, "(") && m.told != nil {
		if i, ok := m.told.Underlying().(*types.Interface); ok {
			for k := 0; k < i.NumMethods(); k++ {
				if c.Name == "("+types.TypeString(m.told, nil)+")."+i.Method(k).Name() {
					return true
				}
				if c.Fn != nil {
					for _, t := range r.impls("Factory") {
						if c.Fn == r.method(t, i.Method(k).Name()) {
							return true
						}
					}
				}
			}
		}
	}
	if c.Fn != nil && c.Fn.Signature.Recv() != nil {
		for _, t := range r.impls("Factory") {
			if types.Identical(c.Fn.Signature.Recv().Type(), t) {
				return true
			}
		}
	}
	return false
}

// ---- C20

func runC20(r *Run) {
	m := r.manager()
	f := r.factory()
	if m == nil || f == nil {
		return
	}
	mgr := obj("manager", m.typ)
	// a new configuration is announced to every listener, once in force
	fn := r.method(m.typ, "SetConfig")
	if fn == nil {
		r.missing("SetConfig")
		return
	}
	e := r.engine()
	e.Havoc = false
	var cfg *Term
	list := func(e *Engine, st *State) *Term { return e.load(st, m.notify.addr(mgr), m.notify.v.Type()) }
	old := func(e *Engine, st *State) *Term { return st.A["old"] }
	str := types.Typ[types.String]
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if r.toldOf(m, c) {
			el := c.Args[0]
			n := orInt(st.A["n"])
			good := el.Op == "ld" && el.Args[0] == iaddr(list(e, st), n)
			r.check(good, "listener", c.Pos, st, "every listener is notified in turn (%v)", el)
			r.check(e.load(st, m.config.addr(mgr), m.config.v.Type()) == cfg, "announced in force", c.Pos, st, "listeners are notified once the configuration is in force")
			st.A["n"] = add(n, intTerm(1))
			return []Out{{}}, true
		}
		if c.Name == r.ifaceMethod("Output", "Close") {
			return []Out{{}}, true
		}
		if x, ok := sameModel(st, c); ok {
			return x, ok
		}
		return r.cfgOf(c)
	}
	done := func(st *State, what string) {
		st.A["done:"+what] = trueTerm
	}
	// kept decides whether a cached object may stay
	kept := func(e *Engine, st *State, coll fieldAt, k *Term, pos token.Pos) {
		x, ok := e.mapGet(st, e.load(st, coll.addr(mgr), coll.v.Type()), k, coll.v.Type().Underlying().(*types.Map).Elem())
		_ = x
		if st.facts.eval(ok) == no {
			r.ok("dropped", pos, "a changed definition is dropped from %s", coll.v.Name())
			return
		}
		kind := "Format"
		if coll.v == m.outputs.v {
			kind = "Output"
		}
		a, b := r.def(kind, old(e, st), k), r.def(kind, cfg, k)
		eq := func(kind string, x, y *Term) bool {
			return st.facts.eval(same(x, y)) == yes
		}
		nilOf := func(t *Term) bool { return st.facts.eval(eqTerm(t, nilTerm)) == yes }
		sameDef := func(kind string, a, b *Term) bool {
			return eq(kind, a, b) || nilOf(b) && nilOf(a)
		}
		good := sameDef(kind, a, b)
		if good && kind == "Output" {
			if !nilOf(b) {
				fname, _ := e.mapGet(st, b, strTerm("format"), str)
				fname2, _ := e.mapGet(st, a, strTerm("format"), str)
				fm := e.load(st, m.formats.addr(mgr), m.formats.v.Type())
				good = false
				for _, n := range []*Term{fname, fname2} {
					_, has := e.mapGet(st, fm, n, m.formats.v.Type().Underlying().(*types.Map).Elem())
					if st.facts.eval(has) == yes && st.A["done:"+m.formats.v.Name()] != nil {
						good = true // formats keeps only what is unchanged
					}
					if st.facts.eval(same(r.def("Format", old(e, st), n), r.def("Format", cfg, n))) == yes {
						good = true
					}
				}
			}
		}
		r.check(good, "kept", pos, st, "what stays in %s has the same definition (and format) in both configurations", coll.v.Name())
	}
	e.H.Next = func(e *Engine, st *State, coll, k, v, ok *Term, in ssa.Instruction) {
		for _, c := range []fieldAt{m.formats, m.outputs} {
			if coll != e.load(st, c.addr(mgr), c.v.Type()) {
				continue
			}
			if ok == falseTerm {
				done(st, c.v.Name())
			} else {
				st.A["cur:"+c.v.Name()] = k
				st.TS[T.mk("at", c.v.Name(), nil)] = "open"
			}
		}
	}
	e.H.Back = func(e *Engine, st *State, fr *Frame, head *ssa.BasicBlock) {
		for _, c := range []fieldAt{m.formats, m.outputs} {
			k := st.A["cur:"+c.v.Name()]
			if k == nil || !headOf(head, c) {
				continue
			}
			kept(e, st, c, k, fr.fn.Pos())
			delete(st.A, "cur:"+c.v.Name())
		}
	}
	e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		for _, c := range []fieldAt{m.formats, m.outputs} {
			if addr == c.addr(mgr) {
				if v, ok := st.heap[mverOf(val)]; ok && v.Op == "empty" && isFreshObj(val) {
					done(st, c.v.Name()) // all dropped
				} else {
					r.bad("kept", in.Pos(), st, "%s is replaced by something not empty", c.v.Name())
				}
			}
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if st.facts.eval(eqTerm(res[0], nilTerm)) == no {
			return
		}
		n := orInt(st.A["n"])
		r.check(st.facts.eval(lt0(sub(n, lenTerm(list(e, st))))) == no, "all notified", in.Pos(), st, "every listener is notified before SetConfig succeeds")
		for _, c := range []fieldAt{m.formats, m.outputs} {
			r.check(st.A["done:"+c.v.Name()] != nil, "all checked", in.Pos(), st, "all of %s is compared to the new configuration", c.v.Name())
		}
	}
	e.Entry(fn, []*Term{mgr}, func(st *State, args []*Term) {
		assumeNonNil(st, mgr, args[1])
		cfg = args[1]
		st.A["cfg"] = cfg
		st.A["old"] = e.load(st, m.config.addr(mgr), m.config.v.Type())
		assumeNonNil(st, st.A["old"])
	})
	r.done(e, "SetConfig")
	for _, k := range []string{"listener", "all notified", "kept", "all checked"} {
		r.need(k, 1)
	}
	// the factory listens
	for _, fn := range r.P.allocators(f.typ) {
		e := r.engine()
		e.Havoc = false
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) { return f.configModel(r, e, st, c) }
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			if len(res) == 0 || !isFreshObj(strip(res[0])) {
				return
			}
			fac := strip(res[0])
			good := false
			for k, v := range st.heap {
				if fieldVar(k) == m.notify.v && v.hasSym(fac) {
					good = true
				}
			}
			r.check(good, "listens", in.Pos(), st, "a new factory listens to its manager")
		}
		e.Entry(fn, nil, func(st *State, args []*Term) { assumeNonNil(st, args...) })
		r.done(e, fn.String())
	}
	r.need("listens", 1)
	// and applies the configuration to every logger
	r.applied(m, f)
	// as the manager gives it
	r.levelGiven(m)
}

func orInt(t *Term) *Term {
	if t == nil {
		return intTerm(0)
	}
	return t
}

// headOf: the loop ranges over the given collection.
func headOf(head *ssa.BasicBlock, c fieldAt) bool {
	for _, in := range head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return types.Identical(rg.X.Type().Underlying(), c.v.Type().Underlying())
			}
		}
	}
	return false
}

func (r *Run) applied(m *managerRole, f *factoryRole) {
	it, ok := m.told.Underlying().(*types.Interface)
	if !ok {
		r.missing("the method that tells the factory of a new configuration")
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		fn := r.method(f.typ, it.Method(i).Name())
		if fn == nil {
			continue
		}
		fac := obj("factory", f.typ)
		e := r.engine()
		e.Havoc = false
		reg := func(e *Engine, st *State) *Term { return e.load(st, f.loggers.addr(fac), f.loggers.v.Type()) }
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) { return f.configModel(r, e, st, c) }
		e.H.Next = func(e *Engine, st *State, coll, k, v, ok *Term, in ssa.Instruction) {
			if coll != reg(e, st) {
				return
			}
			if ok == falseTerm {
				st.A["done"] = trueTerm
				delete(st.A, "cur")
				return
			}
			assumeNonNil(st, v)
			st.A["cur"], st.A["key"] = v, k
			st.heap[f.lg.name.addr(v)] = k
			for _, fl := range []fieldAt{f.lg.level, f.lg.outputs} {
				delete(st.heap, fl.addr(v))
			}
		}
		e.H.Back = func(e *Engine, st *State, fr *Frame, head *ssa.BasicBlock) {
			v, k := st.A["cur"], st.A["key"]
			if v == nil || !headOf(head, f.loggers) {
				return
			}
			lvl := e.load(st, f.lg.level.addr(v), f.lg.level.v.Type())
			ops := e.load(st, f.lg.outputs.addr(v), f.lg.outputs.v.Type())
			switch st.facts.eval(hasCfg(k)) {
			case yes:
				r.check(lvl == cfgLvl(k) && ops == cfgOps(k), "applied", fr.fn.Pos(), st, "a registered logger takes the level and outputs of a new configuration (level %v, outputs %v)", lvl, ops)
			case no:
				same := lvl == T.mk("ld", "", nil, f.lg.level.addr(v)) && ops == T.mk("ld", "", nil, f.lg.outputs.addr(v))
				r.check(same || lvl == intTerm(r.level("Uninitialized")) && ops == nilTerm, "not named", fr.fn.Pos(), st, "a logger without new configuration keeps or loses its own (level %v, outputs %v)", lvl, ops)
			default:
				r.bad("applied", fr.fn.Pos(), st, "a registered logger is passed over when a new configuration is announced")
			}
			delete(st.A, "cur")
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			r.check(st.A["done"] != nil, "all loggers", in.Pos(), st, "all registered loggers are visited")
		}
		e.Entry(fn, []*Term{fac}, func(st *State, args []*Term) {
			assumeNonNil(st, fac, reg(e, st))
		})
		r.done(e, fn.String())
	}
	r.need("applied", 1)
	r.need("all loggers", 1)
}

// levelGiven: GetLoggerOutputs answers with the level configured.
func (r *Run) levelGiven(m *managerRole) {
	fn := r.method(m.typ, "GetLoggerOutputs")
	if fn == nil {
		r.missing("GetLoggerOutputs")
		return
	}
	mgr := obj("manager", m.typ)
	lf := r.fn("api", "LevelFrom")
	if lf == nil {
		r.missing("api.LevelFrom")
		return
	}
	e := r.engine()
	e.Havoc = false
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Fn == lf {
			return []Out{{Res: T.mk("levelof", "", c.Sig.Results().At(0).Type(), c.Args[0])}}, true
		}
		if c.Name == r.ifaceMethod("Output", "SetFormatter") {
			return []Out{{}}, true
		}
		return r.cfgOf(c)
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if st.facts.eval(eqTerm(res[2], nilTerm)) != yes {
			return
		}
		name := st.A["name"]
		lc := r.def("Logger", e.load(st, m.config.addr(mgr), m.config.v.Type()), name)
		lv := fieldsWhere(r.apiType("CfgLogger"), func(v *types.Var) bool { return v.Name() == "Level" })
		if len(lv) != 1 {
			r.missing("api.CfgLogger.Level")
			return
		}
		want := T.mk("levelof", "", nil, e.load(st, lv[0].addr(lc), lv[0].v.Type()))
		r.check(res[1] == want, "level given", in.Pos(), st, "the level of a logger is the one configured (%v)", res[1])
	}
	e.Entry(fn, []*Term{mgr}, func(st *State, args []*Term) {
		assumeNonNil(st, mgr, e.load(st, m.config.addr(mgr), m.config.v.Type()))
		st.A["name"] = args[1]
	})
	r.done(e, "GetLoggerOutputs")
	r.need("level given", 1)
	r.lookupsOfConfig()
}

// lookupsOfConfig decides that GetCfgX finds the definition of the name it is
// given and nothing else.
func (r *Run) lookupsOfConfig() {
	cfgT := types.NewPointer(r.apiType("Config"))
	for _, kind := range []string{"Format", "Output", "Logger"} {
		fn := r.method(cfgT, "GetCfg"+kind)
		if fn == nil {
			r.missing("GetCfg" + kind)
			continue
		}
		cfg := obj("config", cfgT)
		v := &validation{r: r, at: map[string][]*ssa.BasicBlock{}}
		e := r.engine()
		var name *Term
		e.H.Back = func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) {
			nm := v.field(e, st, kind+"s", "Name")
			if st.facts.eval(eqTerm(nm, name)) == no {
				st.A[kind+"s"] = add(orInt(st.A[kind+"s"]), intTerm(1))
			}
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			if st.facts.eval(eqTerm(res[0], nilTerm)) == yes {
				l := r.cfgField(e, st, cfg, kind+"s")
				r.check(st.facts.eval(lt0(sub(orInt(st.A[kind+"s"]), lenTerm(l)))) == no, "definition", in.Pos(), st, "GetCfg%s finds nothing only after looking at every definition", kind)
				return
			}
			nm := v.field(e, st, kind+"s", "Name")
			el := v.elem(e, st, kind+"s")
			good := st.facts.eval(eqTerm(nm, name)) == yes
			switch kind {
			case "Logger":
				got := e.load(st, res[0], r.apiType("CfgLogger"))
				x := e.load(st, el, r.apiType("CfgLogger"))
				if got != x && res[0] != el {
					// field by field
					s := structOf(r.apiType("CfgLogger"))
					for i := 0; i < s.NumFields(); i++ {
						a := e.elemField(st, e.load(st, faddr(res[0], i, s.Field(i)), s.Field(i).Type()))
						b := e.elemField(st, e.load(st, faddr(el, i, s.Field(i)), s.Field(i).Type()))
						good = good && a == b
					}
				}
			default:
				good = good && res[0] == e.load(st, el, r.cfgType(kind))
			}
			r.check(good, "definition", in.Pos(), st, "GetCfg%s returns the first definition of the name (%v)", kind, res[0])
		}
		e.Entry(fn, []*Term{cfg}, func(st *State, args []*Term) {
			assumeNonNil(st, cfg)
			name = args[1]
			st.A["cfg"] = cfg
			st.A["name"] = name
			st.A[kind+"s"] = intTerm(0)
		})
		r.done(e, "GetCfg"+kind)
	}
	r.need("definition", 6)
}

// ---- C21

func (m *managerRole) collections() []fieldAt { return append([]fieldAt{m.outputs}, m.others...) }

func runC21(r *Run) {
	m := r.manager()
	if m == nil {
		return
	}
	r.built(m)
	r.lookupsOfConfig()
	r.closedAll(m)
	r.neverDropped(m)
}

// forgetLookups drops what was learnt of the definitions of one name.
func forgetLookups(st *State) {
	about := func(t *Term) bool {
		return t.find(func(x *Term) bool {
			return x.Op == "has" || x.Op == "lookup" || x.Op == "defof" && x.Aux != "Logger"
		}) != nil
	}
	for k := range st.facts {
		if about(k) {
			delete(st.facts, k)
		}
	}
	for k := range st.heap {
		switch {
		case k.Op == "maddr", k.Op == "createdas", k.Op == "formatterof" && st.TS[k.Args[0]] != "created":
			delete(st.heap, k)
		}
	}
	for k, s := range st.TS {
		if s == "registered" {
			delete(st.TS, k)
		}
	}
}

// someLock: a lock is held, in the mode given. (That it is the right one is C15.)
func someLock(st *State, mode string) bool {
	for _, m := range st.TS {
		if (m == "W" || m == "R") && (mode == "" || m == mode) {
			return true
		}
	}
	return false
}

// built explores GetLoggerOutputs.
func (r *Run) built(m *managerRole) {
	fn := r.method(m.typ, "GetLoggerOutputs")
	if fn == nil {
		r.missing("GetLoggerOutputs")
		return
	}
	mgr := obj("manager", m.typ)
	outT, fmtT := r.apiType("Output"), r.apiType("Formatter")
	str := types.Typ[types.String]
	onF := fieldsWhere(r.apiType("CfgLogger"), func(v *types.Var) bool { return v.Name() == "OutputNames" })
	if len(onF) != 1 {
		r.missing("api.CfgLogger.OutputNames")
		return
	}
	cfgT := func(e *Engine, st *State) *Term { return e.load(st, m.config.addr(mgr), m.config.v.Type()) }
	names := func(e *Engine, st *State) *Term {
		return e.load(st, onF[0].addr(r.def("Logger", cfgT(e, st), st.A["name"])), onF[0].v.Type())
	}
	// the output and formatter registered for the i-th name
	outAt := func(e *Engine, st *State) (op, f *Term, ok bool) {
		id := e.load(st, iaddr(names(e, st), st.A["i"]), str)
		om := e.load(st, m.outputs.addr(mgr), m.outputs.v.Type())
		op, has := e.mapGet(st, om, id, outT)
		fname, _ := e.mapGet(st, r.def("Output", cfgT(e, st), id), strTerm("format"), str)
		fm := e.load(st, m.formats.addr(mgr), m.formats.v.Type())
		f, _ = e.mapGet(st, fm, fname, fmtT)
		return op, f, st.facts.eval(has) == yes
	}
	fmtCell := func(op *Term) *Term { return T.mk("formatterof", "", nil, op) }
	e := r.engine()
	e.Havoc = false
	taken := func(e *Engine, st *State, acc bool, el, res *Term, pos token.Pos) {
		op, f, ok := outAt(e, st)
		r.check(acc, "in order", pos, st, "outputs are collected one after the other")
		good := ok && op == el
		r.check(good, "named output", pos, st, "the output collected is the one registered under the name listed (%v)", el)
		if st.TS[el] == "registered" || st.TS[el] == "created" {
			r.check(st.heap[fmtCell(el)] == f, "formatter attached", pos, st, "a new output has its configured formatter (%v, has %v)", f, st.heap[fmtCell(el)])
		}
		st.A["acc"] = res
		st.A["i"] = add(st.A["i"], intTerm(1))
		st.A["sweep"] = trueTerm
	}
	// what was learnt of the definitions of one output is not needed for the next
	e.H.Back = func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) {
		if st.A["sweep"] == nil {
			return
		}
		delete(st.A, "sweep")
		forgetLookups(st)
	}
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if _, op := trackLocks(st, c); op != "" {
			if op == "U" {
				// others may add meanwhile
				delete(st.A, "=seen "+m.formats.v.Name())
				delete(st.A, "=seen "+m.outputs.v.Name())
			}
			return []Out{{}}, true
		}
		if out, ok := r.cfgOf(c); ok {
			return out, ok
		}
		if c.Fn != nil && c.Fn == r.fn("api", "LevelFrom") {
			return []Out{{Res: e.fresh(st, c.Frame, c.Instr, "level", c.Sig.Results().At(0).Type())}}, true
		}
		if c.Name == r.ifaceMethod("Output", "SetFormatter") {
			if st.TS[c.Args[0]] == "" {
				r.bad("formatter attached", c.Pos, st, "the formatter of an output in use is replaced")
			}
			st.heap[fmtCell(c.Args[0])] = c.Args[1]
			return []Out{{}}, true
		}
		if c.Fn == nil && c.Sig != nil && c.Sig.Results().Len() == 2 && (types.Identical(c.Sig.Results().At(0).Type(), outT) || types.Identical(c.Sig.Results().At(0).Type(), fmtT)) && len(c.Args) == 1 {
			kind := "Format"
			if types.Identical(c.Sig.Results().At(0).Type(), outT) {
				kind = "Output"
			}
			if c.FnT != nil && c.FnT.Op == "lookup" {
				has := T.mk("has", "", nil, c.FnT.Args...)
				r.check(st.facts.eval(has) == yes || st.facts.eval(eqTerm(c.FnT, nilTerm)) == no, "known type", c.Pos, st, "only a registered creator is called")
				tk, _ := e.mapGet(st, c.Args[0], strTerm("type"), str)
				r.check(c.FnT.Args[1] == tk, "known type", c.Pos, st, "the creator is that of the type defined (%v)", c.FnT.Args[1])
			}
			def := c.Args[0]
			good := def.Op == "defof" && def.Aux == kind && def.Args[0] == cfgT(e, st)
			r.check(good, "definition used", c.Pos, st, "what is created follows its definition in the configuration in force (%v)", def)
			res := e.fresh(st, c.Frame, c.Instr, "new "+kind, c.Sig.Results().At(0).Type())
			err := e.fresh(st, c.Frame, c.Instr, "creation error", c.Sig.Results().At(1).Type())
			nm := nilTerm
			if good {
				nm = def.Args[1]
			}
			tup := T.mk("tuple", "", nil, res, err)
			return []Out{
				{Res: T.mk("tuple", "", nil, res, nilTerm), Assume: []Lit{{eqTerm(res, nilTerm), false}}, Do: func(st *State) {
					st.TS[res] = "created"
					st.heap[T.mk("createdas", "", nil, res)] = nm
				}},
				{Res: tup, Assume: []Lit{{eqTerm(err, nilTerm), false}}},
			}, true
		}
		return nil, false
	}
	e.H.MapGet = func(e *Engine, st *State, mm, k *Term, in ssa.Instruction) {
		for _, c := range []fieldAt{m.formats, m.outputs} {
			if mm == e.load(st, c.addr(mgr), c.v.Type()) && someLock(st, "") {
				st.A["=seen "+c.v.Name()] = k
			}
		}
	}
	e.H.MapUpd = func(e *Engine, st *State, mm, k, v *Term, in ssa.Instruction) {
		for _, c := range []fieldAt{m.formats, m.outputs} {
			if mm != e.load(st, c.addr(mgr), c.v.Type()) {
				continue
			}
			_, has := e.mapGet(st, mm, k, outT)
			r.check(someLock(st, "W") && st.A["=seen "+c.v.Name()] == k, "built once", in.Pos(), st, "an object is looked for and registered in %s under one exclusive lock", c.v.Name())
			r.check(st.facts.eval(has) == no, "built once", in.Pos(), st, "an object is registered in %s only under a name that has none (%v)", c.v.Name(), k)
			as := st.heap[T.mk("createdas", "", nil, v)]
			r.check(as != nil && as == k, "own name", in.Pos(), st, "an object is registered in %s under the name of its definition (%v as %v)", c.v.Name(), as, k)
			if st.TS[v] == "created" {
				st.TS[v] = "registered"
			}
		}
	}
	e.H.Append = func(e *Engine, st *State, c *CallEv) *Term {
		if s, ok := c.Sig.Results().At(0).Type().Underlying().(*types.Slice); !ok || !types.Identical(s.Elem(), outT) {
			return nil
		}
		els := e.elements(st, c.Args[1])
		if len(els) != 1 {
			return nil
		}
		// into a collection of the manager
		for _, f := range m.others {
			if c.Args[0] == e.load(st, f.addr(mgr), f.v.Type()) {
				return nil
			}
		}
		acc := st.A["acc"]
		if acc == nil {
			acc = nilTerm
			if c.Args[0] != nilTerm && st.facts.eval(eqTerm(lenTerm(c.Args[0]), intTerm(0))) == yes {
				acc = c.Args[0]
			}
			st.A["acc"] = acc
		}
		onto := c.Args[0] == acc
		res := e.fresh(st, c.Frame, c.Instr, "collected", c.Sig.Results().At(0).Type())
		assumeNonNil(st, res)
		taken(e, st, onto, els[0], res, c.Pos)
		return res
	}
	e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op == "iaddr" && val.Typ != nil && types.Identical(val.Typ, outT) {
			b := addr.Args[0]
			if b.Op == "alloc" && b.Typ != nil {
				if a, ok := b.Typ.Underlying().(*types.Array); ok && a.Len() == 1 {
					return // the operand of append
				}
			}
			taken(e, st, addr.Args[1] == st.A["i"], val, b, in.Pos())
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		for v, s := range st.TS {
			if s == "created" && v.Typ != nil && types.Identical(v.Typ, outT) {
				reg := false
				for _, f := range m.others {
					if st.heap[f.addr(mgr)] != nil && st.heap[f.addr(mgr)].hasSym(v) {
						reg = true
					}
				}
				r.check(reg, "registered", in.Pos(), st, "every output created is registered, so that it can be closed (%v)", v)
			}
		}
		if st.facts.eval(eqTerm(res[2], nilTerm)) == no {
			return
		}
		r.check(st.facts.eval(eqTerm(res[2], nilTerm)) == yes, "certain", in.Pos(), st, "GetLoggerOutputs knows whether it succeeded")
		lc := r.def("Logger", cfgT(e, st), st.A["name"])
		r.check(st.facts.eval(eqTerm(lc, nilTerm)) == no, "defined", in.Pos(), st, "a logger without definition is an error")
		ns := names(e, st)
		r.check(st.facts.eval(lt0(sub(st.A["i"], lenTerm(ns)))) == no, "complete", in.Pos(), st, "a logger gets all the outputs it lists, or an error")
		acc := st.A["acc"]
		if acc == nil {
			r.check(res[0] == nilTerm || st.facts.eval(eqTerm(lenTerm(res[0]), intTerm(0))) == yes || st.facts.eval(eqTerm(lenTerm(ns), intTerm(0))) == yes, "exact", in.Pos(), st, "a logger gets nothing but the outputs it lists (%v)", res[0])
			return
		}
		r.check(res[0] == acc || res[0].Op == "slice" && res[0].Args[0] == acc, "exact", in.Pos(), st, "a logger gets nothing but the outputs it lists (%v, collected %v)", res[0], acc)
	}
	e.H.Forget = func(e *Engine, st *State, t *Term) {
		if st.TS[t] == "created" && t.Typ != nil && types.Identical(t.Typ, outT) {
			r.bad("registered", fn.Pos(), st, "an output that was created is forgotten (%v)", t)
		}
	}
	e.Entry(fn, []*Term{mgr}, func(st *State, args []*Term) {
		assumeNonNil(st, mgr, cfgT(e, st))
		st.A["name"] = args[1]
		st.A["i"] = intTerm(0)
	})
	r.done(e, "GetLoggerOutputs")
	for _, k := range []string{"named output", "formatter attached", "built once", "own name", "definition used", "complete", "exact"} {
		r.need(k, 1)
	}
}

// closedAll explores Manager.Close.
func (r *Run) closedAll(m *managerRole) {
	fn := r.method(m.typ, "Close")
	if fn == nil {
		r.missing("Close")
		return
	}
	mgr := obj("manager", m.typ)
	e := r.engine()
	e.Havoc = false
	first := map[string]*Term{}
	isMap := func(c fieldAt) bool { _, ok := c.v.Type().Underlying().(*types.Map); return ok }
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Name != r.ifaceMethod("Output", "Close") {
			return nil, false
		}
		el := c.Args[0]
		for _, f := range m.collections() {
			nm := f.v.Name()
			if isMap(f) {
				if el == st.A["cur:"+nm] {
					st.A["closed:"+nm] = trueTerm
				}
				continue
			}
			if el.Op == "ld" && el.Args[0] == iaddr(first[nm], st.A["n:"+nm]) {
				st.A["n:"+nm] = add(st.A["n:"+nm], intTerm(1))
			}
		}
		if b := st.A["bag"]; b != nil && el.Op == "ld" && el.Args[0] == iaddr(b, orInt(st.A["n of bag"])) {
			st.A["n of bag"] = add(orInt(st.A["n of bag"]), intTerm(1))
		}
		return []Out{{}}, true
	}
	outT := r.apiType("Output")
	// a list the outputs are gathered in, to be closed afterwards
	e.H.Append = func(e *Engine, st *State, c *CallEv) *Term {
		if s, ok := c.Sig.Results().At(0).Type().Underlying().(*types.Slice); !ok || !types.Identical(s.Elem(), outT) || st.A["n of bag"] != nil || len(c.Args) != 2 {
			return nil
		}
		whole := func(t *Term) bool {
			for _, f := range m.collections() {
				if nm := f.v.Name(); !isMap(f) && t == first[nm] {
					st.A["gathered:"+nm] = trueTerm
					return true
				}
			}
			return false
		}
		base, bag := c.Args[0], st.A["bag"]
		if !(bag != nil && base == bag) && !(bag == nil && (base == nilTerm || lenIs(st, base, 0))) && !(bag == nil && whole(base)) {
			return nil
		}
		if els := e.elements(st, c.Args[1]); els != nil {
			for _, el := range els {
				for _, f := range m.collections() {
					if nm := f.v.Name(); isMap(f) && el == st.A["cur:"+nm] {
						st.A["closed:"+nm] = trueTerm
					}
				}
			}
		} else if !whole(c.Args[1]) {
			return nil
		}
		res := e.fresh(st, c.Frame, c.Instr, "gathered", c.Sig.Results().At(0).Type())
		st.A["bag"] = res
		return res
	}
	e.H.Next = func(e *Engine, st *State, coll, k, v, ok *Term, in ssa.Instruction) {
		for _, f := range m.collections() {
			if coll != first[f.v.Name()] {
				continue
			}
			if ok == falseTerm {
				st.A["done:"+f.v.Name()] = trueTerm
				delete(st.A, "cur:"+f.v.Name())
			} else {
				st.A["cur:"+f.v.Name()] = v
				delete(st.A, "closed:"+f.v.Name())
			}
		}
	}
	e.H.Back = func(e *Engine, st *State, fr *Frame, head *ssa.BasicBlock) {
		for _, f := range m.collections() {
			if nm := f.v.Name(); isMap(f) && st.A["cur:"+nm] != nil && headOf(head, f) {
				r.check(st.A["closed:"+nm] != nil, "closed", fr.fn.Pos(), st, "Close closes each output of %s", nm)
				delete(st.A, "cur:"+nm)
			}
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		for _, f := range m.collections() {
			nm := f.v.Name()
			if isMap(f) {
				r.check(st.A["done:"+nm] != nil, "all closed", in.Pos(), st, "Close goes through all of %s", nm)
			} else if st.A["gathered:"+nm] == nil {
				r.check(st.facts.eval(lt0(sub(st.A["n:"+nm], lenTerm(first[nm])))) == no, "all closed", in.Pos(), st, "Close closes every output of %s", nm)
			} else {
				r.ok("all closed", in.Pos(), "gathered")
			}
		}
		if b := st.A["bag"]; b != nil {
			r.check(st.facts.eval(lt0(sub(orInt(st.A["n of bag"]), lenTerm(b)))) == no, "all closed", in.Pos(), st, "Close closes every output it gathered")
		}
	}
	e.Entry(fn, []*Term{mgr}, func(st *State, args []*Term) {
		assumeNonNil(st, mgr)
		for _, f := range m.collections() {
			first[f.v.Name()] = e.load(st, f.addr(mgr), f.v.Type())
			st.A["first:"+f.v.Name()] = first[f.v.Name()]
			if !isMap(f) {
				st.A["n:"+f.v.Name()] = intTerm(0)
			}
		}
	})
	r.done(e, "Close")
	r.need("all closed", len(m.collections()))
}

// neverDropped: no method but Close takes an output out of a collection
// without closing it or moving it to another.
func (r *Run) neverDropped(m *managerRole) {
	mgr := obj("manager", m.typ)
	fns := map[string]*ssa.Function{}
	it := r.iface("Manager")
	for i := 0; i < it.NumMethods(); i++ {
		fns[it.Method(i).Name()] = r.method(m.typ, it.Method(i).Name())
	}
	var ns []string
	for n := range fns {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fn := fns[n]
		if fn == nil || n == "Close" || n == "LoadConfig" || n == "LoadConfigFile" {
			continue // the loaders end in the same code as SetConfig
		}
		e := r.engine()
		e.Havoc = false
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if c.Name == r.ifaceMethod("Output", "Close") {
				st.TS[T.mk("safe", "", nil, c.Args[0])] = "closed"
				return []Out{{}}, true
			}
			if c.Name == "builtin.delete" && c.Args[0] == e.load(st, m.outputs.addr(mgr), m.outputs.v.Type()) {
				v, has := e.mapGet(st, c.Args[0], c.Args[1], r.apiType("Output"))
				if st.facts.eval(has) != no {
					st.A["gone"] = v
				}
				return nil, false
			}
			if r.toldOf(m, c) {
				return []Out{{}}, true
			}
			if c.Fn != nil && c.Fn == r.fn("api", "LevelFrom") {
				return []Out{{Res: e.fresh(st, c.Frame, c.Instr, "level", c.Sig.Results().At(0).Type())}}, true
			}
			if x, ok := sameModel(st, c); ok {
				return x, ok
			}
			return r.cfgOf(c)
		}
		settle := func(e *Engine, st *State, pos token.Pos) {
			v := st.A["gone"]
			if v == nil {
				return
			}
			delete(st.A, "gone")
			safe := st.TS[T.mk("safe", "", nil, v)] != ""
			for _, f := range m.others {
				if x := st.heap[f.addr(mgr)]; x != nil && x.contains(v) {
					safe = true
				}
			}
			r.check(safe, "not lost", pos, st, "%s takes an output out of %s only to close it or to keep it elsewhere", n, m.outputs.v.Name())
			delete(st.TS, T.mk("safe", "", nil, v))
		}
		e.H.Store = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			for _, f := range m.collections() {
				if addr != f.addr(mgr) {
					continue
				}
				was := e.load(st, addr, f.v.Type())
				good := keepsAll(val, was)
				r.check(good, "not lost", in.Pos(), st, "%s keeps what is in %s (%v)", n, f.v.Name(), val)
			}
		}
		e.H.Back = func(e *Engine, st *State, fr *Frame, head *ssa.BasicBlock) {
			settle(e, st, fr.fn.Pos())
			forgetLookups(st)
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) { settle(e, st, in.Pos()) }
		e.Entry(fn, []*Term{mgr}, func(st *State, args []*Term) { assumeNonNil(st, args...) })
		r.done(e, n)
	}
}

// keepsAll: all of what was in the slice is still in val.
func keepsAll(val, was *Term) bool {
	switch {
	case val == was:
		return true
	case val.Op == "append":
		return keepsAll(val.Args[0], was)
	case val.Op == "appendall":
		return keepsAll(val.Args[0], was) || keepsAll(val.Args[1], was)
	case val.Op == "slice":
		lo, hi := val.Args[1], val.Args[2]
		return (lo == nilTerm || lo == intTerm(0)) && (hi == nilTerm || hi == lenTerm(val.Args[0])) && keepsAll(val.Args[0], was)
	}
	return false
}
