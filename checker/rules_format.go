package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C07",
		Technique: "abstract evaluation of every verb through parser and formatter (value terms over SSA)",
		Rule:      "for each documented verb, with and without a format, every part the parser builds for it renders exactly the documented datum of the event, the process or the captured caller; any other name is looked up in the event's context under that name",
		Trusts:    []string{"the submatch indices of regexp, runtime.Caller and the path functions of the library"},
		Run:       runC07})
	register(&Rule{ID: "C08",
		Technique: "interval-coverage automaton over the parser's loop and emission automaton over the formatter's (SSA value terms)",
		Rule:      "the parts built from a layout cover it without gap or overlap, verbs in order of their matches; the formatter emits element after element of the parts exactly once; a static part is emitted as it is, a verb through its own format only; a message is interpreted as a format exactly when it has both arguments and a format",
		Trusts:    []string{"regexp matches are non-empty, disjoint and ascending"},
		Run:       runC08})
	register(&Rule{ID: "C09",
		Technique: "side-effect (mod) analysis over SSA with allocation-freshness",
		Rule:      "on every path of Format, each memory write goes to an object allocated by that call, or memoises caller information under a private key in the event's context; the bytes returned are the call's own",
		Run:       runC09})
}

// parsed is one kind of part the parser may build.
type parsed struct {
	heap   map[*Term]*Term
	facts  Facts
	part   *Term
	static *Term // text it stands for
	verb   *Term // name of the verb, constant for the known ones
	spec   *Term // its format
	pos    token.Pos
}

type formatRole struct {
	fn     *ssa.Function // NewTextFormatter
	typ    types.Type    // the formatter
	format *ssa.Function
	partT  types.Type
	verbs  map[string]*ssa.Function
	tab    *Term
	obj    *Term
	heap   map[*Term]*Term // the built formatter
	parts  []*parsed
}

var partsToken = T.mkFull("sym", "parts", nil, nil, nil, 0, nil)

func isEventArg(r *Run, fn *ssa.Function) int {
	for i, p := range fn.Params {
		if types.Identical(deref(p.Type()), r.apiType("Event")) {
			return i
		}
	}
	return -1
}

// formatter explores the parser; check also decides coverage.
func (r *Run) formatter(check bool) *formatRole {
	fr := &formatRole{fn: r.fn("internal", "NewTextFormatter")}
	fr.verbs, fr.tab = r.formatTable()
	if fr.fn == nil || fr.tab == nil {
		return nil
	}
	for _, v := range sortedKeys(fr.verbs) {
		f := fr.verbs[v]
		for _, p := range f.Params {
			if structOf(p.Type()) != nil && !types.Identical(deref(p.Type()), r.apiType("Event")) {
				fr.partT = deref(p.Type())
			}
		}
	}
	if fr.partT == nil {
		r.missing("the type of the parts of a layout")
		return nil
	}
	e := r.engine()
	e.H.Split = func(g *ssa.Global) bool { return true }
	cfg := paramTerm(fr.fn.Params[0].Name(), fr.fn.Params[0].Type())
	var layout *Term
	matches := func(st *State) *Term { return st.A["matches"] }
	bad := func(st *State, pos token.Pos, f string, a ...interface{}) {
		if check {
			r.bad("coverage", pos, st, f, a...)
		}
	}
	good := func(pos token.Pos, f string, a ...interface{}) {
		if check {
			r.ok("coverage", pos, f, a...)
		}
	}
	finish := func(e *Engine, st *State, pos token.Pos) {
		p := st.A["pend"]
		if p == nil {
			return
		}
		delete(st.A, "pend")
		s := structOf(fr.partT)
		var strs []*Term
		fun := nilTerm
		for i := 0; i < s.NumFields(); i++ {
			v := s.Field(i)
			var x *Term
			if p.Op == "mk" || structOf(p.Typ) != nil && p.Op != "alloc" {
				x = fieldOf(p, i, v)
			} else {
				x = e.load(st, faddr(p, i, v), v.Type())
			}
			switch v.Type().Underlying().(type) {
			case *types.Signature:
				fun = x
			case *types.Basic:
				if isStringOrBytes(v.Type()) {
					strs = append(strs, x)
				}
			}
		}
		pp := &parsed{heap: map[*Term]*Term{}, facts: st.facts.clone(), part: p, pos: pos}
		for k, v := range st.heap {
			pp.heap[k] = v
		}
		cov, m := st.A["cov"], st.A["m"]
		has := func(want *Term) bool {
			for _, x := range strs {
				if x == want || st.facts.eval(eqTerm(x, want)) == yes {
					return true
				}
			}
			return false
		}
		sub := func(i int64) *Term { return e.load(st, iaddr(m, intTerm(i)), types.Typ[types.Int]) }
		if fun == nilTerm {
			// static text
			to := nilTerm
			if m != nil && st.A["mdone"] == nil {
				to = sub(0)
			}
			want := sliceTerm(layout, cov, to)
			if !has(want) {
				bad(st, pos, "a static part stands for the text up to the next verb: %v, it has %v", want, strs)
				return
			}
			good(pos, "static text between verbs is kept")
			pp.static = want
			if to == nilTerm {
				to = lenTerm(layout)
			}
			st.A["cov"] = to
			fr.add(pp)
			return
		}
		if m == nil || st.A["mdone"] != nil {
			bad(st, pos, "a verb is added without a match of its own")
			return
		}
		if st.facts.eval(eqTerm(cov, sub(0))) != yes {
			bad(st, pos, "the text before a verb is added first (covered up to %v, the verb starts at %v)", cov, sub(0))
		}
		name := sliceTerm(layout, sub(2), sub(3))
		pp.verb = st.facts.rep(name)
		if !pp.verb.isStr() {
			pp.verb = name
			if !has(name) {
				bad(st, pos, "a verb part knows the name of its verb (%v)", strs)
			}
		}
		switch st.facts.eval(eqTerm(sub(4), intTerm(-1))) {
		case no:
			pp.spec = sliceTerm(layout, sub(4), sub(5))
		case unknown:
			bad(st, pos, "a verb part depends on whether the verb has a format")
		}
		st.A["cov"] = sub(1)
		st.A["mdone"] = trueTerm
		good(pos, "verb part")
		fr.add(pp)
	}
	e.H.MapGet = func(e *Engine, st *State, m, k *Term, in ssa.Instruction) {
		if m == cfg && k.isStr() && k.Aux == "layout" {
			layout, _ = e.mapGet(st, m, k, types.Typ[types.String])
		}
	}
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if strings.HasPrefix(c.Name, "(*regexp.Regexp).Find") {
			ok := c.Name == "(*regexp.Regexp).FindAllStringSubmatchIndex" && c.Args[1] == layout && c.Args[2].isInt() && c.Args[2].C < 0
			if !ok {
				bad(st, c.Pos, "all verbs of the layout are looked for (%v)", c.Args)
			}
			st.A["matches"] = pureCall(c.Name, c.Args)
		}
		return nil, false
	}
	e.H.Load = func(e *Engine, st *State, a *Term, in ssa.Instruction) {
		ms := matches(st)
		if ms == nil || a.Op != "iaddr" || a.Args[0] != ms {
			return
		}
		m := T.mk("ld", "", nil, a)
		if st.A["m"] == m {
			return
		}
		finish(e, st, in.Pos())
		if st.facts.eval(eqTerm(a.Args[1], add(st.A["mi"], intTerm(1)))) != yes || st.A["m"] != nil && st.A["mdone"] == nil {
			bad(st, in.Pos(), "the verbs of a layout are taken one after the other (%v after %v)", a.Args[1], st.A["mi"])
		}
		st.A["mi"] = a.Args[1]
		st.A["m"] = m
		delete(st.A, "mdone")
		at := func(i int64) *Term {
			return e.load(st, iaddr(m, intTerm(i)), types.Typ[types.Int])
		}
		st.facts.assume(lt0(sub(at(0), st.A["cov"])), false)
		st.facts.assume(lt0(sub(at(0), at(1))), true)
		st.facts.assume(lt0(sub(lenTerm(layout), at(1))), false)
		st.facts.assume(lt0(add(at(4), intTerm(1))), false)
		st.facts.assume(lt0(sub(at(5), at(4))), false)
	}
	e.H.Append = func(e *Engine, st *State, c *CallEv) *Term {
		sl, ok := c.Sig.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(deref(sl.Elem()), fr.partT) {
			return nil
		}
		els := e.elements(st, c.Args[1])
		if len(els) != 1 || c.Args[0] != nilTerm && c.Args[0] != partsToken && !lenIs(st, c.Args[0], 0) {
			bad(st, c.Pos, "parts are added one at a time")
			return partsToken
		}
		finish(e, st, c.Pos)
		st.A["pend"] = els[0]
		st.A["any"] = trueTerm
		return partsToken
	}
	e.H.Back = func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) {
		finish(e, st, head.Instrs[0].Pos())
		if m := st.A["m"]; m != nil && st.A["mdone"] != nil {
			for k := range st.facts {
				if k.find(func(t *Term) bool { return t == m }) != nil {
					delete(st.facts, k)
				}
			}
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		finish(e, st, in.Pos())
		if st.facts.eval(eqTerm(res[1], nilTerm)) == no {
			return
		}
		if layout == nil {
			bad(st, in.Pos(), "a formatter is built from its layout")
			return
		}
		f := strip(res[0])
		if res[0].Op == "mki" {
			fr.typ = res[0].Typ
		}
		fr.obj = f
		if fr.heap == nil || st.A["any"] != nil {
			fr.heap = map[*Term]*Term{}
			for k, v := range st.heap {
				fr.heap[k] = v
			}
		}
		cov := st.A["cov"]
		whole := st.facts.eval(lt0(sub(cov, lenTerm(layout)))) == no || st.facts.eval(eqTerm(sliceTerm(layout, cov, nilTerm), strTerm(""))) == yes || st.facts.eval(eqTerm(cov, lenTerm(layout))) == yes
		if ms := matches(st); ms != nil {
			rest := add(st.A["mi"], intTerm(1))
			whole = whole && (st.facts.eval(eqTerm(ms, nilTerm)) == yes || st.facts.eval(lt0(sub(rest, lenTerm(ms)))) == no)
		}
		if whole {
			good(in.Pos(), "the parts cover the whole layout")
		} else {
			bad(st, in.Pos(), "the parts cover the whole layout (covered up to %v)", cov)
		}
	}
	e.Entry(fr.fn, nil, func(st *State, args []*Term) {
		assumeNonNil(st, args...)
		st.A["cov"] = intTerm(0)
		st.A["mi"] = intTerm(-1)
	})
	r.done(e, fr.fn.String())
	if fr.obj == nil || fr.typ == nil || len(fr.parts) == 0 {
		r.missing("the formatter NewTextFormatter builds")
		return nil
	}
	fr.format = r.method(fr.typ, "Format")
	return fr
}

func lenIs(st *State, x *Term, n int64) bool {
	return st.facts.eval(eqTerm(lenTerm(x), intTerm(n))) == yes
}

func (fr *formatRole) add(p *parsed) {
	for _, q := range fr.parts {
		if q.pos == p.pos && q.verb == p.verb && (q.static == nil) == (p.static == nil) && (q.spec == nil) == (p.spec == nil) {
			return
		}
	}
	fr.parts = append(fr.parts, p)
}

// event is the event being formatted.
func (r *Run) event() *Term { return obj("event", types.NewPointer(r.apiType("Event"))) }

func (r *Run) eventLoad(e *Engine, st *State, ev *Term, name string) *Term {
	for _, f := range fieldsWhere(r.apiType("Event"), func(v *types.Var) bool { return v.Name() == name }) {
		return e.load(st, f.addr(ev), f.v.Type())
	}
	r.missing("api.Event." + name)
	return nilTerm
}

// render runs the formatter on a layout of the one part.
func (r *Run) render(fr *formatRole, p *parsed, call func(e *Engine, st *State, c *CallEv) ([]Out, bool), done func(e *Engine, st *State, out *Term, in ssa.Instruction)) {
	lvlStr := func(c *CallEv) string {
		for _, m := range []string{"String", "ShortStr"} {
			if c.Fn != nil && c.Fn == r.method(r.apiType("Level"), m) {
				return m
			}
		}
		return ""
	}
	e := r.engine()
	ev := r.event()
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if m := lvlStr(c); m != "" {
			return []Out{{Res: T.mk("level"+m, "", types.Typ[types.String], c.Args[0])}}, true
		}
		if call != nil {
			if o, ok := call(e, st, c); ok {
				return o, ok
			}
		}
		return e.bufferCall(st, c, nil)
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) { done(e, st, strip(res[0]), in) }
	e.Entry(fr.format, []*Term{fr.obj, ev}, func(st *State, args []*Term) {
		for k, v := range fr.heap {
			st.heap[k] = v
		}
		for k, v := range p.heap {
			if root(k) == root(p.part) {
				st.heap[k] = v
			}
		}
		st.facts = p.facts.clone()
		assumeNonNil(st, ev)
		st.A["parts"] = partsToken
		st.heap[iaddr(partsToken, intTerm(0))] = p.part
		st.facts.assume(eqTerm(lenTerm(partsToken), intTerm(1)), true)
	})
	r.done(e, "Format")
}

// datum is the value a verb renders, if the record is exactly one rendering of it.
func (p *parsed) datum(out *Term) *Term {
	if p.spec != nil {
		if p.verb.isStr() && p.verb.Aux == "time" {
			return out
		}
		if out.Op == "call" && out.Aux == "fmt.Sprintf" && len(out.Args) == 2 && out.Args[0] == catTerm(strTerm("%"), p.spec) {
			return out.Args[1]
		}
		return nil
	}
	switch {
	case out.Op == "itoa":
		return out.Args[0]
	case out.Op == "verb":
		if out.Aux != "%v" {
			return nil
		}
		return out.Args[0]
	case out.Op == "cat":
		return nil
	case out.Op == "call" && out.Aux == "fmt.Sprint" && len(out.Args) == 1:
		return out.Args[0]
	}
	return out
}

func runC08(r *Run) {
	fr := r.formatter(true)
	if fr == nil {
		return
	}
	r.need("coverage", 4)
	for _, p := range fr.parts {
		p := p
		if p.verb != nil && p.verb.isStr() && p.verb.Aux != "msg" && fr.verbs[p.verb.Aux] != nil && r.Tier != "thorough" {
			// one rendering of each verb is decided with C07; here all that differ in kind
		}
		r.render(fr, p, nil, func(e *Engine, st *State, out *Term, in ssa.Instruction) {
			if p.static != nil {
				r.check(out == p.static, "static text", in.Pos(), st, "static text is emitted as it is (%v, must be %v)", out, p.static)
				return
			}
			d := p.datum(out)
			if !r.check(d != nil, "one rendering", in.Pos(), st, "the verb %v is rendered once, through its own format (%v)", p.verb, out) {
				return
			}
			if p.verb.isStr() && p.verb.Aux == "msg" {
				r.message(e, st, strip(d), in)
			}
		})
	}
	r.need("static text", 1)
	r.need("one rendering", 10)
	r.need("message", 1)
	r.emission(fr)
}

// message: how the text of a message comes about.
func (r *Run) message(e *Engine, st *State, d *Term, in ssa.Instruction) {
	ev := r.event()
	f, as := r.eventLoad(e, st, ev, "Format"), r.eventLoad(e, st, ev, "Arguments")
	noArgs := st.facts.eval(eqTerm(lenTerm(as), intTerm(0)))
	noFmt := st.facts.eval(eqTerm(lenTerm(f), intTerm(0)))
	if noFmt == unknown {
		noFmt = st.facts.eval(eqTerm(f, strTerm("")))
	}
	if noArgs == unknown {
		noArgs = no.not().not() // unknown stays unknown
		noArgs = unknown
	}
	good := false
	switch {
	case d == f:
		good = noArgs == yes
	case d.Op == "call" && d.Aux == "fmt.Sprintf" && len(d.Args) == 2 && d.Args[0] == f && d.Args[1] == as:
		good = noArgs == no && noFmt == no
	case d.Op == "call" && strings.HasPrefix(d.Aux, "fmt.Sprint") && !strings.HasPrefix(d.Aux, "fmt.Sprintf") && !strings.HasPrefix(d.Aux, "fmt.Sprintln") && len(d.Args) == 1 && d.Args[0] == as:
		good = noFmt == yes
	case d.isStr() && d.Aux == "":
		good = noFmt == yes && noArgs == yes
	}
	r.check(good, "message", in.Pos(), st, "the message is its format, with its arguments only if it has any (%v)", d)
}

// emission: the formatter emits part after part of any list exactly once.
func (r *Run) emission(fr *formatRole) {
	e := r.engine()
	ev := r.event()
	top := T.mk("sym", "record", types.Typ[types.String])
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Name == "dynamic" {
			for _, a := range c.Args {
				if a == ev {
					return []Out{{Res: T.mk("render", "", c.Sig.Results().At(0).Type(), append([]*Term{c.FnT}, c.Args...)...)}}, true
				}
			}
		}
		return e.bufferCall(st, c, func(b, piece *Term) *Term {
			var idx *Term
			n := 0
			piece.find(func(t *Term) bool {
				if t.Op == "iaddr" && t.Args[0] == partsToken {
					if idx != t.Args[1] {
						n++
					}
					idx = t.Args[1]
				}
				return false
			})
			good := n == 1 && idx == add(st.A["last"], intTerm(1))
			r.check(good, "emission", c.Pos, st, "the record is built part after part, each emitted once (part %v after %v)", idx, st.A["last"])
			if idx != nil {
				st.A["last"] = idx
			}
			st.A["out"] = b
			return top
		})
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		next := add(st.A["last"], intTerm(1))
		r.check(st.facts.eval(lt0(sub(next, lenTerm(partsToken)))) == no, "emission complete", in.Pos(), st, "the record has every part of the layout (last one: %v)", st.A["last"])
		if st.A["out"] != nil {
			r.check(strip(res[0]) == st.content(st.A["out"]), "emission complete", in.Pos(), st, "what was emitted is the record returned (%v)", res[0])
		}
	}
	e.Entry(fr.format, []*Term{fr.obj, ev}, func(st *State, args []*Term) {
		for k, v := range fr.heap {
			st.heap[k] = v
		}
		assumeNonNil(st, ev)
		st.A["last"] = intTerm(-1)
		st.A["parts"] = partsToken
	})
	r.done(e, "Format")
	r.need("emission", 2)
	r.need("emission complete", 1)
}

// callerField recognises a result of runtime.Caller.
func callerResult(t *Term, i int64) bool {
	return t.Op == "ext" && t.C == i && t.Args[0].Op == "sym" && strings.HasPrefix(t.Args[0].Aux, "runtime.Caller@")
}

func runC07(r *Run) {
	fr := r.formatter(false)
	if fr == nil {
		return
	}
	for _, p := range fr.parts {
		if p.verb == nil {
			continue
		}
		name := "other"
		if p.verb.isStr() {
			name = p.verb.Aux
		}
		r.verb(fr, p, name)
	}
	for _, v := range documentedVerbs {
		r.need("verb "+v, 1)
	}
	r.need("verb other", 1)
}

var documentedVerbs = []string{"pid", "program", "module", "msg", "level", "lvl", "line", "longfile", "shortfile", "longpkg", "shortpkg", "longfunc", "shortfunc", "time"}

// ciFields: where the caller information of an event keeps what.
type ciFields struct {
	typ types.Type
	f   map[string]*types.Var
	idx map[string]int
}

func (r *Run) verb(fr *formatRole, p *parsed, name string) {
	caller := false
	switch name {
	case "line", "longfile", "shortfile", "longpkg", "shortpkg", "longfunc", "shortfunc":
		caller = true
	}
	ctxCall := func(memo *Term) func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		return func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if c.Name == "(context.Context).Value" && c.Args[0] == r.eventLoad(e, st, r.event(), "Ctx") && r.libraryKey(c.Args[1]) {
				return []Out{{Res: memo}}, true
			}
			return nil, false
		}
	}
	var ci ciFields
	r.render(fr, p, ctxCall(nilTerm), func(e *Engine, st *State, out *Term, in ssa.Instruction) {
		d := p.datum(out)
		if d == nil {
			r.bad("verb "+name, in.Pos(), st, "the verb is rendered once (%v)", out)
			return
		}
		d = strip(d)
		if caller {
			r.callerVerb(e, st, p, name, d, in, nil, nil)
			ci = r.ciOf(e, st, ci)
			return
		}
		r.plainVerb(e, st, p, name, d, in)
	})
	if !caller {
		return
	}
	if ci.typ == nil {
		r.missing("the caller information kept with an event")
		return
	}
	// captured before
	o := obj("captured caller", ci.typ)
	r.render(fr, p, ctxCall(T.mk("mki", "", ci.typ, o)), func(e *Engine, st *State, out *Term, in ssa.Instruction) {
		if st.facts.eval(eqTerm(o, nilTerm)) != no && !st.facts.assume(eqTerm(o, nilTerm), false) {
			return
		}
		d := p.datum(out)
		if d == nil {
			r.bad("verb "+name, in.Pos(), st, "the verb is rendered once (%v)", out)
			return
		}
		r.callerVerb(e, st, p, name, strip(d), in, o, &ci)
	})
}

// ciOf finds what the memoised caller information keeps where.
func (r *Run) ciOf(e *Engine, st *State, ci ciFields) ciFields {
	ctx := strip(r.eventLoad(e, st, r.event(), "Ctx"))
	if ctx.Op != "call" || ctx.Aux != "context.WithValue" || ctx.Args[2].Op != "mki" {
		return ci
	}
	if ci.typ == nil {
		ci = ciFields{typ: ctx.Args[2].Typ, f: map[string]*types.Var{}, idx: map[string]int{}}
	}
	o := ctx.Args[2].Args[0]
	s := structOf(ci.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		v := e.load(st, faddr(o, i, s.Field(i)), s.Field(i).Type())
		what := ""
		for k, n := range map[int64]string{0: "pc", 1: "file", 2: "line"} {
			if callerResult(v, k) {
				what = n
			}
		}
		if p, f := r.pkgOf(v), r.funOf(v); p {
			what = "pkg"
		} else if f {
			what = "fun"
		}
		if what != "" {
			ci.f[what], ci.idx[what] = s.Field(i), i
		}
	}
	return ci
}

// funcName: the name of the function a program counter belongs to, and where
// its package part ends.
func pkgEnd(t *Term) (fs *Term) {
	return t.find(func(x *Term) bool { return x.Op == "call" && x.Aux == "(*runtime.Func).Name" })
}

func pkgSplit(fs *Term) *Term {
	i := add(pureCall("strings.LastIndex", []*Term{fs, strTerm("/")}), intTerm(1))
	return add(i, pureCall("strings.Index", []*Term{sliceTerm(fs, i, nilTerm), strTerm(".")}))
}

func (r *Run) pkgOf(t *Term) bool {
	fs := pkgEnd(t)
	return fs != nil && t == sliceTerm(fs, nilTerm, pkgSplit(fs))
}

func (r *Run) funOf(t *Term) bool {
	fs := pkgEnd(t)
	return fs != nil && t == sliceTerm(fs, add(pkgSplit(fs), intTerm(1)), nilTerm)
}

func (r *Run) callerVerb(e *Engine, st *State, p *parsed, name string, d *Term, in ssa.Instruction, o *Term, ci *ciFields) {
	kind := "verb " + name
	field := func(what string) *Term {
		if ci == nil || ci.f[what] == nil {
			return nil
		}
		return T.mk("ld", "", nil, faddr(o, ci.idx[what], ci.f[what]))
	}
	// the datum itself, below the last step
	x := d
	switch name {
	case "shortfile":
		if !(d.Op == "call" && d.Aux == "path/filepath.Base") && !(d.Op == "call" && d.Aux == "path.Base") {
			if d.isStr() && d.Aux == "???" {
				return
			}
			r.bad(kind, in.Pos(), st, "shortfile is the last element of the file (%v)", d)
			return
		}
		x = d.Args[0]
	case "shortpkg":
		if d.isStr() {
			x = d
		} else if d.Op == "call" && d.Aux == "path.Base" {
			x = d.Args[0]
		} else {
			r.bad(kind, in.Pos(), st, "shortpkg is the last element of the package (%v)", d)
			return
		}
	case "shortfunc":
		// fun[LastIndex(fun, ".")+1:]
		if d.Op == "slice" {
			full := d.find(func(t *Term) bool { return t.Op == "call" && t.Aux == "strings.LastIndex" && t.Args[1] == strTerm(".") })
			if full != nil && d == sliceTerm(full.Args[0], add(full, intTerm(1)), nilTerm) {
				x = full.Args[0]
			}
		} else if st.facts.eval(lt0(pureCall("strings.LastIndex", []*Term{d, strTerm(".")}))) == yes {
			x = d // no receiver or package in it
		} else if d.Op != "str" {
			r.bad(kind, in.Pos(), st, "shortfunc is the last element of the function (%v)", d)
			return
		}
	}
	if x.isStr() || x.isInt() {
		// nothing is known of the caller
		unknownCaller := false
		for k, v := range st.facts {
			if k.Op == "ext" && callerResult(k, 3) && !v {
				unknownCaller = true
			}
			if k.Op == "eq" && v && k.find(func(t *Term) bool { return t.Op == "call" && t.Aux == "runtime.FuncForPC" }) != nil {
				unknownCaller = true
			}
			if k.Op == "lt0" && k.find(func(t *Term) bool { return t.Op == "call" && t.Aux == "(*runtime.Func).Name" }) != nil {
				unknownCaller = true
			}
		}
		r.check(unknownCaller, kind, in.Pos(), st, "%s is a fixed text only if the caller cannot be told (%v)", name, d)
		return
	}
	good := false
	switch name {
	case "line":
		good = callerResult(x, 2) || x == field("line")
	case "longfile", "shortfile":
		good = callerResult(x, 1) || x == field("file")
	case "longpkg", "shortpkg":
		good = r.pkgOf(x) && fromPC(x, field("pc")) || x == field("pkg")
	case "longfunc", "shortfunc":
		good = r.funOf(x) && fromPC(x, field("pc")) || x == field("fun")
	}
	r.check(good, kind, in.Pos(), st, "%s renders that of the caller (%v)", name, d)
}

// fromPC: the function is that of the captured program counter.
func fromPC(x, pc *Term) bool {
	f := x.find(func(t *Term) bool { return t.Op == "call" && t.Aux == "runtime.FuncForPC" })
	return f != nil && (callerResult(f.Args[0], 0) || f.Args[0] == pc)
}

func (r *Run) plainVerb(e *Engine, st *State, p *parsed, name string, d *Term, in ssa.Instruction) {
	ev := r.event()
	ld := func(f string) *Term { return r.eventLoad(e, st, ev, f) }
	kind := "verb " + name
	switch name {
	case "pid":
		r.check(d.Op == "sym" && strings.Contains(d.Aux, "os.Getpid@"), kind, in.Pos(), st, "pid renders the process id (%v)", d)
	case "program":
		good := d.Op == "call" && d.Aux == "path/filepath.Base" && d.Args[0].find(func(t *Term) bool {
			return t.Op == "iaddr" && t.Args[1].isInt() && t.Args[1].C == 0 && t.Args[0].find(func(g *Term) bool { return g.Op == "global" && g.Aux == "os.Args" }) != nil
		}) != nil
		r.check(good, kind, in.Pos(), st, "program renders the base name of os.Args[0] (%v)", d)
	case "module":
		r.check(d == ld("Name"), kind, in.Pos(), st, "module renders the name of the logger (%v)", d)
	case "level":
		r.check(d == T.mk("levelString", "", nil, ld("Level")), kind, in.Pos(), st, "level renders the long name of the event's level (%v)", d)
	case "lvl":
		r.check(d == T.mk("levelShortStr", "", nil, ld("Level")), kind, in.Pos(), st, "lvl renders the short name of the event's level (%v)", d)
	case "time":
		good := d.Op == "call" && d.Aux == "(time.Time).Format" && d.Args[0] == ld("Time")
		if good && p.spec != nil {
			good = d.Args[1] == p.spec || d.Args[1].isStr() && st.facts.eval(eqTerm(p.spec, strTerm(""))) == yes || d.Args[1].isStr() && st.facts.eval(eqTerm(lenTerm(p.spec), intTerm(0))) == yes
		} else if good {
			good = d.Args[1].isStr()
		}
		r.check(good, kind, in.Pos(), st, "time renders the time of the event in the given layout (%v)", d)
	case "msg":
		r.message2(kind, e, st, d, in)
	default:
		if name != "other" && r.isDocumented(name) {
			return
		}
		x := d
		if x.Op == "dyn" {
			x = x.Args[0]
		}
		good := x.Op == "call" && x.Aux == "(context.Context).Value" && x.Args[0] == ld("Ctx") && (strip(x.Args[1]) == p.verb || p.facts.eval(eqTerm(strip(x.Args[1]), p.verb)) == yes)
		if !good && x.Op == "str" {
			good = true // the zero text of a failed assertion
		}
		r.check(good, "verb other", in.Pos(), st, "%v is looked up in the values attached to the event (%v)", p.verb, d)
	}
}

func (r *Run) isDocumented(n string) bool {
	for _, v := range documentedVerbs {
		if v == n {
			return true
		}
	}
	return false
}

// message2: the datum is made of the event's own format and arguments.
func (r *Run) message2(kind string, e *Engine, st *State, d *Term, in ssa.Instruction) {
	ev := r.event()
	f, as := r.eventLoad(e, st, ev, "Format"), r.eventLoad(e, st, ev, "Arguments")
	good := d == f || d.isStr() && d.Aux == "" || d.Op == "call" && strings.HasPrefix(d.Aux, "fmt.Sprint")
	if good && d.Op == "call" {
		for _, a := range d.Args {
			good = good && (a == f || a == as)
		}
	}
	r.check(good, kind, in.Pos(), st, "msg renders the message of the event (%v)", d)
}

func runC09(r *Run) {
	for _, t := range r.impls("Formatter") {
		for _, m := range []string{"Format", "CallerInfoFlag"} {
			fn := r.method(t, m)
			if fn == nil {
				r.missing(m)
				continue
			}
			r.noEffects(fn, m)
		}
	}
	// the verbs, which the formatter reaches through a table
	verbs, _ := r.formatTable()
	for _, v := range sortedKeys(verbs) {
		r.noEffects(verbs[v], "verb "+v)
	}
	r.need("write", 5)
	r.need("record", 1)
}

func (r *Run) noEffects(fn *ssa.Function, what string) {
	ev := r.event()
	e := r.engine()
	e.Havoc = false
	own := func(e *Engine, st *State, a *Term) bool {
		o := root(a)
		return isFreshObj(o)
	}
	memo := func(e *Engine, st *State, a, v *Term) bool {
		// the event's context, extended under a private key
		if fv := fieldVar(a); a.Op == "faddr" && a.Args[0] == ev && fv.Name() == "Ctx" {
			x := strip(v)
			return x.Op == "call" && x.Aux == "context.WithValue" && r.libraryKey(x.Args[1]) && x.Args[0] == e.load(st, a, fv.Type())
		}
		// memoised caller information itself
		o := root(a)
		for o.Op == "dyn" {
			o = o.Args[0]
		}
		return o.Op == "call" && o.Aux == "(context.Context).Value" && r.libraryKey(o.Args[1])
	}
	e.H.Store = func(e *Engine, st *State, a, v *Term, in ssa.Instruction) {
		r.check(own(e, st, a) || memo(e, st, a, v), "write", in.Pos(), st, "%s writes only to what it allocates, or memoises caller information (%v)", what, a)
	}
	e.H.MapUpd = func(e *Engine, st *State, m, k, v *Term, in ssa.Instruction) {
		r.check(isFreshObj(root(m)), "write", in.Pos(), st, "%s changes no shared map (%v)", what, m)
	}
	e.H.Chan = func(e *Engine, st *State, op string, ch, v *Term, in ssa.Instruction) {
		r.bad("write", in.Pos(), st, "%s uses a channel", what)
	}
	e.H.Go = func(e *Engine, st *State, c *CallEv) { r.bad("write", c.Pos, st, "%s starts a goroutine", what) }
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Name == "dynamic" || c.Fn != nil && c.Fn.Blocks != nil && r.P.IsRepo(c.Fn) {
			if c.Name == "dynamic" && len(c.Args) > 0 {
				return []Out{{Res: e.fresh(st, c.Frame, c.Instr, "render", nil)}}, true
			}
			return nil, false
		}
		if !isPure(c.Name) && !harmless[c.Name] {
			for _, a := range c.Args {
				x := strip(a)
				if x.Op != "alloc" && x.Op != "faddr" && x.Op != "iaddr" && x.Op != "param" && x.Op != "ld" && x.Op != "global" {
					continue
				}
				if x.Op == "ld" && !mutablePtr(x.Typ) {
					continue
				}
				r.check(isFreshObj(root(x)), "write", c.Pos, st, "%s hands only its own objects to %s (%v)", what, c.Name, x)
			}
		}
		return e.bufferCall(st, c, func(b, piece *Term) *Term { return T.mk("own", "", types.Typ[types.String], b) })
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 1 || res[0].Typ == nil && res[0].Op != "own" {
			return
		}
		if sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok && isStringOrBytes(sl) {
			x := strip(res[0])
			ok := x.Op == "own" && isFreshObj(root(x.Args[0])) || x.isConst() || x.Op == "mkslice" || x.Op == "append" || x.Op == "appendall" || x.Op == "conv" || res[0].Op == "conv" || x.Op == "cat"
			r.check(ok, "record", in.Pos(), st, "the record %s returns is its own memory (%v)", what, res[0])
		}
	}
	var args []*Term
	for _, p := range fn.Params {
		if types.Identical(deref(p.Type()), r.apiType("Event")) {
			args = append(args, ev)
		} else {
			args = append(args, obj(p.Name(), p.Type()))
		}
	}
	e.Entry(fn, args, func(st *State, args []*Term) { assumeNonNil(st, args...) })
	r.done(e, what)
	r.ok("write", fn.Pos(), "%s analysed", what)
}

// harmless: library calls that do not change what their arguments point to.
var harmless = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"fmt.Fprintf": false, "runtime.Caller": true, "runtime.FuncForPC": true, "time.Now": true, "os.Getpid": true,
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
}

func mutablePtr(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		return false
	}
	return true
}

var _ = sort.Strings
