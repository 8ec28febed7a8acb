package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C32",
		Technique: "typestate of the signal channel over SSA of the package initialisers and the goroutines they start",
		Rule:      "exactly the interrupt and termination signals are intercepted, on a buffered channel; after each receive from it the manager's Close is called and the interception is stopped on every path before the next receive or the end of the goroutine, and only after a receive",
		Trusts:    []string{"Manager.Close closes all outputs (C21)", "signal.Stop and signal.Reset restore the default behaviour"},
		Run:       runC32})
	register(&Rule{ID: "C33",
		Technique: "who-may-call enumeration over the type-checked program, control dependence on failure conditions",
		Rule:      "os.Stdout is read only to become the destination of an output built by the console creator; nothing else that writes to standard output is called; whatever writes a diagnostic writes to standard error and runs only where an error is not nil or a list of outputs is empty",
		Trusts:    []string{"package log writes to standard error unless redirected"},
		Run:       runC33})
	register(&Rule{ID: "C34",
		Technique: "abstract interpretation of the package initialisers and of the registered creators over SSA",
		Rule:      "every path of initialisation registers, on the process-wide manager, each documented type with a creator all of whose successful results are of the kind named, and installs a default configuration whose root logger has a level and outputs that lead to registered types; the entry points pass their argument to, and return the answer of, the process-wide registry",
		Run:       runC34})
}

// process is what the package initialisers set up.
type process struct {
	mgr, fac *ssa.Global
	pkg      *ssa.Package
	mgrPos   token.Pos
}

// entryPoints finds the process-wide objects by the exported functions of the
// root package.
func (r *Run) entryPoints() *process {
	p := &process{}
	mgrT, logT := r.apiType("Manager"), r.apiType("Logger")
	var root *ssa.Package
	for s := range r.P.Repo {
		if root == nil || len(s.Pkg.Path()) < len(root.Pkg.Path()) {
			root = s
		}
	}
	if root == nil {
		r.missing("the root package")
		return nil
	}
	for _, f := range r.P.srcFuncs() {
		if f.Pkg != root || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 {
			continue
		}
		rt := f.Signature.Results().At(0).Type()
		isM, isL := types.Identical(rt, mgrT), types.Identical(rt, logT)
		if !isM && !isL {
			continue
		}
		e := newEngine(r.P, nil)
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if isL && c.Name == r.ifaceMethod("Factory", "GetLogger") {
				g := strip(c.Args[0])
				if g.Op == "ld" && g.Args[0].Op == "global" {
					p.fac = g.Args[0].Obj.(*ssa.Global)
				}
				r.check(p.fac != nil, "entry point", c.Pos, st, "%s asks the process-wide registry (%v)", f.Name(), g)
				r.check(len(c.Args) == 2 && c.Args[1] == paramTerm(f.Params[0].Name(), f.Params[0].Type()), "entry point", c.Pos, st, "%s asks for the name given (%v)", f.Name(), c.Arg(1))
				return []Out{{Res: typedCall(c)}}, true
			}
			return nil, false
		}
		n := 0
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			n++
			g := strip(res[0])
			if isM {
				ok := g.Op == "ld" && g.Args[0].Op == "global"
				if ok {
					ng := g.Args[0].Obj.(*ssa.Global)
					ok = p.mgr == nil || p.mgr == ng
					p.mgr, p.mgrPos = ng, in.Pos()
				}
				r.check(ok, "entry point", in.Pos(), st, "%s returns the process-wide manager (%v)", f.Name(), g)
				return
			}
			r.check(g.Op == "call" && strings.HasSuffix(g.Aux, "GetLogger"), "entry point", in.Pos(), st, "%s returns what the registry gives (%v)", f.Name(), g)
		}
		e.Entry(f, nil, nil)
		r.done(e, f.Name())
	}
	if p.mgr == nil || p.fac == nil {
		r.missing("the process-wide manager and registry")
		return nil
	}
	p.pkg = p.mgr.Pkg
	// they are set once, by initialisation
	for _, g := range []*ssa.Global{p.mgr, p.fac} {
		r.P.instrs(func(f *ssa.Function, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if ok && s.Addr == ssa.Value(g) {
				r.check(f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"), "set once", in.Pos(), nil, "%s is set by initialisation only", g.Name())
			}
		})
	}
	return p
}

// spawnedGo is a goroutine started by initialisation.
type spawnedGo struct {
	c    *CallEv
	heap map[*Term]*Term
	fs   Facts
	A    map[string]*Term
}

// initRun interprets the initialisation of the package of the process-wide
// objects, with the manager's methods opaque.
func (r *Run) initRun(p *process, onMgr func(e *Engine, st *State, c *CallEv, method string), lib func(e *Engine, st *State, c *CallEv) ([]Out, bool), end func(e *Engine, st *State, in ssa.Instruction)) []*spawnedGo {
	fn := p.pkg.Func("init")
	if fn == nil {
		r.missing("the initialiser of " + p.pkg.Pkg.Path())
		return nil
	}
	mi := r.iface("Manager")
	e := newEngine(r.P, nil)
	e.Havoc, e.Unroll = false, 32
	r.adopt(e)
	var gos []*spawnedGo
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Fn != nil && isInit(c.Fn) && c.Fn != fn {
			return []Out{{}}, true
		}
		m := ""
		for i := 0; i < mi.NumMethods(); i++ {
			if c.Name == mi.Method(i).FullName() {
				m = mi.Method(i).Name()
			}
			if c.Fn != nil && c.Fn.Signature.Recv() != nil && c.Fn.Name() == mi.Method(i).Name() && types.Implements(c.Fn.Signature.Recv().Type(), mi) {
				m = c.Fn.Name()
			}
		}
		if m != "" {
			onMgr(e, st, c, m)
			if c.Sig.Results().Len() == 0 {
				return []Out{{}}, true
			}
			return []Out{{Res: e.fresh(st, c.Frame, c.Instr, "result of "+m, nil)}}, true
		}
		if lib != nil {
			return lib(e, st, c)
		}
		return nil, false
	}
	e.H.Go = func(e *Engine, st *State, c *CallEv) {
		c2 := *c
		if c.FnT != nil && c.FnT.Op == "closure" {
			c2.Args = append(append([]*Term{}, c.Args...), c.FnT.Args...)
		}
		s := st.clone()
		gos = append(gos, &spawnedGo{&c2, s.heap, s.facts, s.A})
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if end != nil {
			end(e, st, in)
		}
	}
	e.Entry(fn, nil, func(st *State, args []*Term) {
		for _, m := range p.pkg.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() == "init$guard" {
				st.heap[globalTerm(g)] = falseTerm
			}
		}
	})
	r.done(e, "initialisation")
	return gos
}

func (r *Run) isManager(e *Engine, st *State, p *process, t *Term) bool {
	g := e.load(st, globalTerm(p.mgr), deref(p.mgr.Type()))
	return t == g || strip(t) == strip(g)
}

func runC32(r *Run) {
	p := r.entryPoints()
	if p == nil {
		return
	}
	// where signals are intercepted
	r.P.instrs(func(f *ssa.Function, in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		switch n := calleeName(c.Common()); n {
		case "os/signal.Notify":
			pk := f
			for pk.Parent() != nil {
				pk = pk.Parent()
			}
			r.check(pk.Pkg == p.pkg, "intercepted", in.Pos(), nil, "signals are intercepted by initialisation")
		case "os/signal.Ignore", "os/signal.NotifyContext":
			r.bad("intercepted", in.Pos(), nil, "signals are intercepted by %s", n)
		}
	})
	var ch *Term
	n := 0
	lib := func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		switch c.Name {
		case "os/signal.Notify":
			n++
			st.A["=notified"] = trueTerm
			ch = strip(c.Args[0])
			buffered := false
			if ch.Op == "alloc" {
				if v, ok := r.chanSize(ch); ok {
					buffered = v >= 1
				}
			}
			r.check(buffered, "intercepted", c.Pos, st, "the channel of the signals has room for one")
			sigs := signals(e, st, c.Args[1])
			r.check(sigs["interrupt"] && sigs["termination"] && !sigs["another"], "intercepted", c.Pos, st, "the signals intercepted are interrupt and termination (%v)", c.Args[1])
			return []Out{{}}, true
		case "os/signal.Stop", "os/signal.Reset":
			r.bad("intercepted", c.Pos, st, "the interception is stopped by initialisation itself")
			return []Out{{}}, true
		}
		return nil, false
	}
	gos := r.initRun(p, func(e *Engine, st *State, c *CallEv, m string) {}, lib, func(e *Engine, st *State, in ssa.Instruction) {
		r.check(st.A["=notified"] != nil, "intercepted", in.Pos(), st, "initialisation intercepts the termination signals")
	})
	if n == 0 || ch == nil {
		r.missing("the interception of signals")
		return
	}
	mi := r.iface("Manager")
	shut := false
	r.P.instrs(func(f *ssa.Function, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && calleeName(c.Common()) == "builtin.close" && strings.Contains(types.TypeString(c.Common().Args[0].Type(), nil), "os.Signal") {
			shut = true
		}
	})
	handled := false
	for _, g := range gos {
		if g.c.Fn == nil || g.c.Fn.Blocks == nil {
			continue
		}
		takes := false
		e := newEngine(r.P, nil)
		e.Havoc = false
		r.adopt(e)
		settled := func(st *State, pos token.Pos, when string) {
			if st.A["got"] == nil {
				return
			}
			r.check(st.A["closed"] != nil, "outputs closed", pos, st, "the manager is closed after a signal, before %s", when)
			r.check(st.A["stopped"] != nil, "given back", pos, st, "the signals are given back after the first, before %s", when)
		}
		e.H.Chan = func(e *Engine, st *State, op string, c, v *Term, in ssa.Instruction) {
			if op == "recvok" && strip(c) == ch && !shut {
				st.facts.assume(v, true) // nobody closes the channel
			}
			if (op == "recv" || op == "select-recv") && strip(c) == ch {
				takes = true
				settled(st, in.Pos(), "waiting for another")
				st.A["got"] = trueTerm
			}
		}
		// whatever keeps the goroutine from going on
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			isClose := false
			for i := 0; i < mi.NumMethods(); i++ {
				if mi.Method(i).Name() == "Close" && c.Name == mi.Method(i).FullName() {
					isClose = true
				}
			}
			if c.Fn != nil && c.Fn.Name() == "Close" && c.Fn.Signature.Recv() != nil && types.Implements(c.Fn.Signature.Recv().Type(), mi) {
				isClose = true
			}
			switch {
			case isClose:
				r.check(st.A["got"] != nil, "outputs closed", c.Pos, st, "the manager is closed only after a signal")
				if r.isManager(e, st, p, c.Args[0]) {
					st.A["closed"] = trueTerm
				}
				return []Out{{}}, true
			case c.Name == "os/signal.Stop":
				r.check(st.A["got"] != nil || c.Defer, "given back", c.Pos, st, "the signals are given back only after one came")
				if strip(c.Args[0]) == ch {
					st.A["stopped"] = trueTerm
				}
				return []Out{{}}, true
			case c.Name == "os/signal.Reset":
				r.check(st.A["got"] != nil || c.Defer, "given back", c.Pos, st, "the signals are given back only after one came")
				sigs := signals(e, st, c.Args[0])
				if len(sigs) == 0 || sigs["interrupt"] && sigs["termination"] {
					st.A["stopped"] = trueTerm
				}
				return []Out{{}}, true
			case c.Name == "os/signal.Notify":
				delete(st.A, "stopped")
				return []Out{{}}, true
			case c.Name == "os.Exit":
				settled(st, c.Pos, "the process ends")
				e.dead = true
				return nil, false
			}
			return nil, false
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			if st.A["got"] != nil {
				settled(st, in.Pos(), "the end")
			}
		}
		e.Entry(g.c.Fn, g.c.Args, func(st *State, args []*Term) {
			for k, v := range g.heap {
				st.heap[k] = v
			}
			for k, v := range g.fs {
				st.facts[k] = v
			}
		})
		if takes {
			handled = true
			r.done(e, "the goroutine that waits for a signal")
		}
	}
	r.check(handled, "outputs closed", p.mgrPos, nil, "a goroutine waits for the signals")
	r.need("given back", 1)
	r.need("outputs closed", 1)
}

// signals names the signals of a list.
func signals(e *Engine, st *State, list *Term) map[string]bool {
	sigs := map[string]bool{}
	if list == nilTerm || strip(list) == nilTerm {
		return sigs
	}
	els := e.elements(st, list)
	if len(els) == 0 {
		sigs["another"] = true
	}
	for _, x := range els {
		switch v := strip(x); {
		case v.isInt() && v.C == 2, v.Op == "ld" && v.Args[0].Op == "global" && v.Args[0].Obj.(*ssa.Global).RelString(nil) == "os.Interrupt":
			sigs["interrupt"] = true
		case v.isInt() && v.C == 15:
			sigs["termination"] = true
		default:
			sigs["another"] = true
		}
	}
	return sigs
}

// chanSize is the capacity a channel is made with.
func (r *Run) chanSize(ch *Term) (int64, bool) {
	var n int64
	found := false
	r.P.instrs(func(f *ssa.Function, in ssa.Instruction) {
		mc, ok := in.(*ssa.MakeChan)
		if !ok {
			return
		}
		if !strings.Contains(types.TypeString(mc.Type(), nil), "os.Signal") {
			return
		}
		if k, ok := mc.Size.(*ssa.Const); ok {
			if !found || k.Int64() < n {
				n = k.Int64()
			}
			found = true
		}
	})
	return n, found
}

func runC34(r *Run) {
	p := r.entryPoints()
	if p == nil {
		return
	}
	kinds := map[string][]string{"Formatter": {"text"}, "Output": {"console", "size_rolling_file", "time_rolling_file", "syslog"}}
	creators := map[string]map[*Term]bool{}
	facOK := false
	r.initRun(p, func(e *Engine, st *State, c *CallEv, m string) {
		switch m {
		case "RegisterFormatterCreator", "RegisterOutputCreator":
			kind := strings.TrimSuffix(strings.TrimPrefix(m, "Register"), "Creator")
			if !r.isManager(e, st, p, c.Args[0]) {
				r.bad("registered", c.Pos, st, "a type is registered on another manager than the process-wide one")
				return
			}
			k := c.Args[1]
			if !k.isStr() {
				return
			}
			f := c.Args[2]
			for f.Op == "mki" || f.Op == "conv" {
				f = f.Args[0]
			}
			st.A["=reg:"+kind+":"+k.Aux] = f
		case "SetConfig":
			if r.isManager(e, st, p, c.Args[0]) {
				r.defaultConfig(e, st, c)
				st.A["=configured"] = trueTerm
			}
		}
	}, nil, func(e *Engine, st *State, in ssa.Instruction) {
		for _, kind := range []string{"Formatter", "Output"} {
			for _, n := range kinds[kind] {
				f := st.A["=reg:"+kind+":"+n]
				r.check(f != nil, "registered", in.Pos(), st, "initialisation registers the %s type %s", strings.ToLower(kind), n)
				if f != nil {
					if creators[kind+":"+n] == nil {
						creators[kind+":"+n] = map[*Term]bool{}
					}
					creators[kind+":"+n][f] = true
				}
			}
		}
		r.check(st.A["=configured"] != nil, "default", in.Pos(), st, "initialisation installs a default configuration")
		// the registry works with the same manager
		fac := strip(e.load(st, globalTerm(p.fac), deref(p.fac.Type())))
		for k, v := range st.heap {
			if k.Op == "faddr" && k.Args[0] == fac && r.isManager(e, st, p, v) {
				facOK = true
			}
		}
		r.check(facOK, "one manager", in.Pos(), st, "the process-wide registry uses the process-wide manager")
	})
	for _, kind := range []string{"Formatter", "Output"} {
		for _, n := range kinds[kind] {
			for _, f := range termList(creators[kind+":"+n]) {
				r.buildsWhat(kind, n, f)
			}
		}
	}
}

func termList(m map[*Term]bool) []*Term {
	var fs []*Term
	for f := range m {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return fs
}

// registeredTypes gives the creators which initialisation registers.
func (r *Run) registeredTypes(p *process, do func(kind, name string, f *Term)) {
	seen := map[string]map[*Term]bool{}
	r.initRun(p, func(e *Engine, st *State, c *CallEv, m string) {
		kind := strings.TrimSuffix(strings.TrimPrefix(m, "Register"), "Creator")
		if kind != "Formatter" && kind != "Output" || len(c.Args) < 3 || !c.Args[1].isStr() {
			return
		}
		f := c.Args[2]
		for f.Op == "mki" || f.Op == "conv" {
			f = f.Args[0]
		}
		k := kind + ":" + c.Args[1].Aux
		if seen[k] == nil {
			seen[k] = map[*Term]bool{}
		}
		seen[k][f] = true
	}, nil, nil)
	for _, k := range regKeys(seen) {
		kind, name, _ := strings.Cut(k, ":")
		for _, f := range termList(seen[k]) {
			do(kind, name, f)
		}
	}
}

func regKeys(m map[string]map[*Term]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// reachable lists the values an object leads to.
func reachable(st *State, from *Term) map[*Term]bool {
	seen := map[*Term]bool{}
	objs := map[*Term]bool{}
	work := []*Term{from}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		work = append(work, t.Args...)
		if t.Op != "alloc" || objs[t] {
			continue
		}
		objs[t] = true
		for k, v := range st.heap {
			if len(k.Args) > 0 && root(k) == t {
				work = append(work, v)
			}
		}
	}
	return seen
}

// creatorRun interprets a creator for a type and lists what each successful
// result leads to.
func (r *Run) creatorRun(kind, name string, f *Term, built func(st *State, res *Term, all map[*Term]bool, in ssa.Instruction)) {
	fn, _ := f.Obj.(*ssa.Function)
	if fn == nil || fn.Blocks == nil {
		r.bad("builds", token.NoPos, nil, "the creator registered for %s is not known (%v)", name, f)
		return
	}
	e := r.engine()
	e.Havoc = false
	e.H.NoInline = func(f *ssa.Function) bool {
		return r.textParser(f) || r.ioWrite(f) || kind == "Formatter" && f.Blocks != nil && len(f.Blocks) > 1 && f.Object() != nil && f != fn
	}
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if r.textParser(c.Fn) {
			return []Out{{Res: typedCall(c)}}, true
		}
		switch c.Name {
		case "log/syslog.New", "log/syslog.Dial", "log/syslog.NewLogger":
			w := e.freshAlloc(st, c.Frame, c.Instr, "syslog", deref(c.Sig.Results().At(0).Type()))
			bad := T.mk("tuple", "", nil, nilTerm, T.mk("mki", "", errorStringType, e.freshAlloc(st, c.Frame, c.Instr, "error", nil)))
			return []Out{{Res: T.mk("tuple", "", nil, w, nilTerm)}, {Res: bad}}, true
		}
		return nil, false
	}
	e.H.Panic = func(e *Engine, st *State, v *Term, in ssa.Instruction) {
		r.bad("builds", in.Pos(), st, "building %s panics", name)
	}
	e.H.Go = func(e *Engine, st *State, c *CallEv) {}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) == 2 && st.facts.eval(eqTerm(res[1], nilTerm)) == no {
			return
		}
		if st.facts.eval(eqTerm(res[0], nilTerm)) == yes {
			r.bad("builds", in.Pos(), st, "building %s gives nothing and no error", name)
			return
		}
		built(st, res[0], reachable(st, res[0]), in)
	}
	e.Entry(fn, nil, func(st *State, args []*Term) {
		if len(args) == 1 {
			assumeNonNil(st, args[0])
			v, _ := e.mapGet(st, args[0], strTerm("type"), types.Typ[types.String])
			st.facts.assume(eqTerm(v, strTerm(name)), true)
		}
	})
	r.done(e, "creator of "+name)
}

func isStdout(t *Term) bool {
	g := t
	if t.Op == "ld" {
		g = t.Args[0]
	}
	gg, ok := g.Obj.(*ssa.Global)
	return g.Op == "global" && ok && gg.RelString(nil) == "os.Stdout"
}

// keepsOff: no output a creator builds for a type leads to standard output.
func (r *Run) keepsOff(name string, f *Term) {
	r.creatorRun("Output", name, f, func(st *State, res *Term, all map[*Term]bool, in ssa.Instruction) {
		off := true
		for t := range all {
			off = off && !isStdout(t)
		}
		r.check(off, "keeps off", in.Pos(), st, "what is built for %s does not write to standard output", name)
	})
}

// buildsWhat: all a creator builds for a type is of that kind.
func (r *Run) buildsWhat(kind, name string, f *Term) {
	made := 0
	r.creatorRun(kind, name, f, func(st *State, res *Term, all map[*Term]bool, in ssa.Instruction) {
		made++
		has := map[string]bool{}
		for t := range all {
			if isStdout(t) {
				has["console"] = true
			}
			if t.Op == "alloc" && t.Typ != nil {
				switch s := types.TypeString(deref(t.Typ), nil); {
				case strings.HasSuffix(s, ".rollingFileWriterSize"):
					has["size_rolling_file"] = true
				case strings.HasSuffix(s, ".rollingFileWriterTime"):
					has["time_rolling_file"] = true
				case s == "log/syslog.Writer":
					has["syslog"] = true
				}
			}
			if t.Op == "mki" && kind == "Formatter" && types.Implements(t.Typ, r.iface("Formatter")) {
				has["text"] = true
			}
		}
		r.check(has[name] && len(has) == 1, "builds", in.Pos(), st, "what is built for %s is of that kind (%v)", name, keysOf(has))
		r.check(res.Op == "mki", "builds", in.Pos(), st, "what is built for %s is of a known type", name)
	})
	r.check(made > 0, "builds", token.NoPos, nil, "the creator of %s can succeed", name)
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// defaultConfig: the configuration installed gives the root logger outputs of
// registered types.
func (r *Run) defaultConfig(e *Engine, st *State, c *CallEv) {
	cfg := strip(c.Args[1])
	str := types.Typ[types.String]
	list := func(n string) []*Term { return e.elements(st, r.cfgField(e, st, cfg, n)) }
	field := func(t *Term, n string) *Term {
		s := structOf(r.apiType("CfgLogger"))
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return fieldOf(t, i, s.Field(i))
			}
		}
		return nilTerm
	}
	get := func(m *Term, k string) *Term { v, _ := e.mapGet(st, m, strTerm(k), str); return v }
	find := func(xs []*Term, name *Term) *Term {
		for _, x := range xs {
			if get(x, "name") == name {
				return x
			}
		}
		return nil
	}
	outs, fmts := list("Outputs"), list("Formats")
	found := false
	for _, l := range list("Loggers") {
		if n := field(l, "Name"); !n.isStr() || n.Aux != "root" {
			continue
		}
		found = true
		lv := field(l, "Level")
		known := false
		for _, n := range []string{"all", "trace", "debug", "info", "warn", "error", "critical"} {
			if lv.isStr() && strings.EqualFold(lv.Aux, n) {
				known = true
			}
		}
		r.check(known, "default", c.Pos, st, "the default root logger has a level that lets events pass (%v)", lv)
		names := e.elements(st, field(l, "OutputNames"))
		r.check(len(names) > 0, "default", c.Pos, st, "the default root logger has outputs")
		for _, n := range names {
			o := find(outs, n)
			ok := o != nil
			if ok {
				t := get(o, "type")
				ok = t.isStr() && st.A["=reg:Output:"+t.Aux] != nil
				f := find(fmts, get(o, "format"))
				ok = ok && f != nil
				if f != nil {
					ft := get(f, "type")
					ok = ok && ft.isStr() && st.A["=reg:Formatter:"+ft.Aux] != nil
				}
			}
			r.check(ok, "default", c.Pos, st, "the default output %v and its format are defined, of registered types", n)
		}
	}
	r.check(found, "default", c.Pos, st, "the default configuration has a root logger")
}
