package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C10",
		Technique: "path-sensitive dataflow (difference bounds) over SSA from every constructed output and its goroutine",
		Rule:      "for every output a constructor or creator builds: an event is passed to the destination, the queue or the batch only in states whose facts entail level >= threshold or that decide it later, and is discarded by an open output only where the facts entail level < threshold",
		Trusts:    []string{"library writers write what they are given"},
		Run:       func(r *Run) { r.outputRule("C10") }})
	register(&Rule{ID: "C11",
		Technique: "lock-set typestate and emission counting over SSA, nil-guard facts for the formatter",
		Rule:      "on every path of Send of a synchronous output that accepts the event there is exactly one write to the destination, of the whole rendered record, under an exclusive lock that belongs to the output; the formatter is used only where it is known not to be nil, and a record containing the message is rendered without it",
		Trusts:    []string{"log/syslog.Writer serialises its own writes"},
		Run:       func(r *Run) { r.outputRule("C11") }})
	register(&Rule{ID: "C12",
		Technique: "typestate of queue, batch buffer and completion signal over SSA of Send, Close and the output's goroutine",
		Rule:      "an open output queues each event exactly once by a blocking send; the one goroutine renders each received event exactly once into the batch, writes the batch once before emptying it, ends only on a closed queue with the batch written and signals after that; Close waits for that signal on every path after shutting the queue; outputs that wrap another pass Send and Close on",
		Trusts:    []string{"channels are first in, first out"},
		Run:       func(r *Run) { r.outputRule("C12") }})
	register(&Rule{ID: "C13",
		Technique: "lock-set and flag typestate over SSA of Send, Close and the output's goroutine",
		Rule:      "the queue is shut only under the exclusive lock with the closed flag known to be unset, and the flag is set before the lock is released; an event is queued only under that lock with the flag known to be unset; the goroutine never takes that lock and blocks on nothing but its queue, and signals its end exactly once",
		Run:       func(r *Run) { r.outputRule("C13") }})
	register(&Rule{ID: "C14",
		Technique: "constant propagation of the level through the syslog output (SSA)",
		Rule:      "for each level, every accepting path of Send calls exactly one syslog method, the one of the level's severity, with the formatted record",
		Run:       runC14})
}

// sink is an output as a constructor builds it.
type sink struct {
	label string
	fn    *ssa.Function
	obj   *Term // the interface value
	heap  map[*Term]*Term
	full  map[*Term]*Term // including what may change later
	facts Facts
	dests map[*Term]bool
	bufs  []*Term
	thr   *Term
	spawn []*CallEv // goroutines started
	early bool      // started before the completion signal was set up
	added map[*Term]int64
	pos   token.Pos
	// found by closeRole
	flags map[*Term]bool
}

func isEventPtr(r *Run, t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), r.apiType("Event"))
}

// eventChan: channels that carry events.
func (r *Run) eventChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && isEventPtr(r, c.Elem())
}

func (r *Run) chanOfInstr(in ssa.Instruction) []types.Type {
	switch x := in.(type) {
	case *ssa.Send:
		return []types.Type{x.Chan.Type()}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return []types.Type{x.X.Type()}
		}
	case *ssa.Select:
		var ts []types.Type
		for _, s := range x.States {
			ts = append(ts, s.Chan.Type())
		}
		return ts
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return []types.Type{x.Common().Args[0].Type()}
		}
	}
	return nil
}

// creators are the functions that build outputs from their configuration, and
// the exported constructors.
func (r *Run) creators() []*ssa.Function {
	ct := r.apiType("OutputFuncCreator")
	var fs []*ssa.Function
	for _, f := range r.P.srcFuncs() {
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Results().Len() == 0 {
			continue
		}
		if ct != nil && types.Identical(f.Signature, ct.Underlying()) {
			fs = append(fs, f)
			continue
		}
		if f.Name() == "NewBaseOutput" || f.Name() == "NewAsyncOutput" {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return fs
}

// textParser: functions that read one option of a configuration.
func (r *Run) textParser(fn *ssa.Function) bool {
	if fn == nil || !r.P.IsRepo(fn) || fn.Signature.Recv() != nil || fn.Signature.Params().Len() == 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	b, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString == 0 {
		return false
	}
	_, ok = fn.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	return ok
}

// ioWrite: the Write methods of repository writers are analysed on their own.
func (r *Run) ioWrite(fn *ssa.Function) bool {
	return fn != nil && r.P.IsRepo(fn) && fn.Signature.Recv() != nil && (fn.Name() == "Write" || fn.Name() == "Close") && !r.isOutput(fn.Signature.Recv().Type())
}

func (r *Run) isOutput(t types.Type) bool {
	i := r.iface("Output")
	return i != nil && (types.Implements(t, i) || types.Implements(types.NewPointer(t), i))
}

// levelParam: the one parameter of a constructor that is a level.
func (r *Run) levelParam(fn *ssa.Function) *Term {
	var p *Term
	for _, x := range fn.Params {
		if types.Identical(x.Type(), r.apiType("Level")) {
			if p != nil {
				return nil
			}
			p = paramTerm(x.Name(), x.Type())
		}
	}
	return p
}

// outputs explores all constructors.
func (r *Run) outputs() []*sink {
	var sinks []*sink
	for _, fn := range r.creators() {
		fn := fn
		e := r.engine()
		seen := map[string]bool{}
		e.H.NoInline = func(f *ssa.Function) bool { return r.textParser(f) || r.ioWrite(f) }
		spawns := map[*Term][]*CallEv{} // by marker
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if r.textParser(c.Fn) {
				return []Out{{Res: typedCall(c)}}, true
			}
			switch c.Name {
			case "log/syslog.New", "log/syslog.Dial":
				w := e.freshAlloc(st, c.Frame, c.Instr, "syslog", deref(c.Sig.Results().At(0).Type()))
				bad := T.mk("tuple", "", nil, nilTerm, T.mk("mki", "", errorStringType, e.freshAlloc(st, c.Frame, c.Instr, "error", nil)))
				return []Out{{Res: T.mk("tuple", "", nil, w, nilTerm)}, {Res: bad}}, true
			case "(*sync.WaitGroup).Add":
				old := st.A["=add"]
				if old == nil {
					old = T.mk("adds", "", nil)
				}
				st.A["=add"] = T.mk("adds", "", nil, append(append([]*Term{}, old.Args...), c.Args...)...)
				return []Out{{}}, true
			case "(*sync.WaitGroup).Go":
				r.spawned(e, st, c, c.Args[1], spawns, true)
				return []Out{{}}, true
			}
			return nil, false
		}
		e.H.Go = func(e *Engine, st *State, c *CallEv) { r.spawned(e, st, c, nil, spawns, false) }
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			if len(res) == 2 && st.facts.eval(eqTerm(res[1], nilTerm)) == no {
				return
			}
			if res[0].Op != "mki" {
				if st.facts.eval(eqTerm(res[0], nilTerm)) != yes {
					r.bad("constructor", in.Pos(), st, "%s returns an output of unknown kind", fn.Name())
				}
				return
			}
			s := &sink{fn: fn, facts: st.facts.clone(), heap: map[*Term]*Term{}, full: map[*Term]*Term{}, dests: map[*Term]bool{}, pos: in.Pos(), flags: map[*Term]bool{}}
			// what was allocated is now an object like any other
			m := substMap{}
			n := 0
			var ks []*Term
			for k := range st.heap {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
			det := func(t *Term) {
				for _, x := range t.syms {
					if x.Op == "alloc" && m[x] == nil {
						n++
						t := orStruct(x.Typ)
						switch t.Underlying().(type) {
						case *types.Chan, *types.Map:
						default:
							t = types.NewPointer(t)
						}
						m[x] = obj("built "+x.Aux, t)
					}
				}
			}
			det(res[0])
			for _, k := range ks {
				if e.Base.heap[k] == st.heap[k] {
					continue
				}
				det(k)
				det(st.heap[k])
			}
			memo := map[*Term]*Term{}
			for _, k := range ks {
				v := st.heap[k]
				if e.Base.heap[k] == v {
					continue
				}
				nk, nv := m.apply(k, memo), m.apply(v, memo)
				s.full[nk] = nv
				fv := fieldVar(k)
				if fv != nil && r.B.immutable[fv] || k.Op != "faddr" && k.Op != "content" && k.Op != "iaddr" {
					s.heap[nk] = nv
				}
			}
			// objects without any cell read as zero
			for a, o := range m {
				r.zeroFill(s, a, o, o)
			}
			s.obj = m.apply(res[0], memo)
			for k, v := range s.full {
				fv := fieldVar(k)
				if fv == nil {
					continue
				}
				t := types.TypeString(deref(fv.Type()), nil)
				if t == "io.Writer" || t == "log/syslog.Writer" {
					s.dests[strip(v)] = true
				}
				if types.Identical(fv.Type(), r.apiType("Level")) {
					if s.thr != nil && s.thr != v {
						r.missing("the threshold of the output built by " + fn.Name())
					}
					s.thr = v
				}
			}
			if g := st.A["=spawn"]; g != nil {
				for _, x := range g.Args {
					for _, c := range spawns[x] {
						c2 := *c
						c2.Args = nil
						for _, a := range c.Args {
							c2.Args = append(c2.Args, m.apply(a, memo))
						}
						s.spawn = append(s.spawn, &c2)
					}
				}
			}
			if st.A["=early"] != nil {
				s.early = true
			}
			s.added = map[*Term]int64{}
			if a := st.A["=add"]; a != nil {
				for i := 0; i+1 < len(a.Args); i += 2 {
					if a.Args[i+1].isInt() {
						s.added[m.apply(a.Args[i], memo)] += a.Args[i+1].C
					} else {
						s.added[m.apply(a.Args[i], memo)] += 1000
					}
				}
			}
			if p := r.levelParam(fn); p != nil && s.thr != nil && r.Rule.ID == "C10" {
				all := intTerm(r.level("All"))
				r.check(st.facts.eval(eqTerm(s.thr, p)) == yes || s.thr == all && st.facts.eval(lt0(sub(all, p))) == no, "threshold", in.Pos(), st,
					"%s filters at the threshold it is given (%v)", fn.Name(), s.thr)
			}
			kind := kinds(s)
			s.label = fn.Name()
			if len(s.spawn) > 0 {
				s.label += " (async)"
			}
			if seen[kind] {
				return
			}
			seen[kind] = true
			sinks = append(sinks, s)
		}
		e.Entry(fn, nil, func(st *State, args []*Term) {
			for i, a := range args {
				if !isChanType(fn.Params[i].Type()) {
					if _, ok := fn.Params[i].Type().Underlying().(*types.Basic); !ok {
						assumeNonNil(st, a)
					}
				}
			}
		})
		r.done(e, fn.Name())
		if len(seen) == 0 {
			r.missing("an output built by " + fn.String())
		}
	}
	return sinks
}

func isChanType(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

func orStruct(t types.Type) types.Type {
	if t == nil {
		return types.NewStruct(nil, nil)
	}
	return t
}

// zeroFill gives the fields no one wrote yet their zero value: for what is
// never written later this lasts.
func (r *Run) zeroFill(s *sink, a, o, addr *Term) {
	var st *types.Struct
	if addr == o {
		if p, ok := o.Typ.(*types.Pointer); ok {
			st, _ = p.Elem().Underlying().(*types.Struct)
		}
	} else if fv := fieldVar(addr); fv != nil {
		st, _ = fv.Type().Underlying().(*types.Struct)
	}
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		k := faddr(addr, i, f)
		if isLockType(f.Type()) {
			continue
		}
		if isBufType(types.NewPointer(f.Type())) {
			if s.full[contentOf(k)] == nil {
				s.full[contentOf(k)] = strTerm("")
			}
			s.bufs = append(s.bufs, k)
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Struct); ok && r.localType(f.Type()) {
			r.zeroFill(s, a, o, k)
			continue
		}
		if s.full[k] == nil {
			z := zeroTerm(f.Type())
			s.full[k] = z
			if r.B.immutable[f] {
				s.heap[k] = z
			}
		}
	}
}

func (r *Run) localType(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && r.P.IsRepoPkg(n.Obj().Pkg())
}

// kinds is what tells one built output from another.
func kinds(s *sink) string {
	var xs []string
	for k, v := range s.full {
		if v.Op == "mki" && fieldVar(k) != nil {
			xs = append(xs, fieldVar(k).Name()+"="+typKey(v.Typ))
		}
	}
	sort.Strings(xs)
	return typKey(s.obj.Typ) + strings.Join(xs, ",")
}

func typedCall(c *CallEv) *Term {
	t := T.mk("call", c.Name, c.Sig.Results().At(0).Type(), c.Args...)
	if t.Typ == nil {
		t.Typ = c.Sig.Results().At(0).Type()
	}
	return t
}

func (r *Run) spawned(e *Engine, st *State, c *CallEv, fn *Term, spawns map[*Term][]*CallEv, viaWG bool) {
	c2 := *c
	if fn != nil {
		c2.FnT, c2.Args = fn, nil
		if f, ok := fn.Obj.(*ssa.Function); ok {
			c2.Fn = f
		}
	}
	c2.Defer = viaWG // marks that its end is signalled by the group
	if viaWG {
		c2.Args = append(c2.Args, c.Args[0])
	}
	if c2.FnT != nil && c2.FnT.Op == "closure" {
		c2.Args = append(c2.Args, c2.FnT.Args...)
	}
	mk := T.mkFull("spawn", e.siteName(c.Frame, c.Instr, "go"), nil, nil, nil, 0, c2.Args)
	spawns[mk] = []*CallEv{&c2}
	old := st.A["=spawn"]
	if old == nil {
		old = T.mk("spawns", "", nil)
	}
	st.A["=spawn"] = T.mk("spawns", "", nil, append(append([]*Term{}, old.Args...), mk)...)
	if !viaWG && st.A["=add"] == nil {
		st.A["=early"] = trueTerm
	}
}

// lockOp recognises the lock operations.
func lockOp(c *CallEv) (lock *Term, op string) {
	switch c.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return c.Args[0], "W"
	case "(*sync.RWMutex).RLock":
		return c.Args[0], "R"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return c.Args[0], "U"
	}
	return nil, ""
}

// trackLocks keeps the locks held as typestates.
func trackLocks(st *State, c *CallEv) (lock *Term, op string) {
	lock, op = lockOp(c)
	switch op {
	case "W", "R":
		st.TS[lock] = op
	case "U":
		delete(st.TS, lock)
	}
	return
}

// rendering: the term is the whole record of the event.
func (r *Run) rendering(st *State, e *Engine, t, ev *Term) bool {
	t = strip(t)
	if t.Op == "format" {
		return t.Args[1] == ev
	}
	// a default rendering has the event's message
	return r.hasMessage(e, st, t, ev)
}

// hasMessage: a rendering made without formatter contains the message.
func (r *Run) hasMessage(e *Engine, st *State, t, ev *Term) bool {
	for _, p := range catParts(t) {
		p = strip(p)
		if p.Op == "message" && p.Args[0] == ev {
			return true
		}
		if p.Op == "call" && strings.HasPrefix(p.Aux, "fmt.Sprint") {
			for _, a := range p.Args {
				if r.hasMessage(e, st, a, ev) {
					return true
				}
			}
		}
	}
	return false
}

// outEngine is an engine set up for a built output.
type outRun struct {
	batch *batchTrack // nil unless C22
	r     *Run
	s     *sink
	id    string
	e     *Engine
	ev    *Term
	lock  func(st *State, lock *Term, op string, c *CallEv)
	// write: bytes are passed to the destination
	write func(st *State, c *CallEv, x *Term)
	// other calls
	call func(st *State, c *CallEv) ([]Out, bool)
}

func (r *Run) outEngine(s *sink, id string) *outRun {
	o := &outRun{r: r, s: s, id: id, e: r.engine(), ev: r.event()}
	e := o.e
	// no path is cut by the settings of levels and texts
	e.H.NoInline = func(f *ssa.Function) bool { return r.ioWrite(f) }
	msg := r.method(types.NewPointer(r.apiType("Event")), "Message")
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if l, op := trackLocks(st, c); l != nil {
			if o.lock != nil {
				o.lock(st, l, op, c)
			}
			return nil, false
		}
		for _, m := range []string{"Format", "CallerInfoFlag"} {
			if c.Name != r.ifaceMethod("Formatter", m) {
				continue
			}
			known := st.facts.eval(eqTerm(c.Args[0], nilTerm)) == no
			if id == "C11" {
				r.check(known, "nil formatter", c.Pos, st, "%s: the formatter is used only where there is one", s.label)
			}
			if m == "Format" {
				return []Out{{Res: T.mk("format", "", c.Sig.Results().At(0).Type(), c.Args...)}}, true
			}
			return []Out{{Res: T.mk("flagof", "", types.Typ[types.Int], c.Args...)}}, true
		}
		if c.Fn != nil && c.Fn == msg {
			return []Out{{Res: T.mk("message", "", types.Typ[types.String], c.Args...)}}, true
		}
		if c.Fn != nil && (c.Fn == r.method(r.apiType("Level"), "String") || c.Fn == r.method(r.apiType("Level"), "ShortStr")) {
			return []Out{{Res: T.mk("levelString", "", types.Typ[types.String], c.Args...)}}, true
		}
		if o.isWrite(st, c) {
			if o.write != nil {
				o.write(st, c, strip(c.Args[1]))
			}
			n := c.Sig.Results().Len()
			if n == 2 && id == "C11" {
				// it may fail after some bytes
				k := e.fresh(st, c.Frame, c.Instr, "wrote", types.Typ[types.Int])
				err := e.fresh(st, c.Frame, c.Instr, "werr", nil)
				all := lenTerm(strip(c.Args[1]))
				return []Out{
					{Res: T.mk("tuple", "", nil, all, nilTerm)},
					{Res: T.mk("tuple", "", nil, k, err), Assume: []Lit{{eqTerm(err, nilTerm), false}, {lt0(k), false}, {lt0(sub(all, k)), false}}},
				}, true
			}
			if n == 2 {
				return []Out{{Res: T.mk("tuple", "", nil, lenTerm(strip(c.Args[1])), e.fresh(st, c.Frame, c.Instr, "werr", nil))}}, true
			}
			return []Out{{Res: e.fresh(st, c.Frame, c.Instr, "werr", nil)}}, true
		}
		if o.call != nil {
			return o.call(st, c)
		}
		return nil, false
	}
	return o
}

// isWrite: the call passes bytes to the destination.
func (o *outRun) isWrite(st *State, c *CallEv) bool {
	if len(c.Args) != 2 {
		return false
	}
	i := strings.LastIndex(c.Name, ".")
	m := c.Name[i+1:]
	switch m {
	case "Write", "WriteString", "Emerg", "Alert", "Crit", "Err", "Warning", "Notice", "Info", "Debug":
	default:
		return false
	}
	x := strip(c.Args[0])
	if o.s.dests[x] {
		return true
	}
	// through the wrappers of an embedded writer
	for d := range o.s.dests {
		for k, v := range o.s.full {
			if k.Op == "faddr" && k.Args[0] == d && strip(v) == x && strings.HasPrefix(c.Name, "(*"+o.r.P.mod) {
				return true
			}
		}
	}
	return false
}

// inner runs Send or Close on the built output.
func (o *outRun) run(method string, extra func(st *State)) {
	fn := o.r.method(o.s.obj.Typ, method)
	if fn == nil {
		o.r.missing(method + " of " + o.s.label)
		return
	}
	args := []*Term{strip(o.s.obj)}
	if method == "Send" {
		args = append(args, o.ev)
	}
	o.e.Entry(fn, args, func(st *State, as []*Term) {
		o.start(st, o.s.heap)
		if extra != nil {
			extra(st)
		}
	})
	o.r.done(o.e, o.s.label+" "+method)
}

func (o *outRun) start(st *State, heap map[*Term]*Term) {
	for k, v := range o.s.facts {
		st.facts[k] = v
	}
	for k, v := range heap {
		st.heap[k] = v
		if v.Op == "mki" && v.Args[0].Op == "param" {
			assumeNonNil(st, v.Args[0])
		}
		if v.Op == "param" && v != o.ev && (strings.HasPrefix(v.Aux, "built ")) {
			assumeNonNil(st, v)
		}
	}
	assumeNonNil(st, o.ev, strip(o.s.obj))
	st.A["ev"] = o.ev
	st.A["obj"] = o.s.obj
	if o.s.thr != nil {
		st.A["thr"] = o.s.thr
	}
}

// below: the event's level is below the threshold.
func (o *outRun) below(st *State, ev *Term) tri {
	lvl := o.r.eventLoad(o.e, st, ev, "Level")
	return st.facts.eval(lt0(sub(lvl, o.s.thr)))
}

func (r *Run) outputRule(id string) {
	ss := r.outputs()
	nAsync, nSync := 0, 0
	for _, s := range ss {
		if s.thr == nil {
			r.missing("the threshold of the output built by " + s.fn.Name())
			continue
		}
		if len(s.spawn) > 0 {
			nAsync++
			r.async(s, id)
		} else {
			nSync++
			r.sync(s, id)
		}
	}
	if nSync == 0 || nAsync == 0 {
		r.missing("both synchronous and asynchronous outputs")
	}
	r.eventChanSites(id)
}

// sync decides synchronous outputs.
func (r *Run) sync(s *sink, id string) {
	if id != "C10" && id != "C11" {
		return
	}
	o := r.outEngine(s, id)
	_, isSys := func() (int, bool) {
		for d := range s.dests {
			if d.Typ != nil && strings.HasSuffix(types.TypeString(deref(d.Typ), nil), "log/syslog.Writer") {
				return 0, true
			}
		}
		return 0, false
	}()
	o.write = func(st *State, c *CallEv, x *Term) {
		n := st.A["n"]
		if n == nil {
			n = intTerm(0)
		}
		if n.C < 3 {
			n = intTerm(n.C + 1)
		}
		st.A["n"] = n
		st.A["what"] = x
		if id == "C10" {
			r.check(o.below(st, o.ev) == no, "accepted", c.Pos, st, "%s: an event is rendered only at or above the threshold", s.label)
			return
		}
		r.check(n.C == 1, "one write", c.Pos, st, "%s: a record is one write", s.label)
		r.check(r.rendering(st, o.e, x, o.ev), "whole record", c.Pos, st, "%s: what is written is the whole record (%v)", s.label, x)
		if isSys {
			return
		}
		held := false
		for l, m := range st.TS {
			rt := root(l)
			if m == "W" && rt.Op == "param" && strings.HasPrefix(rt.Aux, "built ") {
				held = true
				if prev := st.A["=lock"]; prev != nil && prev != l {
					held = false
				}
				r.noteLock(s, l)
			}
		}
		r.check(held, "locked", c.Pos, st, "%s: the record is written under an exclusive lock of the output", s.label)
	}
	o.e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if id == "C10" && st.A["n"] == nil {
			lvl := r.eventLoad(e, st, o.ev, "Level")
			r.check(o.below(st, o.ev) == yes || isSys && r.noKnownLevel(st, lvl), "discarded", in.Pos(), st, "%s: an event is discarded only below the threshold", s.label)
		}
		if id == "C11" && st.A["n"] == nil {
			r.check(o.below(st, o.ev) == yes || isSys, "one write", in.Pos(), st, "%s: an accepted event is written", s.label)
		}
	}
	o.run("Send", nil)
	if id == "C11" {
		r.need("one write", 1)
		f := r.outEngine(s, id)
		f.run("CallerInfoFlag", nil)
	}
}

func (r *Run) noteLock(s *sink, l *Term) {
	for prev := range s.flags {
		if prev.Op == "lock" && prev.Args[0] != l {
			r.bad("locked", s.pos, nil, "%s: all writes are under the same lock (%v, %v)", s.label, prev.Args[0], l)
		}
	}
	s.flags[T.mk("lock", "", nil, l)] = true
}

// noKnownLevel: the level is none of those that can be logged at.
func (r *Run) noKnownLevel(st *State, lvl *Term) bool {
	for _, n := range []string{"Trace", "Debug", "Info", "Warn", "Error", "Critical"} {
		if st.facts.eval(eqTerm(lvl, intTerm(r.level(n)))) != no {
			return false
		}
	}
	return true
}

// eventChanSites: no event channel is used outside what was analysed.
func (r *Run) eventChanSites(id string) {
	if id == "C10" || id == "C11" {
		return
	}
	r.P.instrs(func(f *ssa.Function, in ssa.Instruction) {
		for _, t := range r.chanOfInstr(in) {
			if r.eventChan(t) {
				r.check(r.fns[f] || f.Synthetic != "", "queue use", in.Pos(), nil, "the event queue is used by %s, which no output's Send, Close or goroutine reaches", f)
			}
		}
	})
}

func sortTerms(m map[*Term]string) []*Term {
	var r []*Term
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
