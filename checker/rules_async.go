package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// closeRole finds what Close of an asynchronous output does: the flags it
// sets, the lock it holds.
func (r *Run) async(s *sink, id string) {
	if id == "C11" {
		// the writes of an asynchronous output are those of its one goroutine; the formatter guard holds there too
		o := r.outEngine(s, id)
		r.goroutine(o, s, id, nil)
		f := r.outEngine(s, id)
		f.run("CallerInfoFlag", nil)
		return
	}
	flags, locks := r.asyncClose(s, id)
	r.asyncSend(s, id, flags, locks)
	o := r.outEngine(s, id)
	if id == "C12" {
		o.batch = r.countOf(s)
	}
	r.goroutine(o, s, id, locks)
}

// boolCells are the flags of the built objects that change.
func (s *sink) boolCells() []*Term {
	m := map[*Term]string{}
	for k := range s.full {
		if fv := fieldVar(k); fv != nil && k.Op == "faddr" {
			if b, ok := fv.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && s.heap[k] == nil {
				m[k] = ""
			}
		}
	}
	return sortTerms(m)
}

// queue: the event channel of the output.
func (r *Run) queue(s *sink) *Term {
	for k, v := range s.full {
		if fv := fieldVar(k); fv != nil && r.eventChan(fv.Type()) {
			return v
		}
	}
	return nil
}

func isDoneSignal(r *Run, c *CallEv) bool { return c.Name == "(*sync.WaitGroup).Done" }

// asyncClose decides Close and returns the flags it sets and locks it holds
// while shutting the queue.
func (r *Run) asyncClose(s *sink, id string) (map[*Term]bool, map[*Term]bool) {
	q := r.queue(s)
	if q == nil {
		r.missing("the queue of " + s.label)
		return nil, nil
	}
	o := r.outEngine(s, id)
	e := o.e
	cells := s.boolCells()
	locks := map[*Term]bool{}
	flags := map[*Term]bool{}
	for _, k := range cells {
		flags[k] = true
	}
	first := true
	nClose := 0
	o.lock = func(st *State, l *Term, op string, c *CallEv) {
		for _, k := range cells {
			delete(st.A, "=at "+k.String())
		}
		if op == "U" {
			// flags must be set before the lock is released
			if st.A["shut"] != nil && st.A["rel"] == nil {
				st.A["rel"] = trueTerm
				for _, k := range cells {
					if flags[k] && e.load(st, k, types.Typ[types.Bool]) != trueTerm {
						flags[k] = false
					}
				}
			}
		}
	}
	e.H.Chan = func(e *Engine, st *State, op string, ch, v *Term, in ssa.Instruction) {
		switch op {
		case "close":
			if ch != q {
				return
			}
			nClose++
			held := map[*Term]bool{}
			for l, m := range st.TS {
				if m == "W" {
					held[l] = true
				}
			}
			if first {
				locks = held
				first = false
			}
			for l := range locks {
				if !held[l] {
					delete(locks, l)
				}
			}
			if id == "C13" {
				r.check(st.A["shut"] == nil, "shut once", in.Pos(), st, "%s: the queue is shut once", s.label)
			}
			for _, k := range cells {
				// known unset when shutting; or just set after it was found unset
				x := st.A["=at "+k.String()]
				if x == nil || st.facts.eval(x) != no {
					flags[k] = false
				}
			}
			st.A["shut"] = trueTerm
			delete(st.A, "waited")
		case "recv", "select-recv":
			if ch != q {
				st.A["waited"] = ch
			}
		}
	}
	e.H.Load = func(e *Engine, st *State, a *Term, in ssa.Instruction) {
		for _, k := range cells {
			if a == k && st.A["shut"] == nil && len(st.TS) > 0 {
				x := e.load(st, a, types.Typ[types.Bool])
				if !x.isBool() {
					for _, m := range st.TS {
						if m == "W" {
							st.A["=at "+k.String()] = x
						}
					}
					st.A["=was "+k.String()] = x
				}
			}
		}
	}
	o.call = func(st *State, c *CallEv) ([]Out, bool) {
		if c.Name == "(*sync.WaitGroup).Wait" {
			st.A["waited"] = c.Args[0]
			if id == "C13" && len(st.TS) > 0 {
				r.ok("wait", c.Pos, "%s: waits", s.label)
			}
			return []Out{{}}, true
		}
		if strings.HasSuffix(c.Name, ").Close") && !strings.HasPrefix(c.Name, "(*"+r.P.mod) || c.Fn != nil && r.ioWrite(c.Fn) {
			if id == "C12" {
				r.check(st.A["waited"] != nil, "close order", c.Pos, st, "%s: the destination is closed only after the queue is drained", s.label)
			}
		}
		return nil, false
	}
	o.write = func(st *State, c *CallEv, x *Term) {
		if id == "C12" {
			r.bad("writer", c.Pos, st, "%s: Close writes to the destination beside the output's goroutine", s.label)
		}
	}
	e.H.Panic = func(e *Engine, st *State, v *Term, in ssa.Instruction) {
		if id == "C13" {
			r.bad("no panic", in.Pos(), st, "%s: Close panics", s.label)
		}
	}
	type end struct {
		st   *State
		in   ssa.Instruction
		shut bool
		wait *Term
	}
	var ends []end
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		ends = append(ends, end{st, in, st.A["shut"] != nil, st.A["waited"]})
		if st.A["shut"] != nil && st.A["rel"] == nil {
			for _, k := range cells {
				if flags[k] && e.load(st, k, types.Typ[types.Bool]) != trueTerm {
					flags[k] = false
				}
			}
		}
	}
	o.run("Close", nil)
	for k, v := range flags {
		if !v {
			delete(flags, k)
		}
	}
	if nClose == 0 {
		r.bad("shut once", s.pos, nil, "%s: Close never shuts the queue", s.label)
	}
	if id == "C13" {
		r.check(len(flags) > 0, "closed flag", s.pos, nil, "%s: the queue is shut only where a flag is found unset, and the flag is set before the lock is released", s.label)
		r.check(len(locks) > 0, "closed lock", s.pos, nil, "%s: the queue is shut under an exclusive lock", s.label)
	}
	if id == "C12" {
		for _, x := range ends {
			r.check(x.wait != nil && s.signal(x.wait, r), "waits", x.in.Pos(), x.st, "%s: Close returns only after the goroutine has signalled its end", s.label)
			if !x.shut {
				// somebody shut it before
				known := false
				for k := range flags {
					if a := x.st.A["=was "+k.String()]; a != nil && x.st.facts.eval(a) == yes {
						known = true
					}
				}
				r.check(known, "shuts", x.in.Pos(), x.st, "%s: Close shuts the queue unless it is shut", s.label)
			}
		}
	}
	return flags, locks
}

// signal: waiting for t waits for the goroutine.
func (s *sink) signal(t *Term, r *Run) bool {
	return s.flags[T.mk("signal", "", nil, t)] || r.signalOf(s)[t]
}

// signalOf runs the goroutine for what it signals at its end.
func (r *Run) signalOf(s *sink) map[*Term]bool {
	o := r.outEngine(s, "")
	return r.goroutine(o, s, "", nil)
}

func (r *Run) asyncSend(s *sink, id string, flags, locks map[*Term]bool) {
	q := r.queue(s)
	if q == nil {
		return
	}
	o := r.outEngine(s, id)
	e := o.e
	e.H.Chan = func(e *Engine, st *State, op string, ch, v *Term, in ssa.Instruction) {
		switch op {
		case "send", "select-send":
			if ch != q {
				return
			}
			n := int64(1)
			if x := st.A["sent"]; x != nil {
				n = 2
			}
			st.A["sent"] = intTerm(n)
			switch id {
			case "C12":
				r.check(n == 1, "queued once", in.Pos(), st, "%s: an event is queued once", s.label)
				r.check(v == o.ev, "queued once", in.Pos(), st, "%s: the event sent is the one queued (%v)", s.label, v)
			case "C13":
				held := false
				for l := range locks {
					held = held || st.TS[l] != ""
				}
				r.check(held, "send locked", in.Pos(), st, "%s: an event is queued only under the lock that shutting takes", s.label)
				open := false
				for k := range flags {
					if st.facts.eval(e.load(st, k, types.Typ[types.Bool])) == no {
						open = true
					}
				}
				r.check(open, "send open", in.Pos(), st, "%s: an event is queued only where the output is known to be open", s.label)
			}
		case "close":
			if id == "C13" && ch == q {
				r.bad("shut once", in.Pos(), st, "%s: Send shuts the queue", s.label)
			}
		case "recv", "select-recv":
			if id == "C12" && ch == q {
				r.bad("reader", in.Pos(), st, "%s: Send takes events from the queue", s.label)
			}
			if id == "C13" && op == "recv" {
				r.bad("blocks", in.Pos(), st, "%s: Send waits for something", s.label)
			}
		}
	}
	o.call = func(st *State, c *CallEv) ([]Out, bool) {
		if id == "C13" && c.Name == "(*sync.WaitGroup).Wait" {
			r.bad("blocks", c.Pos, st, "%s: Send waits for the goroutine", s.label)
		}
		return nil, false
	}
	o.write = func(st *State, c *CallEv, x *Term) {
		if id == "C12" {
			r.bad("writer", c.Pos, st, "%s: Send writes to the destination beside the output's goroutine", s.label)
		}
	}
	e.H.Panic = func(e *Engine, st *State, v *Term, in ssa.Instruction) {
		if id == "C13" {
			r.bad("no panic", in.Pos(), st, "%s: Send panics", s.label)
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if st.A["sent"] != nil {
			if id == "C10" {
				r.ok("queued", in.Pos(), "%s: queued", s.label)
			}
			return
		}
		closed := false
		for k := range flags {
			if st.facts.eval(e.load(st, k, types.Typ[types.Bool])) == yes {
				closed = true
			}
		}
		switch id {
		case "C10":
			r.check(closed || o.below(st, o.ev) == yes, "discarded", in.Pos(), st, "%s: an open output discards an event only below the threshold", s.label)
		case "C12":
			r.check(closed || o.below(st, o.ev) == yes, "queued once", in.Pos(), st, "%s: an event is queued unless the output is closed", s.label)
		}
	}
	o.run("Send", nil)
}

// goroutine decides the consumer of the queue; it returns what it signals at
// its end.
func (r *Run) goroutine(o *outRun, s *sink, id string, locks map[*Term]bool) map[*Term]bool {
	q := r.queue(s)
	e := o.e
	sig := map[*Term]bool{}
	sigFirst := true
	if id == "C12" {
		r.check(len(s.spawn) == 1, "one consumer", s.pos, nil, "%s: one goroutine takes from the queue", s.label)
	}
	if len(s.spawn) == 0 {
		return sig
	}
	g := s.spawn[0]
	bad := func(want string, kind string, st *State, in ssa.Instruction, f string, a ...interface{}) {
		if id == want {
			r.bad(kind, in.Pos(), st, "%s: "+f, append([]interface{}{s.label}, a...)...)
		}
	}
	good := func(want string, ok bool, kind string, st *State, in ssa.Instruction, f string, a ...interface{}) {
		if id == want {
			r.check(ok, kind, in.Pos(), st, "%s: "+f, append([]interface{}{s.label}, a...)...)
		}
	}
	pendTok := func(b *Term) *Term { return T.mk("own", "batch", types.Typ[types.String], b) }
	empty := func(st *State, x *Term) bool {
		x = strip(x)
		return x == strTerm("") || x == nilTerm || st.facts.eval(eqTerm(lenTerm(x), intTerm(0))) == yes
	}
	content := func(st *State) *Term {
		b := st.A["buf"]
		if b == nil {
			return strTerm("")
		}
		if b.Op == "content" {
			return st.content(b.Args[0])
		}
		return strip(e.load(st, b, fieldVar(b).Type()))
	}
	// look at what became of the batch
	sync := func(st *State, in ssa.Instruction) {
		if st.A["pend"] == nil {
			return
		}
		if st.A["buf"] != nil && empty(st, content(st)) {
			if tk := st.A["tok"]; st.A["flushed"] == nil && !(tk != nil && lenIs(st, tk, 0)) {
				bad("C12", "batch kept", st, in, "the batch is emptied only after it was written")
			} else {
				good("C12", true, "batch kept", st, in, "the batch is emptied after it was written")
			}
			delete(st.A, "pend")
			delete(st.A, "flushed")
		}
	}
	closedQ := func(st *State) bool {
		v, ok := st.A["evt"], st.A["ok"]
		return v != nil && st.facts.eval(eqTerm(v, nilTerm)) == yes || ok != nil && st.facts.eval(ok) == no
	}
	settle := func(st *State, in ssa.Instruction) {
		sync(st, in)
		v := st.A["evt"]
		if v == nil || closedQ(st) {
			return
		}
		n := st.A["added"]
		switch o.below(st, v) {
		case yes:
			good("C10", n == nil, "filtered", st, in, "an event below the threshold is not rendered")
		case no:
			good("C10", n != nil, "accepted", st, in, "an event at or above the threshold is rendered")
			good("C12", n != nil && n.C == 1, "rendered once", st, in, "an accepted event is rendered exactly once")
		default:
			good("C10", false, "filtered", st, in, "whether an event is rendered depends on its level and the threshold")
		}
	}
	add1 := func(st *State, in ssa.Instruction, piece *Term) {
		v := st.A["evt"]
		if v == nil {
			bad("C12", "rendered once", st, in, "something else than a received event is put into the batch")
			return
		}
		good("C12", r.rendering(st, e, piece, v), "whole record", st, in, "what is put into the batch is the whole record of the event received (%v)", piece)
		good("C12", st.A["flushed"] == nil, "batch kept", st, in, "the batch is emptied after it was written, before more is added")
		o.batch.added(st)
		n := intTerm(1)
		if st.A["added"] != nil {
			n = intTerm(2)
		}
		st.A["added"] = n
		st.A["pend"] = trueTerm
		if tk := st.A["tok"]; tk != nil {
			for k := range st.facts {
				if k.find(func(t *Term) bool { return t == tk }) != nil {
					delete(st.facts, k)
				}
			}
		}
	}
	inEvt := func(st *State) ssa.Instruction { return st.top().blk.Instrs[0] }
	_ = inEvt
	e.H.Append = func(e *Engine, st *State, c *CallEv) *Term {
		x := strip(c.Args[1])
		v := st.A["evt"]
		if v == nil || !r.rendering(st, e, x, v) {
			return nil
		}
		sync(st, c.Instr)
		b := st.A["slice"]
		if b == nil {
			b = pendTok(q)
		}
		base := strip(c.Args[0])
		good("C12", base == b || empty(st, base), "batch kept", st, c.Instr, "a record is added to what the batch has (%v)", base)
		add1(st, c.Instr, x)
		st.A["slice"] = b
		st.A["tok"] = b
		return b
	}
	e.H.Store = func(e *Engine, st *State, a, v *Term, in ssa.Instruction) {
		if o.batch != nil && a == o.batch.cell {
			tk := st.A["tok"]
			o.batch.set(e, st, v, st.A["pend"] == nil || tk != nil && lenIs(st, tk, 0))
		}
		if st.A["slice"] != nil && strip(v) == st.A["slice"] && a.Op == "faddr" {
			st.A["buf"] = a
		}
	}
	o.call = func(st *State, c *CallEv) ([]Out, bool) {
		switch {
		case isDoneSignal(r, c):
			sync(st, c.Instr)
			r.ended(st, c.Instr, c.Args[0], good)
			return []Out{{}}, true
		case c.Name == "(*sync.WaitGroup).Wait":
			bad("C13", "blocks", st, c.Instr, "the goroutine waits for a group")
		case c.Name == r.ifaceMethod("Output", "Send") || c.Name == r.ifaceMethod("Output", "Close"):
			bad("C13", "blocks", st, c.Instr, "the goroutine calls its own output")
		}
		return e.bufferCall(st, c, func(b, piece *Term) *Term {
			sync(st, c.Instr)
			if st.A["buf"] == nil {
				st.A["buf"] = contentOf(b)
			}
			good("C12", st.A["buf"] == contentOf(b), "batch kept", st, c.Instr, "there is one batch")
			if piece.Op == "own" {
				bad("C12", "rendered once", st, c.Instr, "the batch is copied")
			}
			st.A["tok"] = pendTok(b)
			add1(st, c.Instr, piece)
			return pendTok(b)
		})
	}
	o.write = func(st *State, c *CallEv, x *Term) {
		sync(st, c.Instr)
		good("C12", st.A["ended"] == nil, "signals last", st, c.Instr, "nothing is written after the end was signalled")
		if empty(st, x) {
			if o.batch != nil {
				delete(st.A, "=delta") // the counter is 0 then
			}
			return
		}
		v := st.A["evt"]
		if v != nil && r.rendering(st, e, x, v) {
			good("C12", st.A["pend"] == nil, "order", st, c.Instr, "a record is written directly only when no other waits")
			n := intTerm(1)
			if st.A["added"] != nil {
				n = intTerm(2)
			}
			st.A["added"] = n
			return
		}
		o.batch.written(e, st, c.Instr, closedQ(st))
		if x == content(st) && x.Op != "own" {
			// what was there at the start: nothing
			return
		}
		good("C12", x == content(st) && x.Op == "own", "whole batch", st, c.Instr, "what is written is the whole batch (%v)", x)
		good("C12", st.A["flushed"] == nil, "written once", st, c.Instr, "the batch is written once")
		st.A["flushed"] = trueTerm
	}
	o.lock = func(st *State, l *Term, op string, c *CallEv) {
		if op != "U" && locks[l] {
			bad("C13", "own lock", st, c.Instr, "the goroutine takes the lock its senders hold while they wait for it")
		}
		if op != "U" {
			good("C13", !locks[l], "own lock", st, c.Instr, "locks the goroutine takes are not those of senders")
		}
	}
	e.H.Back = func(e *Engine, st *State, f *Frame, head *ssa.BasicBlock) { o.batch.back(e, st) }
	e.H.Chan = func(e *Engine, st *State, op string, ch, v *Term, in ssa.Instruction) {
		switch op {
		case "recv", "select-recv":
			if o.batch != nil {
				sync(st, in)
				o.batch.wait(e, st, in, ch == q)
			}
			if ch == q {
				settle(st, in)
				good("C12", !closedQ(st) || st.A["evt"] == nil, "ends", st, in, "nothing is taken from a closed queue")
				delete(st.A, "added")
				delete(st.A, "ok")
				st.A["evt"] = v
				good("C13", true, "blocks", st, in, "waits for its queue")
				return
			}
			if op == "recv" {
				bad("C13", "blocks", st, in, "the goroutine waits for something else than its queue")
			} else {
				sel, ok := in.(*ssa.Select)
				has := false
				for _, x := range sel.States {
					has = has || r.eventChan(x.Chan.Type()) && x.Dir == types.RecvOnly
				}
				good("C13", ok && (has || !sel.Blocking), "blocks", st, in, "where the goroutine waits it also waits for its queue")
			}
		case "recvok":
			if ch == q {
				st.A["ok"] = v
			}
		case "send":
			bad("C13", "blocks", st, in, "the goroutine sends")
			if ch == q {
				bad("C12", "order", st, in, "the goroutine queues an event again")
			}
		case "close":
			if ch == q {
				bad("C13", "shut once", st, in, "the goroutine shuts its own queue")
				return
			}
			sync(st, in)
			r.ended(st, in, ch, good)
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		settle(st, in)
		if g.Defer {
			r.ended(st, in, g.Args[0], good)
		}
		good("C12", closedQ(st), "ends", st, in, "the goroutine ends only when the queue is shut")
		good("C13", closedQ(st), "ends", st, in, "the goroutine takes events until the queue is shut, so that no sender waits for ever")
		good("C12", st.A["pend"] == nil || st.A["flushed"] != nil, "drained", st, in, "at the end nothing is left in the batch")
		good("C12", st.A["ended"] != nil, "signals last", st, in, "the end is signalled")
		m := map[*Term]bool{}
		if st.A["ended"] != nil {
			m[st.A["ended"]] = true
		}
		if sigFirst {
			sig, sigFirst = m, false
		}
		for k := range sig {
			if !m[k] {
				delete(sig, k)
			}
		}
	}
	e.H.Panic = func(e *Engine, st *State, v *Term, in ssa.Instruction) {
		bad("C13", "no panic", st, in, "the goroutine panics")
	}
	fn := g.Fn
	if fn == nil && g.FnT != nil {
		fn, _ = g.FnT.Obj.(*ssa.Function)
	}
	if fn == nil {
		r.missing("the goroutine of " + s.label)
		return sig
	}
	args := g.Args
	if g.Defer {
		args = args[1:]
	}
	e.Entry(fn, args, func(st *State, as []*Term) { o.start(st, s.full); forgetFormatter(r, st) })
	r.done(e, s.label+" goroutine")
	if id == "C13" {
		for t := range sig {
			if s.added[t] != 0 || !g.Defer && !isChanTerm(t) {
				r.check(s.added[t] == 1, "signals once", s.pos, nil, "%s: the group counts the one goroutine (%d)", s.label, s.added[t])
			}
		}
	}
	if id == "C12" {
		for t := range sig {
			r.check(isChanTerm(t) || g.Defer || s.added[t] >= 1 && !s.early, "counted first", s.pos, nil, "%s: the goroutine is counted before it starts", s.label)
		}
	}
	return sig
}

func isChanTerm(t *Term) bool {
	return t.Typ != nil && isChanType(t.Typ) || strings.Contains(t.Op, "chan")
}

func (r *Run) ended(st *State, in ssa.Instruction, t *Term, good func(want string, ok bool, kind string, st *State, in ssa.Instruction, f string, a ...interface{})) {
	good("C13", st.A["ended"] == nil, "signals once", st, in, "the end is signalled once")
	good("C12", st.A["pend"] == nil || st.A["flushed"] != nil, "signals last", st, in, "the end is signalled with nothing left in the batch")
	st.A["ended"] = t
}

// forgetFormatter: the formatter is set after the output was built.
func forgetFormatter(r *Run, st *State) {
	for k := range st.heap {
		if fv := fieldVar(k); fv != nil && types.Identical(fv.Type(), r.apiType("Formatter")) {
			delete(st.heap, k)
		}
	}
}

func runC14(r *Run) {
	want := map[string]string{"Trace": "Debug", "Debug": "Debug", "Info": "Info", "Warn": "Warning", "Error": "Err", "Critical": "Crit"}
	n := 0
	for _, s := range r.outputs() {
		sys := false
		for d := range s.dests {
			sys = sys || d.Typ != nil && strings.HasSuffix(types.TypeString(deref(d.Typ), nil), "log/syslog.Writer")
		}
		if !sys {
			continue
		}
		n++
		for _, lv := range []string{"Trace", "Debug", "Info", "Warn", "Error", "Critical"} {
			lv := lv
			o := r.outEngine(s, "C14")
			o.write = func(st *State, c *CallEv, x *Term) {
				m := c.Name[strings.LastIndex(c.Name, ".")+1:]
				r.check(st.A["n"] == nil, "once", c.Pos, st, "%s is sent once", lv)
				st.A["n"] = trueTerm
				r.check(m == want[lv], "severity "+lv, c.Pos, st, "%s is sent with severity %s (%s)", lv, want[lv], m)
				fs := false
				for k := range s.full {
					if fv := fieldVar(k); fv != nil && types.Identical(fv.Type(), r.apiType("Formatter")) {
						f := o.e.load(st, k, fv.Type())
						if st.facts.eval(eqTerm(f, nilTerm)) == no {
							fs = x.Op == "format" && x.Args[0] == f && x.Args[1] == o.ev
						} else if st.facts.eval(eqTerm(f, nilTerm)) == yes {
							fs = r.hasMessage(o.e, st, x, o.ev)
						}
					}
				}
				r.check(fs, "record", c.Pos, st, "what is sent is the formatted record (%v)", x)
			}
			o.e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
				if st.A["n"] == nil {
					r.check(o.below(st, o.ev) == yes, "sent "+lv, in.Pos(), st, "an accepted %s event is sent", lv)
				}
			}
			o.run("Send", func(st *State) {
				for _, f := range fieldsWhere(r.apiType("Event"), func(v *types.Var) bool { return v.Name() == "Level" }) {
					st.heap[f.addr(o.ev)] = intTerm(r.level(lv))
				}
			})
			r.need("severity "+lv, 1)
		}
	}
	if n == 0 {
		r.missing("the syslog output")
	}
}
