package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C29", Technique: rollTechnique,
		Rule:   "with archiving, a removal of a backup follows, on its path, a successful rename of an archive holding that backup: a temporary file is renamed only where the archive written over it and then the file itself were closed without error, the whole of every backup to be removed was copied, nothing failed, and the archive it replaces was copied first or is known absent; a temporary file not put in place is removed",
		Trusts: []string{"io.Copy copies to the end of its source or reports an error", "a rename within a directory tree is atomic"},
		Run:    func(r *Run) { r.rollRule("C29") }})
	register(&Rule{ID: "C31", Technique: rollTechnique,
		Rule: "each handle obtained from os.Open, OpenFile, TempFile and the like is, on every path to the end of the entry point that obtained it, closed, or kept as the current file of the rolling writer, whose Close closes it; Close of the rolling output reaches Close of its writer",
		Run:  func(r *Run) { r.rollRule("C31"); r.closedElsewhere() }})
}

// archiveRun explores Write with the making of archives inside.
func (s *rollState) archiveRun() {
	w := s.w
	rr := w.run()
	rr.inside = true
	e := rr.e
	s.e, s.rr = e, rr
	aw := s.r.archIface("WriteCloser")
	e.H.Elem = s.elem
	rr.op = func(st *State, o *rollOp) { s.archiveOp(st, o) }
	rr.did = func(st *State, o *rollOp, res *Term, failed bool) {
		s.backupDid(st, o, res, failed)
		s.archiveDid(st, o, res, failed)
	}
	if aw == nil {
		s.r.missing("the interface of archives being written")
	}
	e.H.Forget = func(e *Engine, st *State, t *Term) {
		for h, v := range st.TS {
			if h.contains(t) && v == "open" && !pendingOn(st, h) {
				s.check("C31", false, "closed", token.NoPos, st, "a file is lost while open (%v)", h)
			}
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) { s.archiveEnd(st, in.Pos()) }
	rr.opened = true
	rr.start(s.fn, func(st *State, args []*Term, open bool) {
		if w.kind == "time" {
			st.A["=period"] = s.period(st)
		}
		st.facts.assume(lt0(sub(s.get(st, w.maxRolls), intTerm(1))), false)
	})
	s.r.done(e, w.kind+" "+s.fn.Name()+" with archives")
}

func (s *rollState) archiveEnd(st *State, pos token.Pos) {
	s.tempDone(st, pos)
	for h, v := range st.TS {
		if v == "open" {
			s.check("C31", h == s.get(st, s.w.file), "closed", pos, st, "a file opened is closed, or the current file (%v)", h)
		}
	}
	s.check("C31", true, "closed", pos, st, "every file opened is closed")
}

func pendingOn(st *State, h *Term) bool {
	for _, f := range st.frames {
		for _, d := range f.defers {
			if d.recv != nil && d.recv.contains(h) || d.fn != nil && d.fn.contains(h) {
				return true
			}
			for _, a := range d.args {
				if a.contains(h) {
					return true
				}
			}
		}
	}
	return false
}

// nameOf: the term is the name of this handle.
func nameOf(t, h *Term) bool {
	return h != nil && t.Op == "call" && t.Aux == "(*os.File).Name" && t.Args[0] == h
}

func (s *rollState) archiveOp(st *State, o *rollOp) {
	w, pos := s.w, o.c.Pos
	tmp := st.A["=tmp"]
	switch o.name {
	case "os.Rename":
		if !nameOf(o.args[0], tmp) {
			// of the log itself: checked without archives
			s.check("C29", s.under(st, o.args[0]) != nil, "in place when complete", pos, st, "what is renamed is the log or an archive made (%v)", o.args[0])
			s.check("C26", s.under(st, o.args[0]) != nil, "own files", pos, st, "what is renamed is the log or an archive made (%v)", o.args[0])
			return
		}
		s.check("C29", st.A["spoilt"] == nil, "in place when complete", pos, st, "an archive is put in place only if nothing failed")
		s.check("C29", st.A["finished"] != nil, "in place when complete", pos, st, "an archive is put in place once it is closed")
		s.check("C29", st.A["shut"] != nil, "in place when complete", pos, st, "an archive is put in place once its file is closed")
		to := o.args[1]
		ap := s.get(st, w.apath)
		x := st.A["=in"]
		switch {
		case to == ap: // one archive of all
			was := st.A["oldcopied"] != nil ||
				st.A["=olderr"] != nil && st.facts.eval(pureCall("os.IsNotExist", []*Term{st.A["=olderr"]})) == yes
			s.check("C29", was, "keeps the earlier archive", pos, st, "an archive replaces an earlier one only with its content")
			s.check("C29", !s.couldBeLess(st, orInt(st.A["inN"]), s.surplus(st)), "in place when complete", pos, st, "the archive holds every backup to be removed (%v of %v)", orInt(st.A["inN"]), s.surplus(st))
			s.check("C26", true, "own files", pos, st, "the archive is put at the path configured")
		case to.Op == "call" && to.Aux == "path/filepath.Join" && len(to.Args) == 2 && to.Args[0] == ap && x != nil:
			own := to.Args[1].contains(x)
			for _, p := range catParts(x) {
				if p.Op == "call" && p.Aux == "roll name" && !to.Args[1].contains(p) {
					own = false
				}
				own = own || p.Op == "call" && p.Aux == "roll name"
			}
			s.check("C29", own, "in place when complete", pos, st, "an archive is named after the backup in it (%v)", to)
			ps, xs := catParts(to.Args[1]), catParts(x)
			pre := len(ps) > len(xs)-1
			for i, p := range xs {
				if !pre || i >= len(ps) || ps[i] != p && !(i == len(xs)-1 && p.isStr() && ps[i].isStr() && strings.HasPrefix(ps[i].Aux, p.Aux)) {
					pre = false
				}
			}
			s.check("C26", pre, "own files", pos, st, "an archive is named after the backup in it (%v)", to)
		default:
			s.check("C29", false, "in place when complete", pos, st, "an archive is put at the path configured, and holds a backup (%v)", to)
			s.check("C26", false, "own files", pos, st, "an archive is put at the path configured (%v)", to)
		}
	case "os.Remove":
		if nameOf(o.args[0], tmp) {
			return
		}
		x := s.under(st, o.args[0])
		i := s.entry(st, x)
		s.check("C26", i != nil, "own files", pos, st, "what is removed is a backup or a temporary archive (%v)", o.args[0])
		if i != nil {
			st.A["=i"] = i
			ok := st.facts.eval(eqTerm(s.get(st, w.arch), intTerm(0))) == yes || st.A["=kept"] == x || st.A["keptall"] != nil && less(st, i, s.surplus(st))
			s.check("C29", ok, "archive first", pos, st, "a backup is removed only once it is in an archive put in place")
		} else {
			s.check("C29", false, "archive first", pos, st, "what is removed is known (%v)", o.args[0])
		}
	case "os.RemoveAll", "os.Truncate", "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "(*os.File).Truncate":
		s.check("C29", false, "own files", pos, st, "%s may destroy a backup or an archive", o.name)
		s.check("C26", false, "own files", pos, st, "%s is not for the files of the log", o.name)
	case "os.OpenFile":
		if f := o.args[1]; !f.isInt() || f.C&0x200 != 0 {
			s.check("C29", false, "own files", pos, st, "opening truncates no file")
		}
		// rolling is over; what follows is checked without archives
		s.archiveEnd(st, pos)
		s.e.dead = true
	case "os.CreateTemp", "io/ioutil.TempFile":
		s.tempDone(st, pos)
	}
}

// forgetArchive: the temporary archive is no more.
func (s *rollState) forgetArchive(st *State) {
	for _, k := range []string{"=tmp", "spoilt", "shut", "finished", "oldcopied", "=olderr", "=old", "=in", "inN", "=arc", "=src", "=srcx", "=srci", "=named"} {
		delete(st.A, k)
	}
}

// tempDone: the last temporary archive was put in place or removed.
func (s *rollState) tempDone(st *State, pos token.Pos) {
	if st.A["=tmp"] != nil {
		s.check("C29", false, "temporary", pos, st, "a temporary archive not put in place is removed")
	}
}

func (s *rollState) archiveDid(st *State, o *rollOp, res *Term, failed bool) {
	w := s.w
	tmp := st.A["=tmp"]
	var to *Term
	if len(o.args) > 0 {
		to = strip(o.args[0])
	}
	switch o.name {
	case "os.OpenFile", "os.Open", "os.Create", "os.CreateTemp", "io/ioutil.TempFile":
		if o.name == "os.Open" {
			if to == s.get(st, w.apath) {
				delete(st.A, "=olderr")
				if failed {
					st.A["=olderr"] = res.Args[1]
				} else {
					st.A["=old"] = res.Args[0]
				}
			} else if x := s.under(st, to); !failed && s.entry(st, x) != nil {
				st.A["=src"], st.A["=srcx"], st.A["=srci"] = res.Args[0], x, s.entry(st, x)
			}
		}
		if failed {
			return
		}
		h := res.Args[0]
		st.TS[h] = "open"
		if o.name == "os.CreateTemp" || o.name == "io/ioutil.TempFile" {
			src, x, i := st.A["=src"], st.A["=srcx"], st.A["=srci"]
			s.forgetArchive(st)
			if src != nil {
				st.A["=src"], st.A["=srcx"], st.A["=srci"] = src, x, i
			}
			st.A["=tmp"] = h
		}
	case "(*os.File).Close":
		delete(st.TS, to)
		if to == tmp && tmp != nil {
			st.A["shut"] = trueTerm
			if failed || st.A["finished"] == nil {
				st.A["spoilt"] = trueTerm
			}
		}
	case "make":
		if tmp != nil {
			for _, a := range o.args {
				if a = strip(a); a == tmp || a == st.A["=arc"] {
					st.A["=arc"] = res
				}
			}
		}
	case "entry":
		if failed && to == st.A["=arc"] {
			st.A["spoilt"] = trueTerm
		}
		if !failed && to == st.A["=arc"] {
			st.A["=named"] = st.A["=src"]
		}
	case "finish":
		if to == st.A["=arc"] && to != nil {
			if failed {
				st.A["spoilt"] = trueTerm
			} else {
				st.A["finished"] = trueTerm
			}
		}
	case "copy archive":
		if to == st.A["=arc"] {
			if failed {
				st.A["spoilt"] = trueTerm
			} else if st.A["=old"] != nil && st.TS[st.A["=old"]] == "open" {
				st.A["oldcopied"] = trueTerm
			}
		}
	case "io.Copy", "io.CopyBuffer":
		src := strip(o.args[1])
		if to != st.A["=arc"] || to == nil {
			return
		}
		if failed || st.A["finished"] != nil {
			st.A["spoilt"] = trueTerm
			return
		}
		if src == st.A["=src"] && st.TS[src] == "open" && st.A["=named"] == src {
			st.A["=in"] = st.A["=srcx"]
			if i := st.A["=srci"]; i == orInt(st.A["inN"]) || st.facts.eval(eqTerm(i, orInt(st.A["inN"]))) == yes {
				st.A["inN"] = add(i, intTerm(1))
			}
		}
	case "os.Remove":
		if nameOf(o.args[0], tmp) {
			s.forgetArchive(st)
		}
	case "os.Rename":
		if !nameOf(o.args[0], tmp) {
			delete(st.A, "=probed")
			delete(st.A, "=missing")
			delete(st.A, "=period")
			delete(st.A, "=dest")
			return
		}
		if x := st.A["=in"]; x != nil && !failed {
			if o.args[1] == s.get(st, w.apath) {
				st.A["keptall"] = trueTerm
			} else {
				st.A["=kept"] = x
			}
		}
		s.forgetArchive(st)
	}
}

// archivePkg models what the packages of archive formats do, each of them
// failing or not.
func (rr *rollRun) archivePkg(st *State, c *CallEv) ([]Out, bool) {
	if !rr.w.r.ofArchives(c) {
		return nil, false
	}
	e := rr.e
	o := &rollOp{name: "other", c: c, args: c.Args}
	short := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	rs := c.Sig.Results()
	n := rs.Len()
	fails := n > 0 && types.Identical(rs.At(n-1).Type(), types.Universe.Lookup("error").Type())
	switch {
	case short == "NextFile" && len(c.Args) == 3:
		o.name = "entry"
	case short == "Close":
		o.name = "finish"
	case short == "Copy":
		o.name = "copy archive"
	case n == 1 && !fails:
		o.name = "make"
	}
	if rr.op != nil {
		rr.op(st, o)
	}
	var vals []*Term
	for i := 0; i < n; i++ {
		if i == n-1 && fails {
			break
		}
		if _, ok := rs.At(i).Type().Underlying().(*types.Pointer); ok {
			vals = append(vals, e.freshAlloc(st, c.Frame, c.Instr, short, rs.At(i).Type()))
		} else {
			vals = append(vals, e.fresh(st, c.Frame, c.Instr, short, rs.At(i).Type()))
		}
	}
	outcome := func(res *Term, failed bool, lits ...Lit) Out {
		return Out{Res: res, Assume: lits, Do: func(st *State) {
			st.note(c.Pos, c.Name)
			if rr.did != nil {
				rr.did(st, o, res, failed)
			}
		}}
	}
	tup := func(ts ...*Term) *Term {
		if len(ts) == 1 {
			return ts[0]
		}
		return T.mk("tuple", "", nil, ts...)
	}
	var lits []Lit
	for _, v := range vals {
		if _, ok := v.Typ.Underlying().(*types.Interface); ok {
			lits = append(lits, Lit{eqTerm(v, nilTerm), false})
		}
	}
	if !fails {
		return []Out{outcome(tup(vals...), false, lits...)}, true
	}
	er := ioErr(e, st, c, "error of "+short)
	bad := make([]*Term, n)
	for i := range vals {
		bad[i] = zeroOf(rs.At(i).Type())
	}
	bad[n-1] = er
	return []Out{outcome(tup(append(vals, nilTerm)...), false, lits...), outcome(tup(bad...), true, Lit{eqTerm(er, nilTerm), false})}, true
}

// ofArchives: the call is of a function or method of the archive packages.
func (r *Run) ofArchives(c *CallEv) bool {
	if c.Fn != nil {
		return r.archiveFn(c.Fn)
	}
	if len(c.Args) == 0 || c.Sig == nil {
		return false
	}
	return strings.Contains(c.Name, "/internal/archive")
}

func (r *Run) archiveFn(f *ssa.Function) bool {
	if f.Pkg != nil {
		return strings.Contains(f.Pkg.Pkg.Path(), "/internal/archive")
	}
	return strings.Contains(f.String(), "/internal/archive")
}

// closedElsewhere checks that closing an output closes its file, and what opens
// files outside of the rolling writers.
func (r *Run) closedElsewhere() {
	ws := r.rollers()
	if len(ws) == 0 {
		return
	}
	n := 0
	for _, s := range r.outputs() {
		for d := range s.dests {
			for _, w := range ws {
				if d.Typ != nil && types.Identical(d.Typ, types.NewPointer(w.typ)) {
					n++
					r.closesFile(s, d, w)
				}
			}
		}
	}
	if n == 0 {
		r.missing("an output that writes to a rolling writer")
	}
	// whoever obtains a handle from these has to close it
	todo := map[*ssa.Function]bool{}
	for _, f := range r.P.srcFuncs() {
		if r.opens(f) && !r.fns[f] && !testSupport(f) {
			todo[f] = true
		}
	}
	for len(todo) > 0 {
		var f *ssa.Function
		for g := range todo {
			if f == nil || g.String() < f.String() {
				f = g
			}
		}
		delete(todo, f)
		r.fns[f] = true
		if !r.closesAll(ws[0], f) {
			continue
		}
		for _, g := range r.P.srcFuncs() {
			if r.callsFn(g, f) && !r.fns[g] && !testSupport(g) {
				todo[g] = true
			}
		}
	}
}

// closesFile: Close of the output closes the writer.
func (r *Run) closesFile(s *sink, d *Term, w *roller) {
	o := r.outEngine(s, "C31")
	emb := w.embed.addr(d)
	o.call = func(st *State, c *CallEv) ([]Out, bool) {
		if strings.HasSuffix(c.Name, ".Close") && len(c.Args) == 1 {
			x := strip(c.Args[0])
			if x == d || x == o.e.load(st, emb, w.embed.v.Type()) {
				st.A["closed"] = trueTerm
				return []Out{{Res: nilTerm}, {Res: ioErr(o.e, st, c, "error of Close")}}, true
			}
		}
		return nil, false
	}
	o.e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		r.check(st.A["closed"] != nil, "closing the output", in.Pos(), st, "%s: Close closes the file written to", s.label)
	}
	o.run("Close", nil)
}

// testSupport: the function serves tests.
func testSupport(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	for _, p := range f.Params {
		if n, ok := deref(p.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "testing" {
			return true
		}
	}
	return false
}

var openers = map[string]bool{"os.OpenFile": true, "os.Open": true, "os.Create": true, "os.CreateTemp": true, "io/ioutil.TempFile": true}

func (r *Run) opens(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && openers[calleeName(c.Common())] {
				return true
			}
		}
	}
	return false
}

func (r *Run) callsFn(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

// closesAll: what the function opens it closes; whether it hands a handle on.
func (r *Run) closesAll(w *roller, f *ssa.Function) (hands bool) {
	rr := w.run()
	rr.deep = true
	e := rr.e
	r.adopt(e)
	rr.did = func(st *State, o *rollOp, res *Term, failed bool) {
		switch {
		case openers[o.name] && !failed:
			st.TS[res.Args[0]] = "open"
			r.ok("closed", o.c.Pos, "%s: a file is opened", f.Name())
		case o.name == "(*os.File).Close":
			delete(st.TS, strip(o.args[0]))
		}
	}
	e.H.Forget = func(e *Engine, st *State, t *Term) {
		for h, v := range st.TS {
			if h.contains(t) && v == "open" && !pendingOn(st, h) {
				r.bad("closed", token.NoPos, st, "%s: a file is lost while open (%v)", f.Name(), h)
			}
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		for h, v := range st.TS {
			if v != "open" {
				continue
			}
			out := false
			for _, x := range res {
				out = out || x.contains(h)
			}
			hands = hands || out
			r.check(out, "closed", in.Pos(), st, "%s: a file opened is closed, or handed on (%v)", f.Name(), h)
		}
	}
	e.Entry(f, nil, func(st *State, args []*Term) {
		for _, a := range args {
			if a.Typ == nil {
				continue
			}
			switch a.Typ.Underlying().(type) {
			case *types.Pointer, *types.Interface:
				assumeNonNil(st, a)
			}
		}
	})
	r.done(e, f.Name())
	return hands
}
