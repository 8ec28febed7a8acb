package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rollTechnique = "abstract interpretation of the rolling writers over SSA: typestate of file handles, value numbering and difference bounds, every file operation failing or not"

func init() {
	register(&Rule{ID: "C24", Technique: rollTechnique,
		Rule:   "on every path of Write, rolling is attempted only where the size of the current file is known not below the limit (the period known to have changed), and a write without attempt only where it is known below (unchanged); at most one (*os.File).Write, of the whole argument to the current file, gives the results; the size kept becomes the size of the file when opened plus the bytes written; files are opened for appending and never truncated; without a file the size is 0",
		Trusts: []string{"an append-mode write adds to the end of the file"},
		Run:    func(r *Run) { r.rollRule("C24") }})
	register(&Rule{ID: "C25", Technique: rollTechnique,
		Rule: "whichever operations fail, every path of Write reaches the write of the record unless reopening the log fails last; a handle is used only while open, and no closed handle is kept as the current file; no path panics",
		Run:  func(r *Run) { r.rollRule("C25") }})
}

// rollState carries what the rules about rolling need.
type rollState struct {
	r    *Run
	id   string
	w    *roller
	rr   *rollRun
	e    *Engine
	fn   *ssa.Function
	data *Term
	post int64 // the name modes
	pre  int64

	listers map[*ssa.Function][]*Term
	ents    []*Term // the entries of the directory, when listing
}

func (r *Run) intConst(pkg, name string) (int64, bool) {
	if s := r.P.Pkg(pkg); s != nil {
		if c := s.Const(name); c != nil {
			v, ok := constant.Int64Val(c.Value.Value)
			return v, ok
		}
	}
	r.missing("the constant " + name)
	return 0, false
}

func (r *Run) rollRule(id string) {
	post, ok1 := r.intConst("internal", "rollingNameModePostfix")
	pre, ok2 := r.intConst("internal", "rollingNameModePrefix")
	if !ok1 || !ok2 || post+pre != 1 || post*pre != 0 {
		r.missing("the two name modes")
		return
	}
	for _, w := range r.rollers() {
		for _, fn := range []*ssa.Function{w.write, w.close} {
			s := &rollState{r: r, id: id, w: w, rr: w.run(), fn: fn, post: post, pre: pre}
			s.e = s.rr.e
			if fn == w.write {
				s.data = paramTerm(fn.Params[1].Name(), fn.Params[1].Type())
			}
			s.listers = map[*ssa.Function][]*Term{}
			s.run()
			r.done(s.e, w.kind+" "+fn.Name())
			s.listings()
			if id == "C26" || id == "C29" || id == "C31" {
				s.archiveRun()
			}
		}
	}
}

func (s *rollState) label() string { return s.w.kind + " writer" }

func (s *rollState) check(id string, good bool, kind string, pos token.Pos, st *State, format string, a ...interface{}) {
	if id == s.id {
		s.r.check(good, kind, pos, st, "%s: "+format, append([]interface{}{s.label()}, a...)...)
	}
}

func (s *rollState) get(st *State, f fieldAt) *Term { return s.rr.get(st, f) }

// under: what lies in the directory of the log.
func (s *rollState) under(st *State, path *Term) *Term {
	if path.Op == "call" && path.Aux == "path/filepath.Join" && len(path.Args) == 2 && path.Args[0] == s.get(st, s.w.dir) {
		return path.Args[1]
	}
	return nil
}

// rollName takes the name of a backup apart.
func (s *rollState) rollName(st *State, t *Term) *Term {
	name, m := s.get(st, s.w.name), s.get(st, s.w.mode)
	ps := catParts(t)
	n := len(ps)
	if n < 2 {
		return nil
	}
	post, pre := st.facts.eval(eqTerm(m, intTerm(s.post))) == yes, st.facts.eval(eqTerm(m, intTerm(s.pre))) == yes
	// the dot may have merged with a constant part
	if d := ps[1]; post && ps[0] == name && d.isStr() && strings.HasPrefix(d.Aux, ".") && (n > 2 || d.Aux != ".") {
		return catTerm(append([]*Term{strTerm(d.Aux[1:])}, ps[2:]...)...)
	}
	if d := ps[n-2]; pre && ps[n-1] == name && d.isStr() && strings.HasSuffix(d.Aux, ".") && (n > 2 || d.Aux != ".") {
		return catTerm(append(append([]*Term{}, ps[:n-2]...), strTerm(d.Aux[:len(d.Aux)-1]))...)
	}
	return nil
}

// ownCurrent: the name is that of the log, bare or with the time.
func (s *rollState) ownCurrent(st *State, t *Term) bool {
	if t == s.get(st, s.w.name) {
		return true
	}
	if n := s.rollName(st, t); n != nil {
		return s.isPeriod(st, n)
	}
	return false
}

// isPeriod: the present time in the pattern of the log.
func (s *rollState) isPeriod(st *State, t *Term) bool {
	if s.w.kind != "time" {
		return false
	}
	p := s.e.load(st, s.w.pattern.addr(s.w.w), s.w.pattern.v.Type())
	return t.Op == "call" && t.Aux == "(time.Time).Format" && t.Args[1] == p
}

func (s *rollState) period(st *State) *Term {
	return s.e.load(st, s.w.period.addr(s.w.w), s.w.period.v.Type())
}

// due: whether the log has to be rolled (yes, no), by the facts known.
func (s *rollState) due(st *State, size *Term) tri {
	if s.w.kind == "size" {
		lim := s.e.load(st, s.w.limit.addr(s.w.w), s.w.limit.v.Type())
		switch st.facts.eval(lt0(sub(size, lim))) {
		case yes:
			return no
		case no:
			return yes
		}
		return unknown
	}
	p := st.A["=period"]
	if st.facts.eval(eqTerm(p, strTerm(""))) == yes {
		return no
	}
	res := unknown
	for _, k := range []string{"=f1", "=f2", "=f3"} {
		t := st.A[k]
		if t == nil || !s.isPeriod(st, t) {
			continue
		}
		switch st.facts.eval(eqTerm(t, p)) {
		case yes:
			return no
		case no:
			if st.facts.eval(eqTerm(p, strTerm(""))) == no {
				res = yes
			}
		}
	}
	return res
}

func (s *rollState) run() {
	w, e, rr := s.w, s.e, s.rr
	isWrite := s.fn == w.write
	reopening := map[string]bool{"os.MkdirAll": true, "os.Mkdir": true, "os.OpenFile": true, "(*os.File).Stat": true, "os.Create": true}
	rr.call = func(st *State, c *CallEv) ([]Out, bool) {
		if c.Name == "(time.Time).Format" && st.A["tried"] == nil && st.A["written"] == nil {
			t := pureCall(c.Name, c.Args)
			for _, k := range []string{"=f1", "=f2", "=f3"} {
				if st.A[k] == nil || st.A[k] == t {
					st.A[k] = t // keeps what is known of it
					break
				}
			}
		}
		return nil, false
	}
	rr.op = func(st *State, o *rollOp) {
		pos := o.c.Pos
		if os.Getenv("PROBE") != "" {
			fmt.Println("OP", o.name, o.args, st.A)
		}
		s.backupOp(st, o)
		cur := s.get(st, w.file)
		onFile := strings.HasPrefix(o.name, "(*os.File).")
		// the rolling decision
		if isWrite && !reopening[o.name] && o.name != "(*os.File).Write" {
			if st.A["written"] != nil {
				if o.name != "(*os.File).Sync" {
					s.check("C24", false, "roll before write", pos, st, "the record is written before %s", o.name)
				}
			} else if st.A["tried"] == nil && st.A["reopened"] == nil {
				d := s.due(st, s.get(st, w.size)) == yes || s.due(st, st.A["=size0"]) == yes
				s.check("C24", d, "rolls only when due", pos, st, "rolling starts only when the limit is reached (%s)", o.name)
				st.A["tried"] = trueTerm
			}
		}
		if onFile {
			h := o.args[0]
			isCur := h == cur
			if o.name == "(*os.File).Close" {
				s.check("C25", h != nilTerm && (!isCur || st.TS[h] == "open"), "open handle", pos, st, "a file is closed only while it is open")
				if isWrite && isCur {
					st.A["dropped"] = trueTerm
				}
			} else {
				s.check("C25", st.TS[h] == "open", "open handle", pos, st, "%s is applied to an open file (%v)", o.name, h)
			}
			if o.name == "(*os.File).Truncate" {
				s.check("C24", false, "append only", pos, st, "no file is truncated")
			}
		}
		switch o.name {
		case "(*os.File).Write", "(*os.File).WriteString":
			if !isWrite {
				s.check("C24", false, "one write", pos, st, "closing writes nothing")
				return
			}
			s.check("C24", o.args[0] == cur, "one write", pos, st, "the record is written to the current file (%v)", o.args[0])
			s.check("C24", strip(o.args[1]) == s.data, "one write", pos, st, "the whole record is passed to one write (%v)", o.args[1])
			s.check("C24", o.args[0] != st.A["=stale"], "one write", pos, st, "the record is written to the log, not to the backup it became")
			s.check("C24", st.A["written"] == nil, "one write", pos, st, "the record is written once")
			if st.A["tried"] == nil {
				d := s.due(st, s.get(st, w.size)) == no || s.due(st, st.A["=size0"]) == no
				s.check("C24", d, "rolls when due", pos, st, "a record is written without rolling only below the limit")
			}
			st.A["=at"] = s.get(st, w.size)
			if x := st.A["=opened"]; x != nil {
				s.check("C24", s.get(st, w.size) == x, "size of the file", pos, st, "the size of a file just opened is what it holds (%v)", s.get(st, w.size))
			} else {
				s.check("C24", s.get(st, w.size) == st.A["=size0"], "size of the file", pos, st, "the size of the file goes on counting (%v)", s.get(st, w.size))
			}
		case "os.OpenFile":
			f := o.args[1]
			ok := f.isInt()
			if ok {
				acc := f.C & 3
				ok = acc == 1 || acc == 2
				s.check("C24", ok && f.C&0x400 != 0, "append only", pos, st, "the log is opened for appending")
				s.check("C24", f.C&0x200 == 0, "append only", pos, st, "the log is not truncated when opened")
				s.check("C24", f.C&0x40 != 0, "append only", pos, st, "the log is created if there is none")
			} else {
				s.check("C24", false, "append only", pos, st, "the log is opened with known flags (%v)", f)
			}
			n := s.under(st, o.args[0])
			if w.cur.idx >= 0 {
				s.check("C24", n != nil && n == s.get(st, w.cur), "current file", pos, st, "the file opened is the one to be rolled next (%v)", o.args[0])
			}
			s.check("C24", n != nil && s.ownCurrent(st, n), "current file", pos, st, "the file opened is the log in its directory (%v)", o.args[0])
		case "os.Create", "os.Truncate", "os.WriteFile", "io/ioutil.WriteFile":
			s.check("C24", false, "append only", pos, st, "%s truncates a file", o.name)
		}
	}
	rr.did = func(st *State, o *rollOp, res *Term, failed bool) {
		s.backupDid(st, o, res, failed)
		if o.name != "(*os.File).Close" {
			delete(st.A, "lastfail")
		}
		switch o.name {
		case "(*os.File).Close":
			st.TS[o.args[0]] = "closed"
		case "os.OpenFile", "os.Open", "os.Create", "os.CreateTemp", "io/ioutil.TempFile":
			if !failed {
				st.TS[res.Args[0]] = "open"
				if o.name == "os.OpenFile" {
					st.A["reopened"] = trueTerm
					st.A["=handle"] = res.Args[0]
				}
			}
		case "os.Rename":
			if !failed {
				st.A["rolled"] = trueTerm
				if h := s.get(st, w.file); st.TS[h] == "open" {
					st.A["=stale"] = h // open file, now a backup
				}
			}
		case "(*os.File).Stat":
			if !failed && o.args[0] == st.A["=handle"] {
				st.A["=opened"] = pureCall("(io/fs.FileInfo).Size", []*Term{res.Args[0]})
			}
		case "(*os.File).Write", "(*os.File).WriteString":
			st.A["written"] = trueTerm
			st.A["=n"], st.A["=err"] = res.Args[0], res.Args[1]
		}
		if failed && reopening[o.name] {
			st.A["lastfail"] = trueTerm
		}
	}
	e.H.Elem = s.elem
	e.H.Panic = func(e *Engine, st *State, v *Term, in ssa.Instruction) {
		s.check("C25", false, "goes on", in.Pos(), st, "rolling panics")
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		pos := in.Pos()
		cur := s.get(st, w.file)
		isNil := st.facts.eval(eqTerm(cur, nilTerm))
		for h, v := range st.TS {
			if v == "open" {
				s.check("C31", h == cur && isWrite, "closed", pos, st, "a file opened is closed, or the current file (%v)", h)
			}
		}
		s.check("C31", isWrite || isNil == yes, "closed", pos, st, "no file stays open after Close")
		s.check("C25", isNil == yes || st.TS[cur] == "open", "no closed handle", pos, st, "the current file is open, or there is none (%v)", cur)
		if !isWrite {
			s.check("C24", isNil != yes || s.get(st, w.size) == intTerm(0), "size of the file", pos, st, "without a file the size is 0")
			return
		}
		if st.A["written"] == nil {
			s.check("C24", len(res) == 2 && st.facts.eval(eqTerm(res[1], nilTerm)) == no, "result", pos, st, "a record not written is reported")
			s.check("C25", st.A["lastfail"] != nil, "goes on", pos, st, "the record is given up only if the log cannot be opened")
			s.check("C24", isNil != yes || s.get(st, w.size) == intTerm(0), "size of the file", pos, st, "without a file the size is 0")
			return
		}
		s.check("C25", true, "goes on", pos, st, "the record is written")
		s.backupEnd(st, in)
		s.check("C24", len(res) == 2 && res[0] == st.A["=n"] && (res[1] == st.A["=err"] || st.facts.eval(eqTerm(res[1], st.A["=err"])) == yes), "result", pos, st, "the results are those of the write")
		want := add(st.A["=at"], st.A["=n"])
		s.check("C24", isNil == yes && s.get(st, w.size) == intTerm(0) || st.facts.eval(eqTerm(s.get(st, w.size), want)) == yes, "size of the file", pos, st, "the size grows by what was written (%v)", s.get(st, w.size))
		if w.kind == "time" {
			p := s.period(st)
			same := p == st.A["=period"]
			ok := s.isPeriod(st, p) && p != nil
			ok = ok || same && st.A["tried"] != nil && st.A["rolled"] == nil // try again later
			ok = ok || same && st.A["tried"] == nil && st.facts.eval(eqTerm(p, strTerm(""))) == no && s.due(st, nil) == no
			s.check("C24", ok, "period", pos, st, "the period in force is remembered (%v)", p)
		}
	}
	rr.start(s.fn, func(st *State, args []*Term, open bool) {
		st.A["=size0"] = s.get(st, w.size)
		if w.kind == "time" {
			st.A["=period"] = s.period(st)
		}
		st.facts.assume(lt0(sub(s.get(st, w.maxRolls), intTerm(1))), false)
		if w.kind == "size" {
			st.facts.assume(lt0(sub(e.load(st, w.limit.addr(w.w), w.limit.v.Type()), intTerm(1))), false)
		}
	})
}
