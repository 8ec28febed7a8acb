package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C26", Technique: rollTechnique,
		Rule:   "in every state of Write and Close, whatever fails: a rename is of the current log to its own new backup, a permission change is of that backup, a removal is of a listed backup; and the listing, explored over a directory of two arbitrary entries, yields a name only if that entry is known regular, carries the name of the log in the mode in force, and parses as a roll number or time",
		Trusts: []string{"what is said of two arbitrary entries holds of any number: the loops treat each entry alike"},
		Run:    func(r *Run) { r.rollRule("C26") }})
	register(&Rule{ID: "C27", Technique: rollTechnique,
		Rule: "after a roll, the index of each backup removed is the next one, counting from the oldest, and below the surplus, and Write returns only when all of the surplus was tried, failures included; the listing keeps every entry that qualifies, and sorts by the number or the time the roll name parses to, ascending",
		Run:  func(r *Run) { r.rollRule("C27") }})
	register(&Rule{ID: "C28", Technique: rollTechnique,
		Rule:   "the name given to a backup is that of the log with a delimiter and, by size, the number one above that of the last listed (1 if none), by time the period that ended, its file being known not to exist; the listing yields for an entry exactly its own name",
		Trusts: []string{"a time printed in a pattern parses in that pattern"},
		Run:    func(r *Run) { r.rollRule("C28") }})
}

const (
	atoi  = "strconv.Atoi"
	parse = "time.ParseInLocation"
)

// compose is the name of a backup with the given roll name.
func (s *rollState) compose(st *State, roll *Term) *Term {
	name, dot := s.get(st, s.w.name), strTerm(".")
	if s.get(st, s.w.mode) == intTerm(s.pre) {
		return catTerm(roll, dot, name)
	}
	return catTerm(name, dot, roll)
}

func rollOf(h, i *Term) *Term { return T.mk("call", "roll name", nil, h, i) }

// entry gives the index of the backup with this name in the history.
func (s *rollState) entry(st *State, name *Term) *Term {
	h := st.A["=hist"]
	if h == nil || name == nil {
		return nil
	}
	if n := s.rollName(st, name); n != nil {
		if n.Op == "call" && n.Aux == "roll name" && n.Args[0] == h {
			return n.Args[1]
		}
		if name == st.A["=new"] {
			return lenTerm(h)
		}
	}
	if name.Op == "ld" && name.Args[0].Op == "iaddr" && s.isHistory(st, name.Args[0].Args[0]) {
		return name.Args[0].Args[1]
	}
	return nil
}

// isHistory: the slice has the backups listed, then the new one.
func (s *rollState) isHistory(st *State, x *Term) bool {
	h := st.A["=hist"]
	return x.Op == "append" && len(x.Args) == 2 && s.hist(x.Args[0]) == h && x.Args[1] == st.A["=new"]
}

// hist looks through copies.
func (s *rollState) hist(x *Term) *Term {
	for x.Op == "appendall" && (x.Args[0] == nilTerm || x.Args[0].Op == "list" && len(x.Args[0].Args) == 0) {
		x = x.Args[1]
	}
	return x
}

func (s *rollState) elem(e *Engine, st *State, addr *Term) *Term {
	h := st.A["=hist"]
	if h == nil {
		return nil
	}
	base, i := s.hist(addr.Args[0]), addr.Args[1]
	if base.Op == "append" && s.hist(base.Args[0]) == h {
		if len(base.Args) == 2 && i == lenTerm(h) {
			return base.Args[1]
		}
		if !less(st, i, lenTerm(h)) {
			return nil
		}
		base = h
	}
	if base != h {
		return nil
	}
	return s.compose(st, rollOf(h, i))
}

// less: a < b by the facts known, one of them together with a bound.
func less(st *State, a, b *Term) bool {
	d := sub(a, b)
	if st.facts.eval(lt0(d)) == yes {
		return true
	}
	for k, v := range st.facts {
		if k.Op != "lt0" {
			continue
		}
		if l := k.Args[0]; v { // l <= -1: enough if d - l <= 0
			if st.facts.eval(lt0(sub(sub(d, l), intTerm(1)))) == yes {
				return true
			}
		} else if st.facts.eval(lt0(add(d, l))) == yes { // -l <= 0: enough if d + l < 0
			return true
		}
	}
	return false
}

// surplus is the number of backups too many once the new one is there.
func (s *rollState) surplus(st *State) *Term {
	return sub(add(lenTerm(st.A["=hist"]), intTerm(1)), s.get(st, s.w.maxRolls))
}

// newRoll: the roll name is that of a new backup.
func (s *rollState) newRoll(st *State, n *Term) bool {
	if s.w.kind == "time" {
		return n == st.A["=period"]
	}
	h := st.A["=hist"]
	if h != nil && n == strTerm("1") {
		n = T.mk("itoa", "", nil, intTerm(1))
	}
	if h == nil || n.Op != "itoa" {
		return false
	}
	none := st.facts.eval(eqTerm(lenTerm(h), intTerm(0)))
	if n.Args[0] == intTerm(1) {
		return none == yes
	}
	v := sub(n.Args[0], intTerm(1))
	for v.Op == "conv" {
		v = v.Args[0]
	}
	return s.key(st, v) == rollOf(h, sub(lenTerm(h), intTerm(1)))
}

// key gives what a number or a time was parsed from.
func (s *rollState) key(st *State, v *Term) *Term {
	for v.Op == "conv" {
		v = v.Args[0]
	}
	if v.Op != "ext" || v.C != 0 {
		return nil
	}
	return s.parsed(st, v.Args[0])
}

// parsed gives what the call parses as a roll name.
func (s *rollState) parsed(st *State, c *Term) *Term {
	if c.Op != "call" {
		return nil
	}
	if s.w.kind == "size" {
		switch {
		case c.Aux == atoi,
			c.Aux == "strconv.ParseInt" && c.Args[1] == intTerm(10) && (c.Args[2] == intTerm(64) || c.Args[2] == intTerm(0)):
			return c.Args[0]
		}
		return nil
	}
	p := s.e.load(st, s.w.pattern.addr(s.w.w), s.w.pattern.v.Type())
	if (c.Aux == parse || c.Aux == "time.Parse") && c.Args[0] == p {
		return c.Args[1]
	}
	return nil
}

// zoneOf is what a time was parsed with besides its text.
func zoneOf(v *Term) (z *Term) {
	if v.Op == "call" && (v.Aux == parse || v.Aux == "time.Parse") {
		if v.Aux == parse && len(v.Args) > 2 {
			return v.Args[2]
		}
		return nil
	}
	for _, a := range v.Args {
		if z = zoneOf(a); z != nil {
			return z
		}
	}
	return nil
}

// backupOp checks an operation about to be done.
func (s *rollState) backupOp(st *State, o *rollOp) {
	w, pos := s.w, o.c.Pos
	switch o.name {
	case "os.Rename":
		from, to := s.under(st, o.args[0]), s.under(st, o.args[1])
		own := from != nil && (w.cur.idx >= 0 && from == s.get(st, w.cur) || from == s.get(st, w.name) && s.bareName())
		s.check("C26", own, "renames the log", pos, st, "the file renamed is the current log (%v)", o.args[0])
		var n *Term
		if to != nil {
			n = s.rollName(st, to)
		}
		s.check("C26", n != nil, "renames to a backup", pos, st, "the log is renamed to a backup of its own (%v)", o.args[1])
		s.check("C26", st.A["rolled"] == nil, "renames the log", pos, st, "the log is renamed once")
		s.check("C28", n != nil && s.newRoll(st, n), "new backup", pos, st, "the log is renamed to the next backup (%v)", o.args[1])
		if w.kind == "time" {
			free := st.A["=probed"] == o.args[1] && st.A["=missing"] != nil &&
				st.facts.eval(pureCall("os.IsNotExist", []*Term{st.A["=missing"]})) == yes
			s.check("C28", free, "no backup is replaced", pos, st, "the log is renamed only where nothing is known to exist (%v)", o.args[1])
		}
	case "os.Chmod", "os.Chtimes", "os.Chown", "os.Lchown":
		s.check("C26", o.args[0] == st.A["=dest"] || s.isCurrent(st, o.args[0]), "own permissions", pos, st, "the file changed is the log or the backup just made (%v)", o.args[0])
	case "(*os.File).Chmod", "(*os.File).Truncate", "(*os.File).Chown":
		s.check("C26", o.args[0] == s.get(st, w.file), "own permissions", pos, st, "the file changed is the log (%v)", o.args[0])
	case "os.Remove":
		x := s.under(st, o.args[0])
		i := s.entry(st, x)
		s.check("C26", i != nil, "removes backups", pos, st, "the file removed is a backup listed (%v)", o.args[0])
		if i != nil {
			s.oldest(st, o, i)
			ok := st.facts.eval(eqTerm(s.get(st, w.arch), intTerm(0))) == yes || st.A["=kept"] == x || st.A["keptall"] != nil
			s.check("C29", ok, "archive first", pos, st, "a backup is removed only once it is in an archive, if there is one")
		}
		if delete(st.A, "=i"); i != nil {
			st.A["=i"] = i
		}
	case "list":
		s.listers[o.c.Fn] = o.args
	case "archive":
		delete(st.A, "=i")
		for _, a := range o.args {
			if i := s.entry(st, a); i != nil {
				s.oldest(st, o, i)
				st.A["=i"], st.A["=x"] = i, a
			}
		}
	case "os.RemoveAll", "os.Truncate", "os.Symlink", "os.Link", "os.WriteFile", "io/ioutil.WriteFile", "os.Create":
		s.check("C26", false, "own files", pos, st, "%s is not for the files of the log", o.name)
	}
}

func (s *rollState) isCurrent(st *State, path *Term) bool {
	n := s.under(st, path)
	return n != nil && s.w.cur.idx >= 0 && n == s.get(st, s.w.cur)
}

// oldest: the next backup that is too many.
func (s *rollState) oldest(st *State, o *rollOp, i *Term) {
	pos := o.c.Pos
	s.check("C27", st.A["rolled"] != nil, "after a roll", pos, st, "old backups are removed once the new one is there")
	s.check("C27", st.facts.eval(eqTerm(i, orInt(st.A["next"]))) == yes, "oldest first", pos, st, "the oldest backup not tried is removed (%v, next is %v)", i, orInt(st.A["next"]))
	s.check("C27", less(st, i, s.surplus(st)), "only the surplus", pos, st, "only backups beyond the limit are removed (%v of %v)", i, s.surplus(st))
}

func (s *rollState) backupDid(st *State, o *rollOp, res *Term, failed bool) {
	switch o.name {
	case "list":
		if !failed {
			st.A["=hist"] = res.Args[0]
		}
	case "os.Lstat", "os.Stat":
		delete(st.A, "=missing")
		if failed {
			st.A["=probed"], st.A["=missing"] = o.args[0], res.Args[len(res.Args)-1]
		}
	case "os.Rename":
		if !failed {
			st.A["=dest"], st.A["=new"] = o.args[1], s.under(st, o.args[1])
		}
	case "os.Remove":
		if i := st.A["=i"]; i != nil {
			st.A["next"] = add(i, intTerm(1))
		}
		delete(st.A, "=i")
		delete(st.A, "=kept")
	case "archive":
		i, x := st.A["=i"], st.A["=x"]
		switch {
		case i != nil && failed:
			st.A["next"] = add(i, intTerm(1))
		case i != nil:
			st.A["=kept"] = x
		case failed:
			st.A["gaveup"] = trueTerm
		default:
			st.A["keptall"] = trueTerm
		}
		delete(st.A, "=i")
		delete(st.A, "=x")
	}
}

func (s *rollState) backupEnd(st *State, in ssa.Instruction) {
	if st.A["rolled"] == nil || st.A["gaveup"] != nil || st.A["=hist"] == nil {
		return
	}
	sp := s.surplus(st)
	all := less(st, sp, intTerm(1)) || !s.couldBeLess(st, orInt(st.A["next"]), sp)
	s.check("C27", all, "all of the surplus", in.Pos(), st, "every backup beyond the limit is tried (%v of %v)", orInt(st.A["next"]), sp)
}

// couldBeLess: a >= b is not known.
func (s *rollState) couldBeLess(st *State, a, b *Term) bool {
	return !less(st, sub(b, intTerm(1)), a)
}

// bareName: the log is never opened under any other name.
func (s *rollState) bareName() bool {
	for _, f := range fieldsWhere(s.w.base, func(v *types.Var) bool { return isNamed(v.Type(), "bool") }) {
		if f.v.Name() != "fullName" {
			continue
		}
		for _, fn := range s.r.P.srcFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.FieldAddr); ok && types.Identical(deref(x.X.Type()), s.w.base) && x.Field == f.idx {
						for _, ref := range *x.Referrers() {
							if _, ok := ref.(*ssa.Store); ok {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// listings checks what lists the backups, over a directory with two entries.
func (s *rollState) listings() {
	var fns []*ssa.Function
	for fn := range s.listers {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	if len(fns) == 0 && s.fn == s.w.write {
		s.r.missing("a function that lists the backups of the " + s.label())
	}
	for _, fn := range fns {
		for mode := int64(0); mode < 2; mode++ {
			s.listing(fn, s.listers[fn], mode)
		}
		s.listingAll(fn, s.listers[fn])
	}
}

// listingAll checks that what lists the backups visits every entry of the
// directory, over chunks of unknown size.
func (s *rollState) listingAll(fn *ssa.Function, args []*Term) {
	w := s.w
	rr := w.run()
	rr.deep = true
	e := rr.e
	s.e, s.rr = e, rr
	visited := func(st *State, pos token.Pos) {
		l := st.A["chunk"]
		if l == nil {
			return
		}
		n := st.A["next"]
		if n == nil {
			n = intTerm(0)
		}
		s.check("C27", st.facts.eval(lt0(sub(n, lenTerm(l)))) == no, "complete", pos, st, "every entry read is looked at (%v of %v)", n, lenTerm(l))
	}
	rr.call = func(st *State, c *CallEv) ([]Out, bool) {
		switch c.Name {
		case "(*os.File).Readdir", "(*os.File).ReadDir", "os.ReadDir", "io/ioutil.ReadDir":
			visited(st, c.Pos)
			er := ioErr(e, st, c, "error of reading the directory")
			l := e.fresh(st, c.Frame, c.Instr, "entries", c.Sig.Results().At(0).Type())
			end := s.eof(e, st)
			tup := func(ts ...*Term) *Term { return T.mk("tuple", "", nil, ts...) }
			whole, chunk := wholeDir(st, c)
			if !whole && !chunk {
				return nil, false
			}
			got := func(st *State) {
				st.A["chunk"] = l
				delete(st.A, "next")
				if whole {
					st.A["=end"] = trueTerm
				}
			}
			gone := func(st *State) {
				delete(st.A, "chunk")
				delete(st.A, "next")
			}
			outs := []Out{
				{Res: tup(l, nilTerm), Do: got},
				{Res: tup(nilTerm, er), Assume: []Lit{{eqTerm(er, nilTerm), false}, {eqTerm(er, end), false}}, Do: gone},
			}
			if !whole {
				outs[0].Assume = []Lit{{lt0(mulc(lenTerm(l), -1)), true}}
				outs = append(outs, Out{Res: tup(nilTerm, end), Assume: []Lit{{eqTerm(end, nilTerm), false}}, Do: func(st *State) {
					gone(st)
					st.A["=end"] = trueTerm
				}})
			}
			return outs, true
		}
		return nil, false
	}
	e.H.Load = func(e *Engine, st *State, a *Term, in ssa.Instruction) {
		if l := st.A["chunk"]; l != nil && a.Op == "iaddr" && a.Args[0] == l {
			n := st.A["next"]
			if n == nil {
				n = intTerm(0)
			}
			i := a.Args[1]
			if i != n && add(i, intTerm(1)) != n {
				s.check("C27", st.facts.eval(eqTerm(i, n)) == yes, "complete", in.Pos(), st, "entries are looked at one after another (%v after %v)", i, n)
			}
			st.A["next"] = add(i, intTerm(1))
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if st.facts.eval(eqTerm(res[1], nilTerm)) == no {
			return
		}
		visited(st, in.Pos())
		s.check("C27", st.A["=end"] != nil, "complete", in.Pos(), st, "the directory is read to its end")
	}
	e.Entry(fn, args, func(st *State, args []*Term) {
		assumeNonNil(st, w.w, w.rw)
		st.heap[w.embed.addr(w.w)] = w.rw
		for _, f := range w.self {
			st.heap[f.addr(w.rw)] = T.mk("mki", "", types.NewPointer(w.typ), w.w)
		}
		st.heap[w.mode.addr(w.rw)] = intTerm(0)
	})
	s.r.done(e, w.kind+" "+fn.Name()+" (any number of entries)")
}

// wholeDir: the call reads the directory at once, or in chunks.
func wholeDir(st *State, c *CallEv) (whole, chunk bool) {
	whole = c.Name == "os.ReadDir" || c.Name == "io/ioutil.ReadDir" || len(c.Args) > 1 && st.facts.eval(lt0(sub(c.Args[1], intTerm(1)))) == yes
	chunk = !whole && len(c.Args) > 1 && st.facts.eval(lt0(sub(c.Args[1], intTerm(1)))) == no
	return
}

func (s *rollState) listing(fn *ssa.Function, args []*Term, mode int64) {
	w := s.w
	rr := w.run()
	rr.deep = true
	e := rr.e
	e.Unroll = 4
	s.e, s.rr = e, rr
	rr.call = func(st *State, c *CallEv) ([]Out, bool) {
		switch c.Name {
		case "(*os.File).Readdir", "(*os.File).ReadDir", "os.ReadDir", "io/ioutil.ReadDir":
			return s.entries(st, c)
		case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			s.comparator(st, c)
			return []Out{{Res: T.mk("tuple", "", nil), Do: func(st *State) { st.A["=sorted"] = strip(c.Args[0]) }}}, true
		case "sort.Strings", "slices.Sort":
			s.check("C27", false, "order", c.Pos, st, "backups are not ordered as text")
			return []Out{{Res: T.mk("tuple", "", nil)}}, true
		}
		return nil, false
	}
	rr.op = func(st *State, o *rollOp) {
		switch o.name {
		case "os.Open":
			s.check("C26", o.args[0] == s.get(st, w.dir), "own directory", o.c.Pos, st, "the directory listed is that of the log (%v)", o.args[0])
		case "os.Rename", "os.Chmod", "os.Remove", "os.RemoveAll", "os.Truncate", "os.OpenFile", "os.Create", "os.WriteFile", "io/ioutil.WriteFile":
			s.check("C26", false, "own files", o.c.Pos, st, "listing changes nothing (%s)", o.name)
		}
	}
	rr.did = func(st *State, o *rollOp, res *Term, failed bool) {
		switch {
		case openers[o.name] && !failed:
			st.TS[res.Args[0]] = "open"
		case o.name == "(*os.File).Close":
			delete(st.TS, o.args[0])
		}
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		for h, v := range st.TS {
			s.check("C31", v != "open", "closed", in.Pos(), st, "a file opened for listing is closed (%v)", h)
		}
		s.check("C31", true, "closed", in.Pos(), st, "every file opened for listing is closed")
		if st.facts.eval(eqTerm(res[1], nilTerm)) == no {
			return
		}
		s.listed(st, res[0], in)
	}
	e.Entry(fn, args, func(st *State, args []*Term) {
		assumeNonNil(st, w.w, w.rw)
		st.heap[w.embed.addr(w.w)] = w.rw
		for _, f := range w.self {
			st.heap[f.addr(w.rw)] = T.mk("mki", "", types.NewPointer(w.typ), w.w)
		}
		st.heap[w.mode.addr(w.rw)] = intTerm(mode)
	})
	s.r.done(e, w.kind+" "+fn.Name())
}

// entries models reading a directory: two entries, and then the end.
func (s *rollState) entries(st *State, c *CallEv) ([]Out, bool) {
	e := s.e
	rt := c.Sig.Results().At(0).Type()
	el := rt.Underlying().(*types.Slice).Elem()
	er := ioErr(e, st, c, "error of reading the directory")
	tup := func(ts ...*Term) *Term { return T.mk("tuple", "", nil, ts...) }
	end := s.eof(e, st)
	failed := Out{Res: tup(nilTerm, er), Assume: []Lit{{eqTerm(er, nilTerm), false}, {eqTerm(er, end), false}}}
	whole, chunk := wholeDir(st, c)
	if !whole && !chunk {
		return nil, false
	}
	var l []*Term
	for i := 0; i < 2; i++ {
		l = append(l, T.mk("param", []string{"entry1", "entry2"}[i], el))
	}
	s.ents = l
	read := Out{Res: tup(T.mk("list", "", rt, l...), nilTerm), Do: func(st *State) { st.A["=read"] = trueTerm }}
	for _, x := range l {
		read.Assume = append(read.Assume, Lit{eqTerm(x, nilTerm), false})
	}
	if whole {
		read.Do = func(st *State) { st.A["=read"], st.A["=whole"] = trueTerm, trueTerm }
		return []Out{read, failed}, true
	}
	eof := Out{Res: tup(nilTerm, end), Assume: []Lit{{eqTerm(end, nilTerm), false}}, Do: func(st *State) { st.A["=end"] = trueTerm }}
	if st.A["=read"] != nil {
		return []Out{eof, failed}, true
	}
	return []Out{read, eof, failed}, true
}

func (s *rollState) eof(e *Engine, st *State) *Term {
	for _, p := range s.r.P.SSA.AllPackages() {
		if p.Pkg.Path() == "io" {
			if g := p.Var("EOF"); g != nil {
				return e.load(st, globalTerm(g), deref(g.Type()))
			}
		}
	}
	return nilTerm
}

// comparator checks the order a sort is given: ascending by what the roll
// names parse to.
func (s *rollState) comparator(st *State, c *CallEv) {
	var fn *ssa.Function
	var args []*Term
	x := c.Args[0]
	cmp := false // returns an order rather than a bool
	switch c.Name {
	case "sort.Sort", "sort.Stable":
		if x.Op == "mki" && x.Typ != nil {
			fn = s.r.method(x.Typ, "Less")
			args = []*Term{x.Args[0]}
		}
	default:
		cmp = c.Name == "slices.SortFunc" || c.Name == "slices.SortStableFunc"
		if f := c.Args[1]; f.Op == "closure" || f.Op == "func" {
			fn, _ = f.Obj.(*ssa.Function)
			args = append([]*Term{nil, nil}, f.Args...)
		}
	}
	if fn == nil || fn.Blocks == nil {
		s.check("C27", false, "order", c.Pos, st, "backups are sorted with a comparison that is known")
		return
	}
	n := len(fn.Params)
	if n < 2 {
		return
	}
	i, j := paramTerm(fn.Params[n-2].Name(), fn.Params[n-2].Type()), paramTerm(fn.Params[n-1].Name(), fn.Params[n-1].Type())
	e := s.w.r.engine()
	e.Havoc = false
	// of which element the text parsed is the roll name
	of := func(st *State, v *Term) *Term {
		t := s.key(st, v)
		if t == nil {
			return nil
		}
		if cmp {
			return t
		}
		if t.Op == "ld" && t.Args[0].Op == "iaddr" {
			return t.Args[0].Args[1]
		}
		return nil
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		t, sign := res[0], true
		for t.Op == "not" {
			t, sign = t.Args[0], !sign
		}
		ok := false
		pair := func(a, b *Term) bool { return of(st, a) == i && of(st, b) == j && zoneOf(a) == zoneOf(b) }
		asc := func(t *Term) bool {
			switch {
			case t.Op == "lt0" && t.Args[0].Op == "lin":
				d := t.Args[0]
				if d.C != 0 || len(d.Args) != 2 {
					return false
				}
				a, b := d.Args[0], d.Args[1]
				if d.K[0] == -1 && d.K[1] == 1 {
					a, b = b, a
				} else if d.K[0] != 1 || d.K[1] != -1 {
					return false
				}
				return pair(a, b)
			case t.Op == "call" && t.Aux == "(time.Time).Before":
				return pair(t.Args[0], t.Args[1])
			case t.Op == "call" && t.Aux == "(time.Time).After":
				return pair(t.Args[1], t.Args[0])
			}
			return false
		}
		switch {
		case cmp:
			if t.Op == "lin" {
				ok = asc(lt0(t))
			} else if t.Op == "call" && (t.Aux == "cmp.Compare" || t.Aux == "(time.Time).Compare") {
				ok = pair(t.Args[0], t.Args[1])
			}
		case t == trueTerm || t == falseTerm:
			for k, v := range st.facts {
				if asc(k) && v == (t == trueTerm) == sign {
					ok = true
				}
			}
		default:
			ok = sign && asc(t)
		}
		s.check("C27", ok, "order", in.Pos(), st, "backups are sorted by their number or time, ascending (%v)", res[0])
	}
	e.Entry(fn, args, func(st2 *State, _ []*Term) {
		for k, v := range st.heap {
			st2.heap[k] = v
		}
	})
	s.r.done(e, s.w.kind+" comparison")
}

// listed checks the names listed against the two entries of the directory.
func (s *rollState) listed(st *State, res *Term, in ssa.Instruction) {
	pos := in.Pos()
	s.check("C27", st.A["=end"] != nil || st.A["=whole"] != nil, "complete", pos, st, "the directory is read to its end")
	var got []*Term
	n := lenTerm(res)
	if res == nilTerm {
		n = intTerm(0)
	}
	if !n.isInt() {
		s.check("C26", false, "listed", pos, st, "what is listed is known (%v)", res)
		s.check("C27", false, "complete", pos, st, "what is listed is known (%v)", res)
		s.check("C28", false, "round trip", pos, st, "what is listed is known (%v)", res)
		return
	}
	for i := int64(0); i < n.C; i++ {
		got = append(got, s.e.load(st, iaddr(res, intTerm(i)), types.Typ[types.String]))
	}
	s.check("C27", len(got) < 2 || st.A["=sorted"] != nil, "order", pos, st, "what is listed is sorted")
	var want []*Term
	if st.A["=read"] != nil {
		want = []*Term{s.entryName(st, 0), s.entryName(st, 1)}
	}
	k := 0
	for i, w := range want {
		kept := k < len(got) && s.sameName(st, got[k], w)
		reg, pre, val, roll := s.regular(st, i), unknown, unknown, sliceTerm(w, nilTerm, nilTerm)
		pre, roll = s.carries(st, w)
		if roll != nil {
			val = s.valid(st, roll)
		}
		if kept {
			k++
			s.check("C26", reg == yes, "listed", pos, st, "an entry listed is a regular file")
			s.check("C26", pre == yes && val == yes, "listed", pos, st, "an entry listed has the name of the log and a valid roll name")
			s.check("C28", pre == yes, "round trip", pos, st, "an entry is listed under its own name")
		} else {
			s.check("C27", reg == no || pre == no || val == no, "complete", pos, st, "an entry left out is no backup of the log")
		}
	}
	s.check("C26", k == len(got), "listed", pos, st, "what is listed are entries of the directory, under their own names (%v)", got)
	s.check("C28", k == len(got), "round trip", pos, st, "what is listed are entries of the directory, under their own names (%v)", got)
	s.check("C27", k == len(got), "order", pos, st, "what is listed keeps the order sorted (%v)", got)
}

func (s *rollState) entryTerm(i int) func(t *Term) bool {
	n := []string{"entry1", "entry2"}[i]
	return func(t *Term) bool { return t.Op == "param" && t.Aux == n }
}

// entryName is the name of an entry of the directory, as the code reads it.
func (s *rollState) entryName(st *State, i int) *Term {
	is := s.entryTerm(i)
	for _, n := range []string{"(io/fs.FileInfo).Name", "(io/fs.DirEntry).Name"} {
		if c := s.asked(is, n); c != nil {
			return c
		}
	}
	return nilTerm
}

// asked finds the call of the method on the entry.
func (s *rollState) asked(is func(*Term) bool, n string) *Term {
	for _, t := range s.ents {
		if is(t) && (t.Typ != nil) {
			i := "(io/fs.FileInfo)"
			if isNamed(t.Typ, "io/fs.DirEntry") {
				i = "(io/fs.DirEntry)"
			}
			if len(n) > len(i) && n[:len(i)] == i {
				return pureCall(n, []*Term{t})
			}
		}
	}
	return nil
}

// sameName: the name listed is that of the entry.
func (s *rollState) sameName(st *State, got, want *Term) bool {
	if got == want {
		return true
	}
	n := s.rollName(st, got)
	if n == nil {
		return false
	}
	_, roll := s.carries(st, want)
	return n == roll
}

// carries: the entry has the name of the log; what remains is its roll name.
func (s *rollState) carries(st *State, name *Term) (tri, *Term) {
	log, dot := s.get(st, s.w.name), strTerm(".")
	if s.get(st, s.w.mode) == intTerm(s.pre) {
		x := catTerm(dot, log)
		return st.facts.eval(pureCall("strings.HasSuffix", []*Term{name, x})), sliceTerm(name, nilTerm, sub(lenTerm(name), lenTerm(x)))
	}
	x := catTerm(log, dot)
	return st.facts.eval(pureCall("strings.HasPrefix", []*Term{name, x})), sliceTerm(name, lenTerm(x), nilTerm)
}

// valid: the roll name parses.
func (s *rollState) valid(st *State, roll *Term) tri {
	if st.facts.eval(eqTerm(lenTerm(roll), intTerm(0))) == yes || st.facts.eval(eqTerm(roll, strTerm(""))) == yes {
		return no
	}
	for k, v := range st.facts {
		if k.Op != "eq" || !(k.Args[0] == nilTerm || k.Args[1] == nilTerm) {
			continue
		}
		x := k.Args[0]
		if x == nilTerm {
			x = k.Args[1]
		}
		if x.Op == "ext" && x.C == 1 && s.parsed(st, x.Args[0]) == roll {
			return triOf(v)
		}
	}
	return unknown
}

// regular: the entry is a regular file.
func (s *rollState) regular(st *State, i int) tri {
	is := s.entryTerm(i)
	for k, v := range st.facts {
		if k.find(is) == nil {
			continue
		}
		if k.Op == "call" && k.Aux == "(io/fs.FileMode).IsRegular" {
			return triOf(v)
		}
		if k.Op == "eq" && k.find(func(t *Term) bool {
			return t.Op == "bin" && t.Aux == "&" && (t.Args[0] == intTerm(modeType) || t.Args[1] == intTerm(modeType)) ||
				t.Op == "call" && (t.Aux == "(io/fs.FileMode).Type" || t.Aux == "(io/fs.DirEntry).Type")
		}) != nil && (k.Args[1] == intTerm(0) || k.Args[0] == intTerm(0)) {
			return triOf(v)
		}
	}
	return unknown
}

const modeType = 2401763328 // os.ModeType
