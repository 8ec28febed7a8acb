package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C30", Technique: copyTechnique,
		Rule:   "on every path of Copy, from each pair of a reader and a writer: every entry obtained from the source is opened in the destination under its own name and header and receives exactly its own content (streamed, or buffered whole in an emptied file that is read from its start) before the next one is asked for; any operation that fails makes Copy return an error, and nil is returned only at the end of the source. The adapters of tar, zip and gzip pass on name, content and every error, and closing a writer closes all its layers from the outermost on",
		Trusts: []string{"io.Copy copies to the end of its source or reports an error", "the tar, zip and gzip packages of the standard library"},
		Run:    func(r *Run) { r.copies(); r.adapters() }})
}

const copyTechnique = "disjunctive abstract interpretation (value numbering) of the copying functions and format adapters, with typestates of the current entry and of the buffer file, and a branch for the failure of each operation"

// sigOf writes the parameters and results of a call, without its receiver.
func sigOf(s *types.Signature) string {
	if s == nil {
		return ""
	}
	var sb strings.Builder
	tuple := func(t *types.Tuple) {
		sb.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(types.TypeString(types.Unalias(t.At(i).Type()), nil))
		}
		sb.WriteString(")")
	}
	tuple(s.Params())
	tuple(s.Results())
	return sb.String()
}

// copyRun explores the copying of an archive.
type copyRun struct {
	r        *Run
	e        *Engine
	src, dst *Term
	label    string
	end      *Term // io.EOF
	files    []*Term
}

func (cp *copyRun) check(good bool, kind string, pos token.Pos, st *State, format string, a ...interface{}) {
	cp.r.check(good, kind, pos, st, cp.label+format, a...)
}

func ioEOF(e *Engine, st *State) *Term {
	for _, p := range e.P.SSA.AllPackages() {
		if p.Pkg.Path() == "io" {
			if g := p.Var("EOF"); g != nil {
				return e.load(st, globalTerm(g), deref(g.Type()))
			}
		}
	}
	return nilTerm
}

func tupOf(ts ...*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	return T.mk("tuple", "", nil, ts...)
}

// either gives the outcomes of an operation whose last result is an error:
// success with vals, or failure.
func (cp *copyRun) either(st *State, c *CallEv, vals []*Term, ok, bad func(st *State)) []Out {
	e := cp.e
	n := c.Sig.Results().Len()
	er := ioErr(e, st, c, "error of "+shortName(c.Name))
	bads := make([]*Term, n)
	var lits []Lit
	for i := 0; i < n-1; i++ {
		bads[i] = zeroOf(c.Sig.Results().At(i).Type())
		if nilable(vals[i].Typ) {
			lits = append(lits, Lit{eqTerm(vals[i], nilTerm), false})
		}
	}
	bads[n-1] = er
	end := cp.eof(st)
	lits = append(lits, Lit{eqTerm(end, nilTerm), false})
	do := func(f func(st *State)) func(st *State) {
		return func(st *State) {
			st.note(c.Pos, c.Name)
			if f != nil {
				f(st)
			}
		}
	}
	return []Out{
		{Res: tupOf(append(append([]*Term{}, vals...), nilTerm)...), Assume: lits, Do: do(ok)},
		{Res: tupOf(bads...), Assume: []Lit{{eqTerm(er, nilTerm), false}, {eqTerm(er, end), false}}, Do: do(bad)},
	}
}

func (cp *copyRun) eof(st *State) *Term { return ioEOF(cp.e, st) }

func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func shortName(n string) string { return n[strings.LastIndexByte(n, '.')+1:] }

func fail(st *State) { st.A["fail"] = trueTerm }

// finished is told that the source is asked for another entry, or is at its end.
func (cp *copyRun) finished(st *State, pos token.Pos) {
	if st.A["have"] == nil || st.A["fail"] != nil {
		return
	}
	if d := st.A["=dir"]; d != nil && st.facts.eval(d) == yes && st.A["named"] == nil {
		return // directories are skipped
	}
	if h := st.A["=entry"]; h != nil && st.A["named"] == nil && h.Typ != nil && strings.HasSuffix(h.Typ.String(), "tar.Header") {
		if f, v := fieldNamed(deref(h.Typ), "Typeflag"); v != nil {
			if st.facts.eval(eqTerm(cp.e.load(st, faddr(h, f, v), v.Type()), intTerm('5'))) == yes {
				return
			}
		}
	}
	cp.check(st.A["wrote"] != nil, "every entry", pos, st, "each entry of the source is written before the next is asked for")
}

func fieldNamed(t types.Type, n string) (int, *types.Var) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i, s.Field(i)
		}
	}
	return -1, nil
}

func (cp *copyRun) ofSrc(t *Term) bool { return t.contains(cp.src) && !t.contains(cp.dst) }
func (cp *copyRun) ofDst(t *Term) bool { return t.contains(cp.dst) && !t.contains(cp.src) }

func (cp *copyRun) next(st *State, name, entry *Term) {
	for _, k := range []string{"wrote", "named", "=fi", "=dir", "=zw", "=rc"} {
		delete(st.A, k)
	}
	st.A["have"] = trueTerm
	st.A["=name"], st.A["=entry"] = name, entry
}

// buffer is the file a handle or name stands for.
func (cp *copyRun) buffer(st *State, t *Term) *Term {
	if st.TS[t] != "" {
		return t
	}
	for h := range st.TS {
		if nameOf(t, h) {
			return h
		}
	}
	return nil
}

// copyTo is one stream copied to another up to its end.
func (cp *copyRun) copyTo(st *State, c *CallEv, d, s *Term) ([]Out, bool) {
	pos := c.Pos
	ds, ss := strip(d), strip(s)
	buf, from := cp.buffer(st, ds), cp.buffer(st, ss)
	vals := []*Term{cp.e.fresh(st, c.Frame, c.Instr, "copied", types.Typ[types.Int64])}
	bad := func(st *State) {
		fail(st)
		if buf != nil {
			st.TS[buf] = "spoilt"
		}
	}
	var ok func(st *State)
	switch {
	case buf != nil && cp.ofSrc(ss):
		cp.check(st.A["have"] != nil, "own content", pos, st, "what is buffered is an entry")
		cp.check(st.TS[buf] == "empty at 0", "own content", pos, st, "an entry is buffered in an empty file from its start (%s)", st.TS[buf])
		ok = func(st *State) { st.TS[buf] = "whole at end"; delete(st.A, "=fi") }
	case from != nil && cp.ofDst(ds):
		cp.check(st.TS[from] == "whole at 0", "own content", pos, st, "a buffered entry is read whole from its start (%s)", st.TS[from])
		cp.check(st.A["named"] != nil && st.A["wrote"] == nil, "own content", pos, st, "the content of an entry follows its header, once")
		ok = func(st *State) { st.TS[from] = "whole at end"; st.A["wrote"] = trueTerm }
	case st.A["=zw"] != nil && ds == st.A["=zw"]:
		cp.check(ss == st.A["=rc"], "own content", pos, st, "an entry of a zip archive receives its own content (%v)", ss)
		cp.check(st.A["named"] != nil && st.A["wrote"] == nil, "own content", pos, st, "the content of an entry follows its header, once")
		ok = func(st *State) { cp.wrote(st) }
	case cp.ofDst(ds) && cp.ofSrc(ss):
		if st.A["have"] == nil && cp.stream(ds) && cp.stream(ss) {
			ok = func(st *State) { st.A["eof"] = trueTerm }
			break
		}
		cp.check(st.A["named"] != nil && st.A["wrote"] == nil, "own content", pos, st, "the content of an entry follows its header, once")
		ok = func(st *State) { st.A["wrote"] = trueTerm }
	default:
		return nil, false
	}
	return cp.either(st, c, vals, ok, bad), true
}

func (cp *copyRun) wrote(st *State) {
	st.A["wrote"] = trueTerm
	if f := st.A["=entry"]; f != nil {
		for i, x := range cp.files {
			if x == f {
				st.A["file"+string(rune('1'+i))] = trueTerm
			}
		}
	}
}

// stream: the value is of a format that has no entries.
func (cp *copyRun) stream(t *Term) bool {
	return t.Typ != nil && strings.Contains(types.TypeString(t.Typ, nil), "/gzip.")
}

func (cp *copyRun) call(e *Engine, st *State, c *CallEv) ([]Out, bool) {
	pos := c.Pos
	short := shortName(c.Name)
	sig := sigOf(c.Sig)
	rs := c.Sig.Results()
	recv := c.Arg(0)
	fresh := func(what string, i int) *Term { return e.fresh(st, c.Frame, c.Instr, what, rs.At(i).Type()) }
	atEnd := func(vals ...*Term) Out {
		end := cp.eof(st)
		return Out{Res: tupOf(append(vals, end)...), Assume: []Lit{{eqTerm(end, nilTerm), false}}, Do: func(st *State) {
			st.note(pos, "the source is at its end")
			st.A["eof"] = trueTerm
			delete(st.A, "have")
		}}
	}
	switch {
	case short == "NextFile" && sig == "()(string,error)" && cp.ofSrc(recv):
		cp.finished(st, pos)
		name := fresh("name", 0)
		outs := cp.either(st, c, []*Term{name}, func(st *State) { cp.next(st, name, nil) }, fail)
		return append(outs, atEnd(strTerm(""))), true
	case sig == "()(*archive/tar.Header,error)" && cp.ofSrc(recv):
		cp.finished(st, pos)
		hdr := fresh("header", 0)
		outs := cp.either(st, c, []*Term{hdr}, func(st *State) { cp.next(st, nil, hdr) }, fail)
		return append(outs, atEnd(nilTerm)), true
	case sig == "()([]*archive/zip.File)" && cp.ofSrc(recv):
		el := rs.At(0).Type().Underlying().(*types.Slice).Elem()
		cp.files = nil
		o := Out{Do: func(st *State) { st.A["listed"] = trueTerm }}
		for _, n := range []string{"file1", "file2"} {
			f := T.mk("param", n, el)
			cp.files = append(cp.files, f)
			o.Assume = append(o.Assume, Lit{eqTerm(f, nilTerm), false})
		}
		o.Res = T.mk("list", "", rs.At(0).Type(), cp.files...)
		return []Out{o}, true
	case c.Name == "(*archive/zip.File).Open":
		cp.finished(st, pos)
		if st.A["=rc"] != nil {
			delete(st.A, "=rc")
		}
		rc := fresh("reader", 0)
		return cp.either(st, c, []*Term{rc}, func(st *State) {
			if st.A["have"] == nil || st.A["=entry"] != recv {
				cp.next(st, nil, recv)
			}
			st.A["=rc"] = rc
		}, fail), true
	case sig == "(string,io/fs.FileInfo)(error)" && cp.ofDst(recv):
		name := c.Arg(1)
		cp.check(st.A["have"] != nil && st.A["named"] == nil, "own name", pos, st, "a header is written for each entry, once")
		cp.check(st.A["=name"] != nil && name == st.A["=name"], "own name", pos, st, "an entry keeps its name (%v)", name)
		cp.check(st.A["=fi"] != nil && strip(c.Arg(2)) == strip(st.A["=fi"]), "own content", pos, st, "the header is made from the buffered entry, whole (%v)", c.Arg(2))
		return cp.either(st, c, nil, func(st *State) { st.A["named"] = trueTerm }, fail), true
	case sig == "(*archive/tar.Header)(error)" && cp.ofDst(recv):
		h := st.A["=entry"]
		cp.check(st.A["have"] != nil && st.A["named"] == nil, "own name", pos, st, "a header is written for each entry, once")
		ok := h != nil
		if ok {
			for _, n := range []string{"Name", "Size", "Typeflag", "Linkname"} {
				i, v := fieldNamed(deref(c.Sig.Params().At(0).Type()), n)
				x := e.load(st, faddr(c.Arg(1), i, v), v.Type())
				ok = ok && x == T.mk("ld", "", v.Type(), faddr(h, i, v))
			}
		}
		cp.check(ok, "own name", pos, st, "an entry keeps its header (%v)", c.Arg(1))
		return cp.either(st, c, nil, func(st *State) { st.A["named"] = trueTerm }, fail), true
	case sig == "(*archive/zip.FileHeader)(io.Writer,error)" && cp.ofDst(recv):
		cp.check(st.A["have"] != nil && st.A["named"] == nil, "own name", pos, st, "a header is written for each entry, once")
		i, v := fieldNamed(deref(c.Sig.Params().At(0).Type()), "Name")
		x := e.load(st, faddr(c.Arg(1), i, v), v.Type())
		ok := st.A["=entry"] != nil && x.Op == "ld" && x.contains(st.A["=entry"]) && x.Args[0].Op == "faddr" && fieldVar(x.Args[0]) == v
		cp.check(ok, "own name", pos, st, "an entry keeps its name (%v)", x)
		w := fresh("entry", 0)
		return cp.either(st, c, []*Term{w}, func(st *State) { st.A["named"], st.A["=zw"] = trueTerm, w }, fail), true
	case sig == "(*archive/zip.File)(error)" && cp.ofDst(recv):
		cp.finished(st, pos)
		return cp.either(st, c, nil, func(st *State) {
			cp.next(st, nil, c.Arg(1))
			cp.wrote(st)
		}, fail), true
	case c.Name == "io.Copy" || c.Name == "io.CopyBuffer":
		return cp.copyTo(st, c, c.Arg(0), c.Arg(1))
	case short == "ReadFrom" && sig == "(io.Reader)(int64,error)":
		return cp.copyTo(st, c, c.Arg(0), c.Arg(1))
	case short == "WriteTo" && sig == "(io.Writer)(int64,error)":
		return cp.copyTo(st, c, c.Arg(1), c.Arg(0))
	case c.Name == "(*archive/tar.Header).FileInfo":
		return []Out{{Res: pureCall(c.Name, []*Term{recv})}}, true
	case strings.HasSuffix(c.Name, "fs.FileInfo).IsDir"):
		t := T.mk("call", c.Name, types.Typ[types.Bool], recv)
		if recv.contains(orNil(st.A["=entry"])) {
			st.A["=dir"] = t
		}
		return []Out{{Res: t}}, true
	case c.Name == "(*archive/zip.FileHeader).SetModTime" || c.Name == "(*archive/zip.FileHeader).SetMode":
		return []Out{{Res: tupOf()}}, true
	case c.Name == "errors.Is":
		if st.facts.eval(eqTerm(c.Arg(0), c.Arg(1))) != unknown {
			return []Out{{Res: eqTerm(c.Arg(0), c.Arg(1))}}, true
		}
	}
	return cp.file(st, c)
}

func orNil(t *Term) *Term {
	if t == nil {
		return T.mk("param", "no such entry", nil)
	}
	return t
}

// file models the buffer files.
func (cp *copyRun) file(st *State, c *CallEv) ([]Out, bool) {
	e := cp.e
	switch c.Name {
	case "os.CreateTemp", "io/ioutil.TempFile", "os.Create", "os.OpenFile", "os.Open":
		h := e.freshAlloc(st, c.Frame, c.Instr, "file", c.Sig.Results().At(0).Type())
		how := "spoilt"
		if c.Name == "os.CreateTemp" || c.Name == "io/ioutil.TempFile" {
			how = "empty at 0"
		}
		return cp.either(st, c, []*Term{h}, func(st *State) { st.TS[h] = how }, fail), true
	case "(*os.File).Seek":
		h := c.Arg(0)
		return cp.either(st, c, []*Term{e.fresh(st, c.Frame, c.Instr, "offset", types.Typ[types.Int64])}, func(st *State) {
			what := strings.SplitN(st.TS[h], " ", 2)[0]
			if c.Arg(1) == intTerm(0) && c.Arg(2) == intTerm(0) && what != "spoilt" {
				st.TS[h] = what + " at 0"
			} else {
				st.TS[h] = "spoilt"
			}
		}, fail), true
	case "(*os.File).Truncate", "os.Truncate":
		h := cp.buffer(st, c.Arg(0))
		return cp.either(st, c, nil, func(st *State) {
			delete(st.A, "=fi")
			if h == nil {
				return
			}
			at := "at end"
			if strings.HasSuffix(st.TS[h], "at 0") {
				at = "at 0"
			}
			if c.Arg(1) == intTerm(0) {
				st.TS[h] = "empty " + at
			} else {
				st.TS[h] = "spoilt"
			}
		}, fail), true
	case "(*os.File).Stat", "os.Stat", "os.Lstat":
		h := cp.buffer(st, c.Arg(0))
		fi := e.fresh(st, c.Frame, c.Instr, "info", c.Sig.Results().At(0).Type())
		return cp.either(st, c, []*Term{fi}, func(st *State) {
			delete(st.A, "=fi")
			if h != nil && strings.HasPrefix(st.TS[h], "whole") {
				st.A["=fi"] = fi
			}
		}, fail), true
	case "(*os.File).Close":
		h := c.Arg(0)
		return cp.either(st, c, nil, func(st *State) { delete(st.TS, h) }, func(st *State) { delete(st.TS, h) }), true
	case "os.Remove", "os.Chmod", "(*os.File).Chmod":
		return cp.either(st, c, nil, nil, func(st *State) { st.A["minor"] = trueTerm }), true
	case "(*os.File).Sync":
		return cp.either(st, c, nil, nil, fail), true
	}
	if shortName(c.Name) == "Close" && sigOf(c.Sig) == "()(error)" && c.Fn == nil {
		return cp.either(st, c, nil, nil, func(st *State) { st.A["minor"] = trueTerm }), true
	}
	return nil, false
}

func (r *Run) copies() {
	fn := r.fn("internal/archive", "Copy")
	if fn == nil || len(fn.Params) != 2 {
		r.missing("archive.Copy")
		return
	}
	e := r.engine()
	e.Unroll = 4
	cp := &copyRun{r: r, e: e}
	cp.dst, cp.src = paramTerm(fn.Params[0].Name(), fn.Params[0].Type()), paramTerm(fn.Params[1].Name(), fn.Params[1].Type())
	e.H.Call = cp.call
	e.H.Panic = func(e *Engine, st *State, v *Term, in ssa.Instruction) {
		cp.check(false, "reported", in.Pos(), st, "copying panics")
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		pos := in.Pos()
		isNil := st.facts.eval(eqTerm(res[0], nilTerm))
		if isNil == no {
			cp.check(st.A["fail"] != nil || st.A["minor"] != nil, "reported", pos, st, "an error is returned only if something failed")
			return
		}
		cp.check(st.A["fail"] == nil, "reported", pos, st, "a failure makes Copy return an error (%v)", res[0])
		if st.A["fail"] != nil {
			return
		}
		cp.finished(st, pos)
		done := st.A["eof"] != nil
		if st.A["listed"] != nil {
			done = st.A["file1"] != nil && st.A["file2"] != nil
		}
		cp.check(done, "every entry", pos, st, "success is reported only at the end of the source")
	}
	e.Entry(fn, []*Term{cp.dst, cp.src}, func(st *State, args []*Term) {
		assumeNonNil(st, cp.dst, cp.src)
	})
	r.done(e, "archive.Copy")
	for k, n := range map[string]int{"every entry": 4, "own name": 4, "own content": 6, "reported": 6} {
		r.need(k, n)
	}
}

// adapter is a type of the repository that reads or writes a format of the
// standard library.
type adapter struct {
	typ  types.Type // pointer to it
	kind string     // tar, zip, gzip
	mks  []*ssa.Function
}

func stdKind(path string) string {
	switch path {
	case "archive/tar":
		return "tar"
	case "archive/zip":
		return "zip"
	case "compress/gzip":
		return "gzip"
	}
	return ""
}

func (r *Run) adaptersOf(iface *types.Interface) []*adapter {
	var as []*adapter
	for s := range r.P.Repo {
		if !strings.Contains(s.Pkg.Path(), "/internal/archive") {
			continue
		}
		for _, m := range s.Members {
			tn, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), iface) {
				continue
			}
			a := &adapter{typ: types.NewPointer(tn.Type())}
			for _, f := range fieldsWhere(a.typ, func(v *types.Var) bool { return true }) {
				if n, ok := types.Unalias(deref(f.v.Type())).(*types.Named); ok && n.Obj().Pkg() != nil {
					if k := stdKind(n.Obj().Pkg().Path()); k != "" && (n.Obj().Name() == "Reader" || n.Obj().Name() == "Writer") {
						a.kind = k
					}
				}
			}
			if a.kind == "" {
				continue
			}
			for _, m := range s.Members {
				fn, ok := m.(*ssa.Function)
				if ok && fn.Signature.Recv() == nil && fn.Signature.Results().Len() > 0 && types.Identical(fn.Signature.Results().At(0).Type(), a.typ) {
					a.mks = append(a.mks, fn)
				}
			}
			sort.Slice(a.mks, func(i, j int) bool { return a.mks[i].String() < a.mks[j].String() })
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].typ.String() < as[j].typ.String() })
	return as
}

func (r *Run) adapters() {
	ri, wi := r.archIface("Reader"), r.archIface("Writer")
	if ri == nil || wi == nil {
		r.missing("the interfaces of archives")
		return
	}
	n := 0
	for _, a := range r.adaptersOf(ri) {
		for _, mk := range a.mks {
			n++
			r.readerAdapter(a, mk)
		}
	}
	for _, a := range r.adaptersOf(wi) {
		for _, mk := range a.mks {
			n++
			r.writerAdapter(a, mk)
		}
	}
	if n < 6 {
		r.missing("the readers and writers of tar, zip and gzip archives")
	}
	r.formats()
	for _, k := range []string{"adapter names", "adapter errors", "adapter content", "closes layers", "reads from the start"} {
		r.need(k, 2)
	}
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// asRun explores what is made of an adapter.
type asRun struct {
	*copyRun
	kind string
}

// made keeps the object a constructor returned.
func (a *asRun) made(st *State, res []*Term, in ssa.Instruction) {
	if len(res) == 2 {
		isNil := st.facts.eval(eqTerm(res[1], nilTerm))
		a.check((isNil == yes) == (st.A["fail"] == nil) && isNil != unknown, "adapter errors", in.Pos(), st, "making it fails if opening its source does (%v)", res[1])
		if isNil != yes {
			st.A["stop"] = trueTerm
			return
		}
	}
	delete(st.A, "fail")
	st.A["=obj"] = res[0]
}

func (a *asRun) on(t types.Type, m string, args ...*Term) func(st *State) (*ssa.Function, []*Term) {
	return func(st *State) (*ssa.Function, []*Term) {
		o := st.A["=obj"]
		if o == nil {
			return nil, nil
		}
		mt := t
		if o.Op == "mki" {
			mt, o = o.Typ, o.Args[0]
		}
		for _, k := range []string{"fail", "entered", "=n", "=err", "moved", "=hdr", "=fromfi"} {
			delete(st.A, k)
		}
		fn := a.r.method(mt, m)
		if fn == nil {
			return nil, nil
		}
		return fn, append([]*Term{o}, args...)
	}
}

// outcome: the results are those of the operation below.
func (a *asRun) passes(st *State, kind string, res []*Term, in ssa.Instruction, what string) {
	ok := len(res) == 2 && st.A["=n"] != nil && res[0] == st.A["=n"] && (res[1] == st.A["=err"] || st.facts.eval(eqTerm(res[1], st.A["=err"])) == yes)
	a.check(ok, kind, in.Pos(), st, "%s passes on the results of the format (%v)", what, res)
}

// std models the packages of the formats.
func (a *asRun) std(e *Engine, st *State, c *CallEv) ([]Out, bool) {
	pos := c.Pos
	rs := c.Sig.Results()
	short := shortName(c.Name)
	sig := sigOf(c.Sig)
	fresh := func(what string, i int) *Term { return e.fresh(st, c.Frame, c.Instr, what, rs.At(i).Type()) }
	bytes := func() []Out {
		n, er := e.fresh(st, c.Frame, c.Instr, "n", types.Typ[types.Int]), ioErr(e, st, c, "error of "+short)
		return []Out{{Res: tupOf(n, er), Do: func(st *State) {
			st.A["=n"], st.A["=err"] = n, er
			if st.A["moved"] != nil {
				st.A["moved2"] = trueTerm
			}
			st.A["moved"] = trueTerm
		}}}
	}
	data := orNil(st.A["=p"])
	switch {
	case (short == "Read" || short == "Write") && sig == "([]byte)(int,error)" && (c.Fn == nil || !a.r.P.IsRepo(c.Fn)):
		a.check(strip(c.Arg(1)) == data && st.A["moved"] == nil, "adapter content", pos, st, "the bytes are passed on, once (%v)", c.Arg(1))
		if h := st.A["=zw"]; a.kind == "zip" && short == "Write" {
			a.check(h != nil && strip(c.Arg(0)) == h, "adapter content", pos, st, "content goes to the entry opened last (%v)", c.Arg(0))
		}
		if h := st.A["=rc"]; a.kind == "zip" && short == "Read" {
			a.check(h != nil && strip(c.Arg(0)) == h, "adapter content", pos, st, "content comes from the entry opened last (%v)", c.Arg(0))
		}
		return bytes(), true
	case c.Name == "archive/zip.NewReader":
		zr := e.freshAlloc(st, c.Frame, c.Instr, "zip", rs.At(0).Type())
		i, v := fieldNamed(deref(rs.At(0).Type()), "File")
		el := v.Type().Underlying().(*types.Slice).Elem()
		a.files = []*Term{T.mk("param", "file1", el), T.mk("param", "file2", el)}
		return a.either(st, c, []*Term{zr}, func(st *State) {
			assumeNonNil(st, a.files...)
			st.heap[faddr(zr, i, v)] = T.mk("list", "", v.Type(), a.files...)
		}, fail), true
	case c.Name == "compress/gzip.NewReader" || c.Name == "compress/gzip.NewWriterLevel":
		z := e.freshAlloc(st, c.Frame, c.Instr, short, rs.At(0).Type())
		return a.either(st, c, []*Term{z}, nil, fail), true
	case c.Name == "archive/tar.NewReader" || c.Name == "archive/tar.NewWriter" || c.Name == "archive/zip.NewWriter" || c.Name == "compress/gzip.NewWriter":
		z := e.freshAlloc(st, c.Frame, c.Instr, short, rs.At(0).Type())
		return []Out{{Res: z, Assume: []Lit{{eqTerm(z, nilTerm), false}}}}, true
	case c.Name == "(*archive/tar.Reader).Next":
		hdr := fresh("header", 0)
		a.check(st.A["entered"] == nil, "adapter names", pos, st, "one entry is taken at a time")
		outs := a.either(st, c, []*Term{hdr}, func(st *State) { st.A["entered"], st.A["=hdr"] = trueTerm, hdr }, fail)
		end := a.eof(st)
		return append(outs, Out{Res: tupOf(nilTerm, end), Assume: []Lit{{eqTerm(end, nilTerm), false}}, Do: func(st *State) {
			st.note(pos, "the archive is at its end")
			st.A["eof"] = trueTerm
		}}), true
	case c.Name == "(*archive/zip.File).Open":
		a.check(st.A["entered"] == nil, "adapter names", pos, st, "one entry is taken at a time")
		rc := fresh("reader", 0)
		return a.either(st, c, []*Term{rc}, func(st *State) {
			st.A["entered"], st.A["=entry"], st.A["=rc"] = trueTerm, c.Arg(0), rc
		}, func(st *State) { fail(st); delete(st.A, "=rc") }), true
	case c.Name == "archive/tar.FileInfoHeader" || c.Name == "archive/zip.FileInfoHeader":
		hdr := e.freshAlloc(st, c.Frame, c.Instr, "header", rs.At(0).Type())
		a.check(strip(c.Arg(0)) == st.A["=info"], "adapter content", pos, st, "the header is made from the file given (%v)", c.Arg(0))
		return a.either(st, c, []*Term{hdr}, func(st *State) { st.A["=fromfi"] = hdr }, fail), true
	case sig == "(*archive/tar.Header)(error)" || sig == "(*archive/zip.FileHeader)(io.Writer,error)" || c.Name == "(*archive/zip.Writer).Create":
		h := c.Arg(1)
		name := h
		if !strings.HasSuffix(c.Name, ".Create") {
			i, v := fieldNamed(deref(c.Sig.Params().At(0).Type()), "Name")
			name = e.load(st, faddr(h, i, v), v.Type())
			size := h == st.A["=fromfi"]
			if i, v := fieldNamed(deref(c.Sig.Params().At(0).Type()), "Size"); v != nil && !size {
				x := e.load(st, faddr(h, i, v), v.Type())
				size = x.Op == "call" && strings.HasSuffix(x.Aux, ".Size") && x.Args[0] == st.A["=info"]
			}
			a.check(size || a.kind == "zip", "adapter content", pos, st, "the header has the size of the file given (%v)", h)
		}
		a.check(st.A["entered"] == nil, "adapter names", pos, st, "one header is written per entry")
		given := st.A["=given"]
		empty := st.facts.eval(eqTerm(given, strTerm("")))
		a.check(name == given || empty == yes, "adapter names", pos, st, "an entry has the name given (%v)", name)
		if rs.Len() == 1 {
			return a.either(st, c, nil, func(st *State) { st.A["entered"] = trueTerm }, fail), true
		}
		w := fresh("entry", 0)
		return a.either(st, c, []*Term{w}, func(st *State) { st.A["entered"], st.A["=zw"] = trueTerm, w }, fail), true
	case strings.HasSuffix(c.Name, "fs.FileInfo).Name"):
		return []Out{{Res: T.mk("call", c.Name, types.Typ[types.String], c.Arg(0))}}, true
	case short == "Close" && sig == "()(error)" && (c.Fn == nil || !a.r.P.IsRepo(c.Fn)):
		return a.close(st, c), true
	}
	return nil, false
}

// close is the closing of a layer or of an entry just read.
func (a *asRun) close(st *State, c *CallEv) []Out {
	if st.A["closing"] == nil {
		return a.either(st, c, nil, nil, func(st *State) { st.A["minor"] = trueTerm })
	}
	what := ""
	x := strip(c.Arg(0))
	for _, k := range []string{"tar", "zip", "gzip"} {
		if c.Fn != nil && strings.Contains(c.Fn.String(), "/"+k+".Writer).Close") {
			what = k
		}
	}
	if what == "" {
		if x.Op != "param" {
			return a.either(st, c, nil, nil, fail)
		}
		what = x.Aux
	}
	n := orInt(st.A["closed"]).C + 1
	a.check(st.A["closed "+what] == nil, "closes layers", c.Pos, st, "each layer is closed once (%s)", what)
	mark := func(st *State) {
		st.A["closed"] = intTerm(n)
		st.A["closed "+what] = intTerm(n)
	}
	return a.either(st, c, nil, mark, func(st *State) { mark(st); fail(st) })
}

func params(fn *ssa.Function, st *State) []*Term {
	var as []*Term
	for i, p := range fn.Params {
		as = append(as, T.mk("param", fmt.Sprintf("given%d", i), p.Type()))
	}
	return as
}

func (r *Run) newAs(label, kind string) *asRun {
	e := r.engine()
	e.Unroll = 4
	a := &asRun{copyRun: &copyRun{r: r, e: e, label: label}, kind: kind}
	e.H.Call = a.std
	e.H.Panic = func(e *Engine, st *State, v *Term, in ssa.Instruction) {
		a.check(false, "adapter errors", in.Pos(), st, "it panics")
	}
	return a
}

func (r *Run) readerAdapter(ad *adapter, mk *ssa.Function) {
	a := r.newAs(ad.kind+" reader: ", ad.kind)
	e := a.e
	first := emptyState()
	args := params(mk, first)
	for _, x := range args {
		if nilable(x.Typ) {
			assumeNonNil(first, x)
		}
	}
	steps := []seqStep{{
		call: func(st *State) (*ssa.Function, []*Term) { return mk, args },
		ret:  a.made,
	}}
	p := T.mk("param", "p", types.NewSlice(types.Typ[types.Byte]))
	for k := 0; k < 3; k++ {
		k := k
		steps = append(steps, seqStep{call: a.on(ad.typ, "NextFile"), ret: func(st *State, res []*Term, in ssa.Instruction) {
			a.nextFile(st, k, args, res, in)
		}})
		steps = append(steps, seqStep{
			call: func(st *State) (*ssa.Function, []*Term) {
				if st.A["eof"] != nil {
					return nil, nil
				}
				st.A["=p"] = p
				return a.on(ad.typ, "Read", p)(st)
			},
			ret: func(st *State, res []*Term, in ssa.Instruction) { a.passes(st, "adapter content", res, in, "reading") },
		})
	}
	e.Sequence(first, steps...)
	r.done(e, ad.kind+" reader")
}

// nextFile: the k-th call of NextFile of a reader.
func (a *asRun) nextFile(st *State, k int, args, res []*Term, in ssa.Instruction) {
	pos := in.Pos()
	end := a.eof(st)
	isNil := st.facts.eval(eqTerm(res[1], nilTerm))
	isEnd := st.facts.eval(eqTerm(res[1], end))
	if st.A["fail"] != nil {
		a.check(isNil == no && isEnd == no, "adapter errors", pos, st, "a failure to go to the next entry is reported, and not as the end (%v)", res[1])
		st.A["stop"] = trueTerm
		return
	}
	atEnd := false
	var want *Term
	switch a.kind {
	case "tar":
		atEnd = st.A["eof"] != nil
		if h := st.A["=hdr"]; h != nil {
			i, v := fieldNamed(deref(h.Typ), "Name")
			want = a.e.load(st, faddr(h, i, v), v.Type())
		}
	case "zip":
		atEnd = k >= len(a.files)
		if k < len(a.files) && st.A["entered"] != nil && st.A["=entry"] == a.files[k] {
			f := a.files[k]
			i, v := fieldNamed(deref(f.Typ), "FileHeader")
			j, n := fieldNamed(v.Type(), "Name")
			want = a.e.load(st, faddr(faddr(f, i, v), j, n), n.Type())
		}
	case "gzip":
		atEnd = k > 0
		if k == 0 {
			for _, x := range args {
				if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.String {
					want = x
				}
			}
		}
	}
	if atEnd {
		st.A["eof"] = trueTerm
		a.check(isEnd == yes, "adapter names", pos, st, "the end of the archive is reported as io.EOF (%v)", res[1])
		st.A["stop"] = trueTerm
		return
	}
	a.check(isNil == yes, "adapter names", pos, st, "every entry is reached (entry %d: %v)", k+1, res[1])
	a.check(want != nil && res[0] == want, "adapter names", pos, st, "the name returned is that of the entry opened (entry %d: %v)", k+1, res[0])
	delete(st.A, "=hdr")
}

func (r *Run) writerAdapter(ad *adapter, mk *ssa.Function) {
	a := r.newAs(ad.kind+" writer: ", ad.kind)
	e := a.e
	first := emptyState()
	args := params(mk, first)
	var closers []*Term
	for i, x := range args {
		if nilable(x.Typ) {
			assumeNonNil(first, x)
		}
		if sl, ok := x.Typ.Underlying().(*types.Slice); ok {
			closers = []*Term{T.mk("param", "closer1", sl.Elem()), T.mk("param", "closer2", sl.Elem())}
			args[i] = T.mk("list", "", x.Typ, closers...)
			assumeNonNil(first, closers...)
		}
	}
	steps := []seqStep{{
		call: func(st *State) (*ssa.Function, []*Term) { return mk, args },
		ret:  a.made,
	}}
	steps = append(steps, a.writing(ad.typ)...)
	steps = append(steps, seqStep{
		call: func(st *State) (*ssa.Function, []*Term) {
			st.A["closing"] = trueTerm
			return a.on(ad.typ, "Close")(st)
		},
		ret: func(st *State, res []*Term, in ssa.Instruction) {
			want := []string{a.kind}
			for _, c := range closers {
				want = append(want, c.Aux)
			}
			a.closed(st, res, in, want)
		},
	})
	e.Sequence(first, steps...)
	r.done(e, ad.kind+" writer")
}

// writing: two entries are written.
func (a *asRun) writing(t types.Type) []seqStep {
	p := T.mk("param", "p", types.NewSlice(types.Typ[types.Byte]))
	var steps []seqStep
	for k := 0; k < 2; k++ {
		k := k
		name := T.mk("param", fmt.Sprintf("name%d", k), types.Typ[types.String])
		info := T.mk("param", fmt.Sprintf("info%d", k), nil)
		steps = append(steps, seqStep{
			call: func(st *State) (*ssa.Function, []*Term) {
				st.A["=given"], st.A["=info"] = name, info
				assumeNonNil(st, info)
				return a.on(t, "NextFile", name, info)(st)
			},
			ret: func(st *State, res []*Term, in ssa.Instruction) {
				isNil := st.facts.eval(eqTerm(res[0], nilTerm))
				pos := in.Pos()
				if st.A["fail"] != nil {
					a.check(isNil == no, "adapter errors", pos, st, "a failure to begin an entry is reported (%v)", res[0])
					st.A["stop"] = trueTerm
					return
				}
				if a.kind == "gzip" && k > 0 {
					a.check(isNil == no, "adapter errors", pos, st, "a second entry is refused where there can be but one")
					return
				}
				a.check(isNil == yes, "adapter errors", pos, st, "an entry is refused only if something failed (%v)", res[0])
				a.check(st.A["entered"] != nil || a.kind == "gzip", "adapter names", pos, st, "a header is written for each entry")
			},
		}, seqStep{
			call: func(st *State) (*ssa.Function, []*Term) {
				st.A["=p"] = p
				return a.on(t, "Write", p)(st)
			},
			ret: func(st *State, res []*Term, in ssa.Instruction) { a.passes(st, "adapter content", res, in, "writing") },
		})
	}
	return steps
}

// closed: Close of a writer has returned; want lists the layers, outermost first.
func (a *asRun) closed(st *State, res []*Term, in ssa.Instruction, want []string) {
	pos := in.Pos()
	isNil := st.facts.eval(eqTerm(res[0], nilTerm))
	a.check((isNil == yes) == (st.A["fail"] == nil) && isNil != unknown, "adapter errors", pos, st, "a failure to close is reported, and nothing else (%v)", res[0])
	if st.A["fail"] != nil {
		return
	}
	at := int64(0)
	for _, w := range want {
		n := orInt(st.A["closed "+w]).C
		a.check(n > at, "closes layers", pos, st, "every layer is closed, the outermost first (%s)", w)
		at = n
	}
}

// formats checks what makes a writer or reader of archives of a file.
func (r *Run) formats() {
	w, rd := r.archIface("WriteCloser"), r.archIface("ReadCloser")
	nw, nr := 0, 0
	for _, fn := range r.P.srcFuncs() {
		sg := fn.Signature
		if sg.Recv() != nil || sg.Params().Len() == 0 || sg.Params().At(0).Type().String() != "*os.File" {
			continue
		}
		switch rs := sg.Results(); {
		case rs.Len() == 1 && w != nil && types.Identical(rs.At(0).Type().Underlying(), w):
			nw++
			r.formatWriter(fn)
		case rs.Len() == 2 && rd != nil && types.Identical(rs.At(0).Type().Underlying(), rd):
			nr++
			r.formatReader(fn)
		}
	}
	if nw == 0 || nr == 0 {
		r.missing("what makes writers and readers of archives of a file")
	}
}

// kindOf is the format of an adapter or layer.
func kindOf(t *Term) string {
	t = strip(t)
	if t.Typ == nil {
		return ""
	}
	s := t.Typ.String()
	for _, k := range []string{"tar", "zip", "gzip"} {
		if strings.HasSuffix(s, "/"+k+".Writer") || strings.HasSuffix(s, "/"+k+".Reader") {
			return k
		}
	}
	return ""
}

func (r *Run) formatWriter(fn *ssa.Function) {
	a := r.newAs("archive of a file: ", "")
	e := a.e
	first := emptyState()
	args := params(fn, first)
	f := args[0]
	assumeNonNil(first, f)
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		outs, ok := a.std(e, st, c)
		if n := c.Name; ok && (n == "archive/tar.NewWriter" || n == "archive/zip.NewWriter" || n == "compress/gzip.NewWriter" || n == "compress/gzip.NewWriterLevel") {
			k := stdKind(c.Fn.Pkg.Pkg.Path())
			st.A["=under "+k] = strip(c.Arg(0))
		}
		return outs, ok
	}
	steps := []seqStep{{
		call: func(st *State) (*ssa.Function, []*Term) { return fn, args },
		ret: func(st *State, res []*Term, in ssa.Instruction) {
			a.made(st, res, in)
			k := kindOf(res[0])
			a.check(k != "", "closes layers", in.Pos(), st, "what is made writes tar, zip or gzip (%v)", res[0])
			if k == "gzip" {
				one := len(args) > 1
				for _, x := range args[1:] {
					one = one && st.facts.eval(x) == yes
				}
				a.check(one, "closes layers", in.Pos(), st, "a format of one entry is used only for backups archived one by one")
			}
		},
	}, {
		call: func(st *State) (*ssa.Function, []*Term) {
			st.A["closing"] = trueTerm
			return a.on(nil, "Close")(st)
		},
		ret: func(st *State, res []*Term, in ssa.Instruction) {
			o := st.A["=obj"]
			var want []string
			k := kindOf(o)
			for k != "" && len(want) < 4 {
				want = append(want, k)
				u := st.A["=under "+k]
				if u == nil || u == f {
					a.check(u == f, "closes layers", in.Pos(), st, "the archive is written to its file (%v)", u)
					break
				}
				k = kindOf(u)
				a.check(k != "", "closes layers", in.Pos(), st, "each layer writes to the next (%v)", u)
			}
			for _, k := range []string{"tar", "zip", "gzip"} {
				used := st.A["=under "+k] == nil
				for _, w := range want {
					used = used || w == k
				}
				a.check(used, "closes layers", in.Pos(), st, "each layer made is one of the writer's (%s)", k)
			}
			a.closed(st, res, in, want)
		},
	}}
	e.Sequence(first, steps...)
	r.done(e, fn.String())
}

// formatReader: what is returned reads the file from its start.
func (r *Run) formatReader(fn *ssa.Function) {
	a := r.newAs("reader of an archive: ", "")
	e := a.e
	first := emptyState()
	args := params(fn, first)
	f := args[0]
	assumeNonNil(first, f)
	at := func(st *State, k string) bool { return st.A["at "+k] == nil } // at its start
	read := func(st *State, k string) {
		for k != "" {
			st.A["at "+k] = trueTerm
			u := st.A["=under "+k]
			if u == nil || k == "file" {
				return
			}
			if k = kindOf(u); u == f {
				k = "file"
			}
		}
	}
	// over tells whether what a layer is put on is at its start
	over := func(st *State, x *Term) (bool, string) {
		if x = strip(x); x == f {
			return at(st, "file"), "file"
		}
		k := kindOf(x)
		return k != "" && at(st, k), k
	}
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		set := func(k string, x *Term, consumes bool) func(st *State) {
			ok, u := over(st, x)
			return func(st *State) {
				st.A["=under "+k] = strip(x)
				delete(st.A, "at "+k)
				if !ok {
					st.A["at "+k] = trueTerm
				}
				if consumes {
					read(st, u)
				}
			}
		}
		switch {
		case c.Name == "compress/gzip.NewReader":
			z := e.freshAlloc(st, c.Frame, c.Instr, "gzip", c.Sig.Results().At(0).Type())
			return a.either(st, c, []*Term{z}, set("gzip", c.Arg(0), true), fail), true
		case c.Name == "(*compress/gzip.Reader).Reset":
			do := set("gzip", c.Arg(1), true)
			return a.either(st, c, nil, do, func(st *State) { do(st); st.A["minor"] = trueTerm }), true // reading reports it again
		case c.Name == "archive/tar.NewReader":
			z := e.freshAlloc(st, c.Frame, c.Instr, "tar", c.Sig.Results().At(0).Type())
			return []Out{{Res: z, Do: set("tar", c.Arg(0), false)}}, true
		case c.Name == "archive/zip.NewReader":
			z := e.freshAlloc(st, c.Frame, c.Instr, "zip", c.Sig.Results().At(0).Type())
			a.check(strip(c.Arg(0)) == f && st.A["=size"] != nil && c.Arg(1) == st.A["=size"], "reads from the start", c.Pos, st, "a zip archive is read over the whole of its file (%v)", c.Arg(1))
			return a.either(st, c, []*Term{z}, nil, fail), true
		case c.Name == "(*archive/tar.Reader).Next":
			hdr := e.fresh(st, c.Frame, c.Instr, "header", c.Sig.Results().At(0).Type())
			return a.either(st, c, []*Term{hdr}, func(st *State) { read(st, "tar"); st.A["istar"] = trueTerm }, func(st *State) { read(st, "tar"); st.A["nottar"] = trueTerm }), true
		case c.Name == "(*os.File).Seek":
			return a.either(st, c, []*Term{e.fresh(st, c.Frame, c.Instr, "offset", types.Typ[types.Int64])}, func(st *State) {
				st.A["at file"] = trueTerm
				if c.Arg(1) == intTerm(0) && c.Arg(2) == intTerm(0) {
					delete(st.A, "at file")
				}
			}, fail), true
		case c.Name == "(*os.File).Stat":
			fi := e.fresh(st, c.Frame, c.Instr, "info", c.Sig.Results().At(0).Type())
			return a.either(st, c, []*Term{fi}, func(st *State) { st.A["=fi"] = fi }, fail), true
		case strings.HasSuffix(c.Name, "fs.FileInfo).Size"):
			x := T.mk("call", c.Name, types.Typ[types.Int64], c.Arg(0))
			if c.Arg(0) == st.A["=fi"] {
				st.A["=size"] = x
			}
			return []Out{{Res: x}}, true
		}
		return nil, false
	}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		pos := in.Pos()
		isNil := st.facts.eval(eqTerm(res[1], nilTerm))
		if st.A["fail"] != nil {
			a.check(isNil == no, "adapter errors", pos, st, "a failure to read the archive is reported (%v)", res[1])
			return
		}
		if isNil == no {
			a.check(st.A["minor"] != nil, "adapter errors", pos, st, "an archive is refused only if something failed")
			return
		}
		x := strip(res[0])
		// wrappers made of a reader
		for i := 0; i < 4 && kindOf(x) == ""; i++ {
			var inner *Term
			if x.Op == "mk" && len(x.Args) == 1 {
				inner = x.Args[0]
			}
			if inner == nil && x.Typ != nil {
				for _, fd := range fieldsWhere(x.Typ, func(v *types.Var) bool { return v.Embedded() }) {
					inner = e.load(st, fd.addr(x), fd.v.Type())
				}
			}
			if inner == nil {
				break
			}
			x = strip(inner)
		}
		k := kindOf(x)
		a.check(k != "", "reads from the start", pos, st, "what is returned reads tar, zip or gzip (%v)", res[0])
		a.check(k == "" || at(st, k), "reads from the start", pos, st, "the archive is read from its start")
		if st.A["istar"] != nil || st.A["nottar"] != nil {
			a.check((k == "tar") == (st.A["istar"] != nil), "reads from the start", pos, st, "an archive is read as what it is found to be (%s)", k)
		}
	}
	e.Entry(fn, args, func(st *State, _ []*Term) { assumeNonNil(st, f) })
	r.done(e, fn.String())
}
