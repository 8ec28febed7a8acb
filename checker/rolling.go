package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// roller is one of the rolling writers: what an engine needs to interpret its
// methods.
type roller struct {
	r     *Run
	kind  string // size, time
	typ   types.Type
	base  types.Type // the struct holding the state common to both
	embed fieldAt
	write *ssa.Function
	close *ssa.Function
	self  []fieldAt // of base: interface fields the writer itself fills

	file, size, dir, name, cur, apath, mode, arch, maxRolls, exploded fieldAt
	limit                                                             fieldAt // size: the limit; of typ
	pattern, period                                                   fieldAt // time: the pattern and the current period
	w, rw                                                             *Term
}

func named(n string) func(v *types.Var) bool {
	return func(v *types.Var) bool { return v.Name() == n }
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// rollers finds the rolling writers.
func (r *Run) rollers() []*roller {
	base := r.typ("internal", "rollingFileWriter")
	if base == nil {
		return nil
	}
	var rs []*roller
	for _, kind := range []string{"size", "time"} {
		n := map[string]string{"size": "rollingFileWriterSize", "time": "rollingFileWriterTime"}[kind]
		t := r.typ("internal", n)
		if t == nil {
			return nil
		}
		w := &roller{r: r, kind: kind, typ: t, base: base}
		w.embed = r.oneField(t, "the common state", func(v *types.Var) bool { return types.Identical(deref(v.Type()), base) })
		pt := types.NewPointer(t)
		w.write, w.close = r.method(pt, "Write"), r.method(pt, "Close")
		if w.embed.idx < 0 || w.write == nil || w.close == nil {
			r.missing("Write and Close of " + n)
			return nil
		}
		w.self = fieldsWhere(base, func(v *types.Var) bool {
			i, ok := v.Type().Underlying().(*types.Interface)
			return ok && types.Implements(pt, i)
		})
		w.file = r.oneField(base, "the current file", func(v *types.Var) bool { return isNamed(v.Type(), "*os.File") })
		w.size = r.oneField(base, "the current size", func(v *types.Var) bool { return isNamed(v.Type(), "int64") })
		w.mode = r.oneField(base, "the name mode", named("nameMode"))
		w.arch = r.oneField(base, "the archive type", named("archiveType"))
		w.maxRolls = r.oneField(base, "the number of backups", named("maxRolls"))
		w.exploded = r.oneField(base, "the archive mode", named("archiveExploded"))
		w.w = paramTerm(kind+"Writer", pt)
		w.rw = paramTerm("w.state", types.NewPointer(base))
		if kind == "size" {
			w.limit = r.oneField(t, "the limit", func(v *types.Var) bool { return isNamed(v.Type(), "int64") })
			if w.limit.idx < 0 {
				return nil
			}
		} else {
			ss := fieldsWhere(t, func(v *types.Var) bool { return isNamed(v.Type(), "string") })
			if len(ss) != 2 {
				r.missing("the pattern and the period of " + n)
				return nil
			}
			w.pattern, w.period = ss[0], ss[1]
		}
		for _, f := range []fieldAt{w.file, w.size, w.mode, w.arch, w.maxRolls, w.exploded} {
			if f.idx < 0 {
				return nil
			}
		}
		if !w.names() {
			return nil
		}
		rs = append(rs, w)
	}
	return rs
}

// names finds which fields hold the directory and the name of the log, by
// what the constructor puts there.
func (w *roller) names() bool {
	r := w.r
	fn := r.fn("internal", "newRollingFileWriter")
	if fn == nil {
		return false
	}
	strs := fieldsWhere(w.base, func(v *types.Var) bool { return isNamed(v.Type(), "string") })
	isDir, isName, isArch, other := map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	e := newEngine(r.P, nil)
	e.Havoc = false
	fp := paramTerm(fn.Params[0].Name(), fn.Params[0].Type())
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		for _, f := range strs {
			v := e.load(st, f.addr(res[0]), f.v.Type())
			ofPath := v.find(func(t *Term) bool { return t == fp }) != nil
			if len(fn.Params) > 1 && v.find(func(t *Term) bool { return t == paramTerm(fn.Params[1].Name(), fn.Params[1].Type()) }) != nil {
				isArch[f.idx] = true
			}
			switch {
			case v.isStr() && v.Aux == "":
				other[f.idx] = true
			case v.isStr() && v.Aux == ".":
				isDir[f.idx] = true
			case ofPath && v.Op == "call" && v.Aux == "path/filepath.Dir":
				isDir[f.idx] = true
			case ofPath && v.Op == "call" && v.Aux == "path/filepath.Base":
				isName[f.idx] = true
			case ofPath && v.Op == "ext" && v.C == 0:
				isDir[f.idx] = true
			case ofPath && v.Op == "ext" && v.C == 1:
				isName[f.idx] = true
			}
		}
	}
	e.Entry(fn, nil, nil)
	w.dir, w.name, w.cur, w.apath = fieldAt{-1, nil}, fieldAt{-1, nil}, fieldAt{-1, nil}, fieldAt{-1, nil}
	for _, f := range strs {
		switch {
		case isArch[f.idx]:
			w.apath = f
		case isDir[f.idx]:
			w.dir = f
		case isName[f.idx]:
			w.name = f
		case other[f.idx]:
			w.cur = f
		}
	}
	if w.dir.idx < 0 || w.name.idx < 0 || w.apath.idx < 0 {
		r.missing("the fields with the directory and the name of the log")
		return false
	}
	return true
}

// rollOp is an operation on the file system.
type rollOp struct {
	name string
	c    *CallEv
	args []*Term
}

// rollRun interprets a method of a rolling writer over a model of the file
// system in which every operation may fail.
type rollRun struct {
	w      *roller
	e      *Engine
	op     func(st *State, o *rollOp)                         // an operation is attempted
	did    func(st *State, o *rollOp, res *Term, failed bool) // one outcome of it
	call   func(st *State, c *CallEv) ([]Out, bool)
	opaque func(f *ssa.Function) bool
	deep   bool // listing and archiving are interpreted
	inside bool // archiving is interpreted
	opened bool // only from states with an open file
}

func (w *roller) run() *rollRun {
	rr := &rollRun{w: w}
	e := w.r.engine()
	e.Havoc = false
	rr.e = e
	e.H.NoInline = func(f *ssa.Function) bool {
		return !rr.deep && (!rr.inside && w.r.archives(f) || w.r.lists(f)) || rr.inside && w.r.archiveFn(f) || rr.opaque != nil && rr.opaque(f)
	}
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if rr.inside {
			if o, ok := rr.archivePkg(st, c); ok {
				return o, true
			}
		}
		if w.r.archives(c.Fn) && !rr.deep && !rr.inside {
			return rr.archive(st, c)
		}
		if w.r.lists(c.Fn) && !rr.deep {
			return rr.list(st, c)
		}
		if rr.call != nil {
			if o, ok := rr.call(st, c); ok {
				return o, true
			}
		}
		return rr.fs(st, c)
	}
	return rr
}

// archive models a function that makes an archive: it may fail, and leaves the
// writer as it is.
func (rr *rollRun) archive(st *State, c *CallEv) ([]Out, bool) {
	o := &rollOp{name: "archive", c: c, args: c.Args}
	if rr.op != nil {
		rr.op(st, o)
	}
	if n := c.Sig.Results().Len(); n != 1 || !types.Identical(c.Sig.Results().At(0).Type(), types.Universe.Lookup("error").Type()) {
		return nil, false
	}
	er := ioErr(rr.e, st, c, "error of archiving")
	outcome := func(res *Term, failed bool, lits ...Lit) Out {
		return Out{Res: res, Assume: lits, Do: func(st *State) {
			if rr.did != nil {
				rr.did(st, o, res, failed)
			}
		}}
	}
	return []Out{outcome(nilTerm, false), outcome(er, true, Lit{eqTerm(er, nilTerm), false})}, true
}

// list models a function that lists the backups.
func (rr *rollRun) list(st *State, c *CallEv) ([]Out, bool) {
	o := &rollOp{name: "list", c: c, args: c.Args}
	if rr.op != nil {
		rr.op(st, o)
	}
	h := rr.e.fresh(st, c.Frame, c.Instr, "backups", c.Sig.Results().At(0).Type())
	er := ioErr(rr.e, st, c, "error of listing")
	outcome := func(res *Term, failed bool, lits ...Lit) Out {
		return Out{Res: res, Assume: lits, Do: func(st *State) {
			if rr.did != nil {
				rr.did(st, o, res, failed)
			}
		}}
	}
	return []Out{outcome(T.mk("tuple", "", nil, h, nilTerm), false), outcome(T.mk("tuple", "", nil, nilTerm, er), true, Lit{eqTerm(er, nilTerm), false})}, true
}

func ioErr(e *Engine, st *State, c *CallEv, what string) *Term {
	return e.fresh(st, c.Frame, c.Instr, what, types.Universe.Lookup("error").Type())
}

// fs models the operations of package os.
func (rr *rollRun) fs(st *State, c *CallEv) ([]Out, bool) {
	e := rr.e
	n := c.Name
	o := &rollOp{name: n, c: c, args: c.Args}
	tell := func() {
		if rr.op != nil {
			rr.op(st, o)
		}
	}
	outcome := func(res *Term, failed bool, lits ...Lit) Out {
		return Out{Res: res, Assume: lits, Do: func(st *State) {
			st.note(c.Pos, n)
			if rr.did != nil {
				rr.did(st, o, res, failed)
			}
		}}
	}
	tup := func(ts ...*Term) *Term { return T.mk("tuple", "", nil, ts...) }
	short := n[strings.LastIndexByte(n, '.')+1:]
	fails := func(vals ...*Term) []Out { // err alone, or values with an error
		er := ioErr(e, st, c, "error of "+short)
		if len(vals) == 0 {
			return []Out{outcome(nilTerm, false), outcome(er, true, Lit{eqTerm(er, nilTerm), false})}
		}
		bad := make([]*Term, len(vals)+1)
		for i, v := range vals {
			bad[i] = zeroOf(c.Sig.Results().At(i).Type())
			_ = v
		}
		bad[len(vals)] = er
		return []Out{outcome(tup(append(append([]*Term{}, vals...), nilTerm)...), false), outcome(tup(bad...), true, Lit{eqTerm(er, nilTerm), false})}
	}
	switch n {
	case "os.MkdirAll", "os.Mkdir", "os.Rename", "os.Remove", "os.RemoveAll", "os.Chmod", "os.Truncate", "os.Chtimes", "os.Symlink", "os.Link", "os.WriteFile", "io/ioutil.WriteFile",
		"(*os.File).Close", "(*os.File).Sync", "(*os.File).Truncate", "(*os.File).Chmod":
		tell()
		return fails(), true
	case "os.OpenFile", "os.Open", "os.Create", "os.CreateTemp", "io/ioutil.TempFile":
		tell()
		h := e.freshAlloc(st, c.Frame, c.Instr, "file", c.Sig.Results().At(0).Type())
		return fails(h), true
	case "os.Lstat", "os.Stat", "(*os.File).Stat":
		tell()
		return fails(e.fresh(st, c.Frame, c.Instr, "info", c.Sig.Results().At(0).Type())), true
	case "(*os.File).Write", "(*os.File).WriteString":
		tell()
		k := e.fresh(st, c.Frame, c.Instr, "written", types.Typ[types.Int])
		er := ioErr(e, st, c, "error of Write")
		nn := Lit{lt0(k), false}
		return []Out{outcome(tup(k, nilTerm), false, nn), outcome(tup(k, er), true, nn, Lit{eqTerm(er, nilTerm), false})}, true
	case "(*os.File).Readdir", "(*os.File).ReadDir", "(*os.File).Readdirnames", "os.ReadDir", "io/ioutil.ReadDir":
		tell()
		return fails(e.fresh(st, c.Frame, c.Instr, "entries", c.Sig.Results().At(0).Type())), true
	case "(*os.File).Seek":
		tell()
		return fails(e.fresh(st, c.Frame, c.Instr, "offset", types.Typ[types.Int64])), true
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		tell()
		return fails(e.fresh(st, c.Frame, c.Instr, "copied", c.Sig.Results().At(0).Type())), true
	case "time.Now":
		return []Out{{Res: e.fresh(st, c.Frame, c.Instr, "now", c.Sig.Results().At(0).Type())}}, true
	}
	return nil, false
}

func zeroOf(t types.Type) *Term {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsString != 0:
			return strTerm("")
		case b.Info()&types.IsInteger != 0:
			return intTerm(0)
		case b.Info()&types.IsBoolean != 0:
			return falseTerm
		}
	}
	return nilTerm
}

// start explores a method from every state the writer may be in: without a
// file, or with an open one.
func (rr *rollRun) start(fn *ssa.Function, init func(st *State, args []*Term, open bool)) {
	w := rr.w
	for k := 0; k < 4; k++ {
		open, mode := k&1 != 0, int64(k>>1) // the name modes are 0 and 1
		if rr.opened && !open {
			continue
		}
		args := []*Term{w.w}
		for _, p := range fn.Params[1:] {
			args = append(args, paramTerm(p.Name(), p.Type()))
		}
		rr.e.Entry(fn, args, func(st *State, args []*Term) {
			assumeNonNil(st, w.w, w.rw)
			st.heap[w.embed.addr(w.w)] = w.rw
			for _, f := range w.self {
				st.heap[f.addr(w.rw)] = T.mk("mki", "", types.NewPointer(w.typ), w.w)
			}
			f, sz := rr.get(st, w.file), rr.get(st, w.size)
			if open {
				assumeNonNil(st, f)
				st.facts.assume(lt0(sz), false)
				st.TS[f] = "open"
			} else {
				st.heap[w.file.addr(w.rw)] = nilTerm
				st.heap[w.size.addr(w.rw)] = intTerm(0)
			}
			st.heap[w.mode.addr(w.rw)] = intTerm(mode)
			a := rr.get(st, w.arch)
			st.facts.assume(lt0(a), false)
			st.facts.assume(lt0(sub(intTerm(2), a)), false)
			if init != nil {
				init(st, args, open)
			}
		})
	}
}

func (rr *rollRun) get(st *State, f fieldAt) *Term {
	return rr.e.load(st, f.addr(rr.w.rw), f.v.Type())
}

// archives: the function makes an archive, all it removes being what it made.
func (r *Run) archives(fn *ssa.Function) bool {
	if v, ok := r.arch[fn]; ok {
		return v
	}
	if r.arch == nil {
		r.arch = map[*ssa.Function]bool{}
	}
	r.arch[fn] = false
	aw := r.archIface("WriteCloser")
	if fn == nil || fn.Blocks == nil || aw == nil || !r.P.IsRepo(fn) || len(r.archIfaces()) > 0 && fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/archive") {
		return false
	}
	makes := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if c.Common().StaticCallee() == nil && !c.Common().IsInvoke() {
				if rs := c.Common().Signature().Results(); rs.Len() == 1 {
					if i, ok := rs.At(0).Type().Underlying().(*types.Interface); ok && types.Identical(i, aw) {
						makes = true
					}
				}
			}
		}
	}
	r.arch[fn] = makes && r.removesOwn(fn, map[*ssa.Function]bool{})
	return r.arch[fn]
}

// removesOwn: every removal in the function is of a file it has open.
func (r *Run) removesOwn(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[fn] {
		return true
	}
	busy[fn] = true
	for _, g := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				if n == "os.Remove" || n == "os.RemoveAll" {
					x, ok := c.Common().Args[0].(*ssa.Call)
					if !ok || calleeName(x.Common()) != "(*os.File).Name" {
						return false
					}
				}
				if f := c.Common().StaticCallee(); f != nil && r.P.IsRepo(f) && f.Blocks != nil && !r.removesOwn(f, busy) {
					return false
				}
			}
		}
	}
	return true
}

func (r *Run) archIfaces() []*ssa.Package {
	var ps []*ssa.Package
	for s := range r.P.Repo {
		if strings.HasSuffix(s.Pkg.Path(), "internal/archive") {
			ps = append(ps, s)
		}
	}
	return ps
}

func (r *Run) archIface(n string) *types.Interface {
	for _, s := range r.archIfaces() {
		if t := s.Type(n); t != nil {
			i, _ := t.Type().Underlying().(*types.Interface)
			return i
		}
	}
	return nil
}

// lists: the function lists files of a directory.
func (r *Run) lists(fn *ssa.Function) bool {
	if v, ok := r.listers[fn]; ok {
		return v
	}
	if r.listers == nil {
		r.listers = map[*ssa.Function]bool{}
	}
	r.listers[fn] = false
	if fn == nil || fn.Blocks == nil || !r.P.IsRepo(fn) || fn.Signature.Results().Len() != 2 {
		return false
	}
	sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok || !isString(sl.Elem()) || !types.Identical(fn.Signature.Results().At(1).Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	r.listers[fn] = r.reads(fn, map[*ssa.Function]bool{})
	return r.listers[fn]
}

func (r *Run) reads(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[fn] || fn.Blocks == nil || !r.P.IsRepo(fn) {
		return false
	}
	busy[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			switch calleeName(c.Common()) {
			case "(*os.File).Readdir", "(*os.File).ReadDir", "(*os.File).Readdirnames", "os.ReadDir", "io/ioutil.ReadDir", "path/filepath.Glob", "path/filepath.Walk", "path/filepath.WalkDir":
				return true
			}
			if f := c.Common().StaticCallee(); f != nil && r.reads(f, busy) {
				return true
			}
		}
	}
	return false
}
