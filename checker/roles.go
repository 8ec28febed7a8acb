package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Roles resolve the parts of the program the properties speak of from the
// public interfaces and from types, not from the way the code is arranged.

func (r *Run) apiObj(name string) types.Object {
	s := r.P.Pkg("api")
	if s == nil {
		r.missing("package api")
		return nil
	}
	o := s.Pkg.Scope().Lookup(name)
	if o == nil {
		r.missing("api." + name)
	}
	return o
}

func (r *Run) apiType(name string) types.Type {
	if o := r.apiObj(name); o != nil {
		return o.Type()
	}
	return nil
}

func (r *Run) iface(name string) *types.Interface {
	t := r.apiType(name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// impls lists the repository types used as the named api interface.
func (r *Run) impls(name string) []types.Type {
	t := r.apiType(name)
	if t == nil {
		return nil
	}
	is := r.B.Impls(t)
	if len(is) == 0 {
		r.missing("a type that implements api." + name)
	}
	return is
}

func (r *Run) level(name string) int64 {
	c, ok := r.apiObj(name).(*types.Const)
	if !ok {
		return -1000
	}
	v, _ := constant.Int64Val(c.Val())
	return v
}

// method is the implementation of a method (possibly a promotion wrapper).
func (r *Run) method(t types.Type, name string) *ssa.Function {
	ms := r.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return r.P.SSA.MethodValue(s)
		}
	}
	return nil
}

// innerMethod skips promotion wrappers.
func innerMethod(fn *ssa.Function) *ssa.Function {
	return fn
}

func structOf(t types.Type) *types.Struct {
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

// fieldAt is a field of a struct with its index.
type fieldAt struct {
	idx int
	v   *types.Var
}

func fieldsWhere(t types.Type, pred func(v *types.Var) bool) []fieldAt {
	s := structOf(t)
	if s == nil {
		return nil
	}
	var r []fieldAt
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			r = append(r, fieldAt{i, s.Field(i)})
		}
	}
	return r
}

func (r *Run) oneField(t types.Type, what string, pred func(v *types.Var) bool) fieldAt {
	fs := fieldsWhere(t, pred)
	if len(fs) != 1 {
		r.missing("the one field of " + t.String() + " that holds " + what)
		return fieldAt{-1, nil}
	}
	return fs[0]
}

func isNamed(t types.Type, path string) bool {
	return types.TypeString(t, nil) == path
}

func isContext(t types.Type) bool { return isNamed(t, "context.Context") }

func (f fieldAt) addr(base *Term) *Term { return faddr(base, f.idx, f.v) }

// nn makes a parameter term that is a non-nil object.
func obj(name string, t types.Type) *Term { return paramTerm(name, t) }

func assumeNonNil(st *State, ts ...*Term) {
	for _, t := range ts {
		st.facts.assume(eqTerm(t, nilTerm), false)
	}
}

// deepHas: t contains a subterm satisfying pred.
func (t *Term) find(pred func(*Term) bool) *Term {
	if pred(t) {
		return t
	}
	for _, a := range t.Args {
		if x := a.find(pred); x != nil {
			return x
		}
	}
	return nil
}

// strip removes interface wrapping and byte/string conversions.
func strip(t *Term) *Term {
	for t.Op == "mki" || t.Op == "conv" && (t.Aux == "bytes") {
		t = t.Args[0]
	}
	return t
}

// srcFuncs are the functions with source text.
func (p *Prog) srcFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if f.Synthetic == "" {
			r = append(r, f)
		}
	}
	return r
}

// instrs iterates over all instructions of the repository's source functions.
func (p *Prog) instrs(do func(f *ssa.Function, in ssa.Instruction)) {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				do(f, in)
			}
		}
	}
}

// calleeName names a statically resolved callee.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return v.RelString(nil)
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function).RelString(nil)
	}
	return "dynamic"
}

// named finds a repository function by its package suffix and name.
func (r *Run) fn(pkg, name string) *ssa.Function {
	s := r.P.Pkg(pkg)
	if s == nil {
		r.missing("package " + pkg)
		return nil
	}
	f := s.Func(name)
	if f == nil {
		r.missing("function " + pkg + "." + name)
	}
	return f
}

func (r *Run) typ(pkg, name string) types.Type {
	s := r.P.Pkg(pkg)
	if s == nil {
		r.missing("package " + pkg)
		return nil
	}
	t := s.Type(name)
	if t == nil {
		r.missing("type " + pkg + "." + name)
		return nil
	}
	return t.Type()
}

// allocators lists the functions that build objects of a struct type.
func (p *Prog) allocators(t types.Type) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	p.instrs(func(f *ssa.Function, in ssa.Instruction) {
		if a, ok := in.(*ssa.Alloc); ok && types.Identical(deref(a.Type()), deref(t)) && !seen[f] {
			seen[f] = true
			r = append(r, f)
		}
	})
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// loggerRole is the logger implementation and what its fields are for.
type loggerRole struct {
	typ     types.Type // pointer to the struct
	level   fieldAt
	outputs fieldAt
	parent  fieldAt
	name    fieldAt
	writers []writerRole
	levelFn *ssa.Function
}

type writerRole struct {
	typ    types.Type
	logger fieldAt
	ctx    fieldAt
}

// logger resolves the logger implementation (memoised per run).
func (r *Run) logger() *loggerRole {
	lvlT, outT := r.apiType("Level"), r.apiType("Output")
	if lvlT == nil || outT == nil {
		return nil
	}
	var l *loggerRole
	for _, t := range r.impls("Logger") {
		if structOf(t) == nil {
			continue
		}
		l = &loggerRole{typ: t}
		l.level = r.oneField(t, "the level", func(v *types.Var) bool { return types.Identical(v.Type(), lvlT) })
		l.outputs = r.oneField(t, "the outputs", func(v *types.Var) bool {
			s, ok := v.Type().Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), outT)
		})
		l.parent = r.oneField(t, "the parent", func(v *types.Var) bool { return types.Identical(v.Type(), t) })
		l.name = r.oneField(t, "the name", func(v *types.Var) bool {
			b, ok := v.Type().(*types.Basic)
			return ok && b.Kind() == types.String
		})
		l.levelFn = r.method(t, "Level")
	}
	if l == nil {
		r.missing("the logger implementation")
		return nil
	}
	for _, t := range r.impls("Writer") {
		if types.Identical(t, l.typ) || structOf(t) == nil {
			continue
		}
		w := writerRole{typ: t}
		w.logger = r.oneField(t, "the logger", func(v *types.Var) bool { return types.Identical(v.Type(), l.typ) })
		w.ctx = r.oneField(t, "the context", func(v *types.Var) bool { return isContext(v.Type()) })
		l.writers = append(l.writers, w)
	}
	if len(l.writers) == 0 {
		r.missing("the writer implementation")
	}
	if len(r.viol) > 0 {
		return nil
	}
	return l
}

// logMethods are the methods of api.Writer with the level each one logs at
// (-1: its first parameter).
type logMethod struct {
	name  string
	level int64
	fmt   bool
}

func (r *Run) logMethods() []logMethod {
	w := r.iface("Writer")
	if w == nil {
		return nil
	}
	var ms []logMethod
	for i := 0; i < w.NumMethods(); i++ {
		m := w.Method(i)
		n := m.Name()
		if n == "Printf" {
			ms = append(ms, logMethod{n, -1, true})
			continue
		}
		base := strings.TrimSuffix(n, "f")
		o := r.P.Pkg("api").Pkg.Scope().Lookup(base)
		if o == nil {
			r.missing("the level of the logging method " + n)
			continue
		}
		ms = append(ms, logMethod{n, r.level(base), base != n})
	}
	if len(ms) < 13 {
		r.missing("all 13 logging methods")
	}
	return ms
}

var _ = token.NoPos
