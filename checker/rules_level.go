package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C06",
		Technique: "constant propagation through the level tables and path-sensitive string facts over SSA",
		Rule: "the level constants ascend in the documented order; String and ShortStr of each are constant, non-empty and pairwise distinct, the long one spelling the level's name; " +
			"LevelFrom returns a level only where its text equals that level's long name in one letter case, and Uninitialized only where it equals none",
		Trusts: []string{"strings.ToUpper and ToLower map every letter-case variant of an ASCII name to one text"},
		Run:    runC06})
}

var levelNames = []string{"All", "Trace", "Debug", "Info", "Warn", "Error", "Critical", "Off"}

func runC06(r *Run) {
	lt := r.apiType("Level")
	if lt == nil {
		return
	}
	for i, n := range levelNames {
		if i > 0 {
			r.check(r.level(levelNames[i-1]) < r.level(n), "order", r.apiObj(n).Pos(), nil, "%s is above %s", n, levelNames[i-1])
		}
		r.check(r.level(n) != r.level("Uninitialized"), "order", r.apiObj(n).Pos(), nil, "%s is not Uninitialized", n)
	}
	text := func(m string) map[string]string {
		fn := r.method(lt, m)
		if fn == nil {
			r.missing("Level." + m)
			return nil
		}
		names := map[string]string{}
		for _, n := range levelNames {
			e := r.engine()
			e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
				x := res[0]
				if !r.check(x.isStr() && x.Aux != "", m+" constant", in.Pos(), st, "%s of %s is a constant text (%v)", m, n, x) {
					return
				}
				old, has := names[n]
				r.check(!has || old == x.Aux, m+" constant", in.Pos(), st, "%s of %s is always the same", m, n)
				names[n] = x.Aux
			}
			e.Entry(fn, []*Term{intTerm(r.level(n))}, nil)
			r.done(e, m+" of "+n)
		}
		for i, a := range levelNames {
			for _, b := range levelNames[i+1:] {
				r.check(!strings.EqualFold(names[a], names[b]), m+" distinct", fn.Pos(), nil, "%s of %s (%q) and of %s (%q) differ", m, a, names[a], b, names[b])
			}
		}
		return names
	}
	long := text("String")
	text("ShortStr")
	for _, n := range levelNames {
		r.check(strings.EqualFold(long[n], n), "long name", r.apiObj(n).Pos(), nil, "the long name of %s is %q", n, long[n])
	}
	fn := r.fn("api", "LevelFrom")
	if fn == nil {
		return
	}
	e := r.engine()
	e.H.Split = func(g *ssa.Global) bool { return true }
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		s := paramTerm(fn.Params[0].Name(), fn.Params[0].Type())
		is := func(n string) tri {
			out := unknown
			for _, f := range []string{"strings.ToUpper", "strings.ToLower"} {
				x := st.facts.eval(eqTerm(pureCall(f, []*Term{s}), pureCall(f, []*Term{strTerm(long[n])})))
				if x != unknown {
					out = x
				}
			}
			return out
		}
		x := res[0]
		if !r.check(x.isInt(), "parsed level", in.Pos(), st, "LevelFrom returns one of the levels (%v)", x) {
			return
		}
		if x.C == r.level("Uninitialized") {
			for _, n := range levelNames {
				r.check(is(n) == no, "parsed "+n, in.Pos(), st, "LevelFrom returns Uninitialized only for texts other than %q", long[n])
			}
			return
		}
		for _, n := range levelNames {
			if r.level(n) == x.C {
				r.check(is(n) == yes, "parsed "+n, in.Pos(), st, "LevelFrom returns %s only for %q", n, long[n])
				return
			}
		}
		r.bad("parsed level", in.Pos(), st, "LevelFrom returns %v, which is no level", x)
	}
	e.Entry(fn, nil, nil)
	r.done(e, "LevelFrom")
	for _, n := range levelNames {
		r.need("parsed "+n, 1)
	}
}
