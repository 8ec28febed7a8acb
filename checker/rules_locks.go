package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C15",
		Technique: "lockset dataflow over SSA (disjunctive, context sensitive, access paths, goroutine confinement)",
		Rule:      "for every field, package variable or captured variable that any operation of the library writes once the object can be reached by others, one lock of the object (or of one it is reached through) is held in write mode at every write and held at every read, unless every access is made by the one goroutine of the object",
		Trusts:    []string{"types of the standard library are as safe for concurrent use as documented", "Output.SetFormatter and the registration of configuration listeners happen before the object is shared"},
		Run:       runC15})
	register(&Rule{ID: "C16",
		Technique: "typestate of every lock along every path over SSA, lock-order graph, wait-for analysis",
		Rule:      "on every path of every entry point and goroutine each lock taken is released before the end, in its mode, by a deferred call wherever foreign code may panic; no lock is taken while held; the order of locks is acyclic; nothing waits for a goroutine while holding a lock that goroutine takes",
		Trusts:    []string{"code supplied by the user does not call back into the library while it is called with a lock held"},
		Run:       runC16})
}

func runC15(r *Run) {
	a := r.lockAnalysis()
	byLoc := map[string][]*laccess{}
	for _, x := range a.acc {
		// what an event remembers once it has been looked up, before the
		// event is handed to anyone (C05)
		if x.write && x.field != nil && r.eventField(x.field) && r.filledOnce(x.fn, x.pos, x.field, 0) {
			r.ok("filled once", x.pos, "%s is written only if it has not been before", x.name)
			continue
		}
		byLoc[x.loc] = append(byLoc[x.loc], x)
	}
	var locs []string
	for l := range byLoc {
		locs = append(locs, l)
	}
	sort.Slice(locs, func(i, j int) bool { return byLoc[locs[i]][0].name < byLoc[locs[j]][0].name })
	for _, l := range locs {
		xs := byLoc[l]
		sort.Slice(xs, func(i, j int) bool {
			if xs[i].pos != xs[j].pos {
				return xs[i].pos < xs[j].pos
			}
			return xs[i].entry < xs[j].entry
		})
		var cand map[string]int
		writes := 0
		conf := xs[0].conf
		for _, x := range xs {
			if x.conf != conf {
				conf = ""
			}
			if x.write {
				writes++
			}
			for c := range x.locks {
				if cand == nil {
					cand = map[string]int{}
				}
				cand[c] += 0
			}
		}
		if writes == 0 {
			continue
		}
		if conf != "" {
			r.ok("confined", xs[0].pos, "%s is touched by %s alone", xs[0].name, conf)
			continue
		}
		// the lock that covers most
		best, score := "", -1
		var cs []string
		for c := range cand {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
			n := 0
			for _, x := range xs {
				if x.locks[c] != 0 && (!x.write || x.locks[c] == 'W') {
					n++
				}
			}
			if n > score {
				best, score = c, n
			}
		}
		for _, x := range xs {
			how := "read"
			if x.write {
				how = "written"
			}
			good := best != "" && x.locks[best] != 0 && (!x.write || x.locks[best] == 'W')
			if good {
				r.ok("locked", x.pos, "%s is %s under %s", x.name, how, best)
				continue
			}
			lk := "any lock"
			if best != "" {
				lk = best
			}
			r.bad("locked", x.pos, nil, "%s is %s without %s, which others hold to change it", x.name, how, lk)
			v := r.viol[len(r.viol)-1]
			if v.Path == nil {
				v.Path = x.path
			}
		}
	}
	r.need("locked", 8)
}

func runC16(r *Run) {
	a := r.lockAnalysis()
	for _, k := range sorted(a.okAt) {
		w := strings.SplitN(k, "\x00", 2)
		r.ok(w[0], a.okAt[k], "%s", w[1])
	}
	var ks []string
	for k := range a.viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := a.viol[k]
		if !r.seenV[k] {
			r.seenV[k] = true
			r.viol = append(r.viol, v)
		}
	}
	// order
	changing := map[string]bool{}
	for _, x := range a.acc {
		if x.write {
			changing[x.loc] = true
		}
	}
	next := map[string]map[string]bool{}
	var es []string
	for k := range a.edges {
		es = append(es, k)
	}
	sort.Strings(es)
	for _, k := range es {
		e := a.edges[k]
		if e.from == e.to {
			up := e.up
			for _, f := range e.via {
				if f == nil {
					up = false
				} else if changing[fieldKey(f)] {
					up = false
				}
			}
			if up {
				r.ok("order", e.pos, "%s of an ancestor is taken while that of a descendant is held", e.to)
			} else {
				r.bad("order", e.pos, nil, "%s of one object is taken while that of another is held, in no fixed order", e.to)
				r.viol[len(r.viol)-1].Path = e.path
			}
			continue
		}
		if next[e.from] == nil {
			next[e.from] = map[string]bool{}
		}
		next[e.from][e.to] = true
	}
	for _, k := range es {
		e := a.edges[k]
		if e.from == e.to {
			continue
		}
		// can the later lock lead back to the earlier one?
		seen := map[string]bool{}
		var reach func(x string) bool
		reach = func(x string) bool {
			if x == e.from {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range next[x] {
				if reach(y) {
					return true
				}
			}
			return false
		}
		if reach(e.to) {
			r.bad("order", e.pos, nil, "%s is taken while %s is held, and elsewhere %s while %s is held", e.to, e.from, e.from, e.to)
			r.viol[len(r.viol)-1].Path = e.path
		} else {
			r.ok("order", e.pos, "%s comes after %s", e.to, e.from)
		}
	}
	// waiting
	var ws []string
	for k := range a.waits {
		ws = append(ws, k)
	}
	sort.Strings(ws)
	for _, k := range ws {
		w := a.waits[k]
		for _, g := range a.entries {
			if !strings.HasPrefix(g.name, "go ") {
				continue
			}
			helps := false
			switch w.kind {
			case "wait":
				helps = g.sig["done "+w.on]
			case "send":
				helps = g.sig["recv "+w.on]
			case "recv":
				helps = g.sig["send "+w.on]
			}
			if !helps {
				continue
			}
			bad := ""
			for _, l := range w.locks {
				if g.acq[l] {
					bad = l
				}
			}
			if bad != "" {
				r.bad("waiting", w.pos, nil, "waits for a goroutine (%s) while holding %s, which that goroutine takes", g.name, bad)
				r.viol[len(r.viol)-1].Path = w.path
			} else {
				r.ok("waiting", w.pos, "the goroutine waited for (%s) takes none of the locks held", g.name)
			}
		}
	}
	r.need("taken", 6)
	r.need("released", 6)
}

func (r *Run) eventField(f *types.Var) bool {
	s := structOf(r.apiType("Event"))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i) == f {
			return true
		}
	}
	return false
}

// filledOnce: the instruction runs only where a value found by way of the
// field is nil.
func (r *Run) filledOnce(fn *ssa.Function, pos token.Pos, f *types.Var, d int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if in.Pos() == pos {
				switch in.(type) {
				case *ssa.Store, *ssa.Call:
					if r.underNil(b, f) {
						return true
					}
				}
			}
		}
	}
	if d > 2 || fn.Parent() != nil {
		return false
	}
	n := 0
	all := true
	r.P.instrs(func(g *ssa.Function, in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if ok && c.Common().StaticCallee() == fn {
			n++
			if !r.underNil(in.Block(), f) && !r.filledOnce(g, in.Pos(), f, d+1) {
				all = false
			}
		}
	})
	return n > 0 && all
}

func (r *Run) underNil(b *ssa.BasicBlock, f *types.Var) bool {
	for c := b; c != nil && c.Idom() != nil; c = c.Idom() {
		d := c.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		v := cmp.X
		if k, ok := v.(*ssa.Const); ok && k.Value == nil {
			v = cmp.Y
		} else if k, ok := cmp.Y.(*ssa.Const); !ok || k.Value != nil {
			continue
		}
		i := 0
		if cmp.Op == token.NEQ {
			i = 1
		}
		if s := d.Succs[i]; s != c || len(s.Preds) != 1 {
			continue
		}
		seen := map[ssa.Value]bool{}
		var from func(v ssa.Value) bool
		from = func(v ssa.Value) bool {
			if seen[v] {
				return false
			}
			seen[v] = true
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field) == f {
					return true
				}
			}
			in, ok := v.(ssa.Instruction)
			if !ok {
				return false
			}
			for _, o := range in.Operands(nil) {
				if *o != nil && from(*o) {
					return true
				}
			}
			return false
		}
		if from(v) {
			return true
		}
	}
	return false
}
