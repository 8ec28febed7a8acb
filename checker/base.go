package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Base is what holds whenever any entry point is called: the package-level
// variables that never change after initialisation, and which fields are only
// written while their object is being built.
type Base struct {
	p         *Prog
	heap      map[*Term]*Term
	constG    map[*ssa.Global]bool
	tables    map[*Term]*ssa.Global // map objects that are never modified
	immutable map[*types.Var]bool
	stores    map[*types.Var][]*ssa.Store // all stores to a field
	freshMemo map[*ssa.Function]int
	ifaceImpl map[string][]types.Type
}

func buildBase(p *Prog) *Base {
	b := &Base{p: p, heap: map[*Term]*Term{}, constG: map[*ssa.Global]bool{}, tables: map[*Term]*ssa.Global{},
		immutable: map[*types.Var]bool{}, stores: map[*types.Var][]*ssa.Store{}, freshMemo: map[*ssa.Function]int{}, ifaceImpl: map[string][]types.Type{}}
	b.findImmutable()
	b.findConstGlobals()
	b.runInits()
	return b
}

func isInit(f *ssa.Function) bool { return f.Synthetic == "package initializer" }

// freshBase: v denotes an object built by the running function or a
// constructor it called, which nobody else can have changed yet.
func (b *Base) freshBase(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return b.freshBase(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !b.freshBase(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return b.freshBase(x.X, seen)
	case *ssa.MakeInterface:
		return b.freshBase(x.X, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return b.returnsFresh(c.Call.StaticCallee(), x.Index)
		}
	case *ssa.Call:
		return b.returnsFresh(x.Call.StaticCallee(), 0)
	case *ssa.UnOp:
		// a field of a fresh object holding a fresh object: x := &T{in: &U{}}; x.in.f = ...
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && b.freshBase(fa.X, seen) {
				return b.onlyFreshStores(fa, seen)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				return b.cellFresh(al, seen)
			}
		}
	}
	return false
}

func (b *Base) onlyFreshStores(fa *ssa.FieldAddr, seen map[ssa.Value]bool) bool {
	fn := fa.Parent()
	n := 0
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || a.Field != fa.Field || a.X != fa.X {
				continue
			}
			n++
			if !b.freshBase(st.Val, seen) {
				return false
			}
		}
	}
	return n > 0
}

func (b *Base) cellFresh(al *ssa.Alloc, seen map[ssa.Value]bool) bool {
	n := 0
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != al {
				return false
			}
			n++
			if !b.freshBase(x.Val, seen) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
		default:
			return false
		}
	}
	return n > 0
}

func (b *Base) returnsFresh(fn *ssa.Function, idx int) bool {
	if fn == nil || fn.Blocks == nil || !b.p.IsRepo(fn) {
		return false
	}
	if v, ok := b.freshMemo[fn]; ok {
		return v == 1
	}
	b.freshMemo[fn] = 0
	for _, blk := range fn.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if idx >= len(r.Results) {
			return false
		}
		v := r.Results[idx]
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			continue
		}
		if !b.freshBase(v, map[ssa.Value]bool{}) {
			return false
		}
	}
	b.freshMemo[fn] = 1
	return true
}

func (b *Base) findImmutable() {
	mutable := map[*types.Var]bool{}
	all := map[*types.Var]bool{}
	for _, fn := range b.p.Funcs {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					v := deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field)
					all[v] = true
					for _, r := range *x.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if u.Addr == x {
								b.stores[v] = append(b.stores[v], u)
								if !b.freshBase(x.X, map[ssa.Value]bool{}) {
									mutable[v] = true
								}
							} else {
								mutable[v] = true // address stored
							}
						default:
							mutable[v] = true // address used otherwise
						}
					}
				case *ssa.Store:
					// a struct overwritten as a whole
					if s, ok := x.Val.Type().Underlying().(*types.Struct); ok {
						if _, isA := x.Addr.(*ssa.Alloc); !isA {
							for i := 0; i < s.NumFields(); i++ {
								if _, isF := x.Addr.(*ssa.FieldAddr); !isF {
									mutable[s.Field(i)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for v := range all {
		if !mutable[v] {
			b.immutable[v] = true
		}
	}
}

func (b *Base) findConstGlobals() {
	bad := map[*ssa.Global]bool{}
	for _, fn := range b.p.Funcs {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				for _, o := range in.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							if _, isMap := deref(g.Type()).Underlying().(*types.Map); isMap && !isInit(fn) && !mapReadOnly(x) {
								bad[g] = true
							}
							continue
						}
						bad[g] = true
					case *ssa.Store:
						if !(isInit(fn) && x.Addr == g) {
							bad[g] = true
						}
					case *ssa.DebugRef:
					default:
						if !isInit(fn) {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for s := range b.p.Repo {
		for _, m := range s.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				b.constG[g] = true
			}
		}
	}
}

// mapReadOnly: the loaded map is only looked up or iterated.
func mapReadOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				continue
			}
			return false
		case *ssa.BinOp:
		default:
			return false
		}
	}
	return true
}

// runInits interprets the package initialisers (variable initialisation only,
// not the init functions) and keeps the values of constant variables.
func (b *Base) runInits() {
	var pkgs []*ssa.Package
	for s := range b.p.Repo {
		pkgs = append(pkgs, s)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, s := range pkgs {
		fn := s.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		e := newEngine(b.p, nil)
		e.Havoc = false
		var best map[*Term]*Term
		e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
			if c.Fn != nil && (isInit(c.Fn) || c.Fn.Name() == "init" || len(c.Fn.Name()) > 5 && c.Fn.Name()[:5] == "init#") && c.Fn.Signature.Recv() == nil {
				return []Out{{}}, true
			}
			return nil, false
		}
		e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			if len(st.heap) > len(best) {
				best = map[*Term]*Term{}
				for k, v := range st.heap {
					best[k] = v
				}
			}
		}
		e.Entry(fn, nil, nil)
		// keep only what cannot change, under names of its own
		ren := substMap{}
		name := func(t *Term) {
			for _, x := range t.syms {
				if _, ok := ren[x]; !ok {
					n := T.mkFull(x.Op, "init:"+x.Aux, x.Typ, x.Obj, nil, x.C, nil)
					if n.Typ == nil {
						n.Typ = x.Typ
					}
					ren[x] = n
				}
			}
		}
		memo := map[*Term]*Term{}
		for k, v := range best {
			name(k)
			name(v)
		}
		tabs := map[*Term]bool{}
		for k, v := range best {
			if k.Op == "global" {
				g := k.Obj.(*ssa.Global)
				if b.constG[g] {
					nv := ren.apply(v, memo)
					b.heap[k] = nv
					if _, ok := deref(g.Type()).Underlying().(*types.Map); ok && nv.Op == "alloc" {
						b.tables[nv] = g
						tabs[nv] = true
					}
				}
			}
		}
		objs := map[*Term]bool{}
		for k, v := range best {
			nk, nv := ren.apply(k, memo), ren.apply(v, memo)
			switch k.Op {
			case "maddr":
				if tabs[nk.Args[0]] {
					b.heap[nk] = nv
				}
			case "mver":
				if tabs[nk.Args[0]] {
					b.heap[nk] = nv
				}
			case "faddr":
				if v := fieldVar(k); v != nil && b.immutable[v] {
					b.heap[nk] = nv
				}
			}
			for _, x := range append(append([]*Term(nil), nk.syms...), nv.syms...) {
				if x.Op == "alloc" && !tabs[x] {
					objs[x] = true
				}
			}
		}
		for o := range objs {
			b.heap[markOf(o)] = trueTerm
		}
	}
	// drop what no constant variable leads to
	for ch := true; ch; {
		ch = false
		live := map[*Term]bool{}
		for k, v := range b.heap {
			if k.Op == "mark" {
				continue
			}
			if k.Op == "global" {
				for _, x := range v.syms {
					live[x] = true
				}
			}
		}
		for more := true; more; {
			more = false
			for k, v := range b.heap {
				if k.Op == "mark" || len(k.syms) == 0 || !live[k.syms[0]] {
					continue
				}
				for _, x := range v.syms {
					if !live[x] {
						live[x] = true
						more = true
					}
				}
			}
		}
		for k := range b.heap {
			for _, x := range k.syms {
				if !live[x] {
					delete(b.heap, k)
					ch = true
					break
				}
			}
		}
	}
}

// Impls lists the repository types that are converted to the interface
// somewhere (or to another one) and implement it.
func (b *Base) Impls(iface types.Type) []types.Type {
	key := typKey(iface)
	if r, ok := b.ifaceImpl[key]; ok {
		return r
	}
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	seen := map[string]bool{}
	var r []types.Type
	for _, fn := range b.p.Funcs {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				t := mi.X.Type()
				n, ok := deref(t).(*types.Named)
				if !ok || n.Obj().Pkg() == nil || !b.p.IsRepoPkg(n.Obj().Pkg()) {
					continue
				}
				if !types.Implements(t, it) || seen[typKey(t)] {
					continue
				}
				seen[typKey(t)] = true
				r = append(r, t)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return typKey(r[i]) < typKey(r[j]) })
	b.ifaceImpl[key] = r
	return r
}
