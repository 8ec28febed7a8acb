package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lock analysis follows every path of every entry point, callees inlined,
// with the sets of locks held as its abstract state. Objects are named by
// access paths: a root (receiver, parameter, package variable, object made by
// the operation) and the fields and elements it is reached through. It records
// what is read and written of objects others can reach, and what happens to
// each lock.

type apath struct {
	key  string
	up   *apath
	f    *types.Var // field step, nil: element step
	root *aroot
	n    int
}

type aroot struct {
	id    string
	fresh bool          // made by this operation
	typ   types.Type    // of the value, nil if not known
	fn    *ssa.Function // a function value
	free  []*apath
	of    []*aroot // one of these
	glob  *ssa.Global
}

type held struct {
	p    *apath
	mode byte // W, R, or O: after a sync.Once
	def  bool // a deferred call releases it
	pos  token.Pos
}

type lstate struct {
	locks []held
	pub   map[string]string // fresh roots others can reach -> the locks held when they became so
	try   map[ssa.Value]bool
	defs  []ldefer // of the current frame
}

type ldefer struct {
	in *ssa.Defer
}

func (s *lstate) clone() *lstate {
	n := &lstate{locks: append([]held(nil), s.locks...), pub: map[string]string{}, try: map[ssa.Value]bool{}, defs: append([]ldefer(nil), s.defs...)}
	for k, v := range s.pub {
		n.pub[k] = v
	}
	for k, v := range s.try {
		n.try[k] = v
	}
	return n
}

func (s *lstate) lockKey() string {
	var b strings.Builder
	for _, h := range s.locks {
		fmt.Fprintf(&b, "%s/%c%v;", h.p.key, h.mode, h.def)
	}
	return b.String()
}

func (s *lstate) key() string {
	var ks []string
	for k, v := range s.try {
		ks = append(ks, fmt.Sprintf("?%s=%v", k.Name(), v))
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString(s.lockKey())
	b.WriteString("|")
	b.WriteString(strings.Join(ks, ","))
	for _, d := range s.defs {
		fmt.Fprintf(&b, "|d%d", d.in.Pos())
	}
	return b.String()
}

// key of what objects others can reach
func (s *lstate) pubKey() string {
	var ks []string
	for k, v := range s.pub {
		ks = append(ks, k+"@"+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// join adds what others can reach in either state, and tells if that is more.
func (s *lstate) join(o *lstate) bool {
	grew := false
	for k, v := range o.pub {
		w, ok := s.pub[k]
		switch {
		case !ok:
			s.pub[k] = v
			grew = true
		case w != v && w != "":
			s.pub[k] = ""
			grew = true
		}
	}
	return grew
}

// relevant lists the objects reachable from paths.
func (a *lockAn) relevant(ps ...[]*apath) map[string]bool {
	seen := map[string]bool{}
	var add func(r *aroot)
	add = func(r *aroot) {
		if r == nil || seen[r.id] || r.id == "const" {
			return
		}
		seen[r.id] = true
		for _, x := range r.of {
			add(x)
		}
		for _, x := range r.free {
			add(x.root)
		}
		for id := range a.links[r.id] {
			add(a.roots[id])
		}
	}
	for _, l := range ps {
		for _, p := range l {
			if p != nil {
				add(p.root)
			}
		}
	}
	return seen
}

// dedup keeps one of the locks that cannot be told apart.
func (s *lstate) dedup() {
	seen := map[held]bool{}
	var out []held
	for _, h := range s.locks {
		k := h
		k.pos = 0
		if !seen[k] {
			seen[k] = true
			out = append(out, h)
		}
	}
	s.locks = out
}

func (s *lstate) holds(p *apath) *held {
	for i := range s.locks {
		if s.locks[i].p == p && s.locks[i].mode != 'O' {
			return &s.locks[i]
		}
	}
	return nil
}

type lexit struct {
	st  *lstate
	res []*apath
}

// laccess is one access to state others can reach.
type laccess struct {
	loc   string
	name  string
	field *types.Var
	write bool
	locks map[string]byte // lock class -> mode, of locks of the object or of one it is reached through
	pos   token.Pos
	fn    *ssa.Function
	entry string
	conf  string // the goroutine it happens in, if that belongs to the object alone
	path  []string
}

type ledge struct {
	from, to string
	up       bool // to is an ancestor of from, by fields that never change
	via      []*types.Var
	pos      token.Pos
	path     []string
}

type lwait struct {
	on    string
	kind  string // wait, send, recv
	locks []string
	pos   token.Pos
	path  []string
}

type lentry struct {
	name string
	fn   *ssa.Function
	args []*apath
	free []*apath
	init bool     // runs before anything else can
	conf string   // it belongs to one object alone
	pub  []*aroot // what the goroutine shares
	acq  map[string]bool
	sig  map[string]bool // what it signals: "done f", "recv f", "send f"
}

type lockAn struct {
	r         *Run
	roots     map[string]*aroot
	paths     map[string]*apath
	cont      map[string]*apath // content of cells of fresh objects
	links     map[string]map[string]bool
	acc       map[string]*laccess
	edges     map[string]*ledge
	waits     map[string]*lwait
	memo      map[string][]lexit
	viol      map[string]*Violation
	okAt      map[string]token.Pos
	entries   []*lentry
	seenGo    map[string]bool
	cur       *lentry
	stack     []*ssa.Function
	changed   bool
	resChg    map[string]*apath
	byAddr    []*ssa.Function // functions used as values
	fns       map[*ssa.Function]bool
	allStores map[*types.Var][]ssa.Value
	backs     map[*types.Var]*types.Var
	callers   map[*ssa.Function][][]ssa.Value
	states    int
	calls     int
	over      string
}

const maxPath = 9

func (a *lockAn) root(id string, fresh bool, t types.Type) *apath {
	r := a.roots[id]
	if r == nil {
		r = &aroot{id: id, fresh: fresh, typ: t}
		a.roots[id] = r
	}
	p := a.paths[id]
	if p == nil {
		p = &apath{key: id, root: r}
		a.paths[id] = p
	}
	return p
}

func (a *lockAn) step(p *apath, f *types.Var) *apath {
	if p == nil || p.root.id == "const" {
		return a.root("const", true, nil)
	}
	k := p.key + "[*]"
	if f != nil {
		k = fmt.Sprintf("%s.%s", p.key, f.Name())
		// a chain of the same field
		if p.f == f && p.up != nil && p.up.f == f {
			return p
		}
	}
	if f != nil && p.f != nil && p.up != nil {
		// the object a part belongs to, and that part of it
		if pair, ok := a.backPointers()[f]; ok && pair == p.f {
			return p.up
		}
		if pair, ok := a.backPointers()[p.f]; ok && pair == f {
			return p.up
		}
	}
	if q := a.paths[k]; q != nil {
		return q
	}
	if p.n >= maxPath {
		// too far to tell apart
		return a.step(a.root(fmt.Sprintf("far %v", p.typeOf()), false, p.typeOf()), f)
	}
	q := &apath{key: k, up: p, f: f, root: p.root, n: p.n + 1}
	a.paths[k] = q
	return q
}

func (a *lockAn) none() *apath { return a.root("const", true, nil) }

// typeOf is the static type of what a path names, nil if not known.
func (p *apath) typeOf() types.Type {
	if p.up == nil {
		return p.root.typ
	}
	if p.f != nil {
		return p.f.Type()
	}
	if t := p.up.typeOf(); t != nil {
		switch u := deref(t).Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		case *types.Chan:
			return u.Elem()
		}
	}
	return nil
}

// shared: others can reach what p names.
func (a *lockAn) shared(st *lstate, p *apath) bool { return a.sharedRoot(st, p.root, 0) }

func (a *lockAn) sharedRoot(st *lstate, r *aroot, d int) bool {
	if r.id == "const" || d > 4 {
		return false
	}
	if len(r.of) > 0 {
		for _, x := range r.of {
			if a.sharedRoot(st, x, d+1) {
				return true
			}
		}
		return false
	}
	if !r.fresh {
		return true
	}
	w, ok := st.pub[r.id]
	if !ok {
		return false
	}
	if w == "" {
		return true
	}
	// reachable only through something whose lock is still held
	for _, k := range strings.Split(w, ";") {
		has := false
		for _, h := range st.locks {
			if h.p.key == k {
				has = true
			}
		}
		if !has {
			return true
		}
	}
	return false
}

func (a *lockAn) publish(st *lstate, r *aroot) {
	seen := map[string]bool{}
	var ks []string
	for _, h := range st.locks {
		if h.mode != 'O' {
			ks = append(ks, h.p.key)
		}
	}
	sort.Strings(ks)
	with := strings.Join(ks, ";")
	var pub func(r *aroot)
	pub = func(r *aroot) {
		if r == nil || seen[r.id] || r.id == "const" {
			return
		}
		seen[r.id] = true
		for _, x := range r.of {
			pub(x)
		}
		for _, x := range r.free {
			pub(x.root)
		}
		if !r.fresh {
			return
		}
		if _, ok := st.pub[r.id]; !ok || with == "" {
			st.pub[r.id] = with
		}
		for id := range a.links[r.id] {
			pub(a.roots[id])
		}
	}
	pub(r)
}

func (a *lockAn) setContent(at, v *apath) {
	if at == nil || v == nil || v.root.id == "const" || at == v || !at.root.fresh {
		return
	}
	old := a.cont[at.key]
	switch {
	case old == nil:
		a.cont[at.key] = v
		a.changed = true
	case old == v || old.root.id == "mix:"+at.key:
		if old != v && old.root.id == "mix:"+at.key {
			a.mix(old.root, v.root)
		}
	default:
		m := a.root("mix:"+at.key, true, nil)
		a.mix(m.root, old.root)
		a.mix(m.root, v.root)
		a.cont[at.key] = m
		a.changed = true
	}
}

func (a *lockAn) mix(m, r *aroot) {
	if m == r {
		return
	}
	for _, x := range m.of {
		if x == r {
			return
		}
	}
	m.of = append(m.of, r)
	a.changed = true
}

func (a *lockAn) content(p *apath) *apath {
	if c := a.cont[p.key]; c != nil {
		return c
	}
	return p
}

// ---- one invocation of a function

type lframe struct {
	a    *lockAn
	fn   *ssa.Function
	args []*apath
	free []*apath
	vals map[ssa.Value]*apath
	ctx  string
}

func (f *lframe) siteID(v ssa.Value) string {
	return fmt.Sprintf("%s:%s@%d", f.fn.RelString(nil), v.Name(), v.Pos())
}

func (f *lframe) path(v ssa.Value) *apath {
	if p, ok := f.vals[v]; ok {
		return p
	}
	a := f.a
	var p *apath
	switch x := v.(type) {
	case *ssa.Const:
		return a.none()
	case *ssa.Parameter:
		for i, q := range f.fn.Params {
			if q == x && i < len(f.args) {
				p = f.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, q := range f.fn.FreeVars {
			if q == x && i < len(f.free) {
				p = f.free[i]
			}
		}
	case *ssa.Global:
		p = a.root("global "+x.RelString(nil), false, x.Type())
		p.root.glob = x
	case *ssa.Function:
		p = a.root("func "+x.RelString(nil), true, nil)
		p.root.fn = x
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var fr []*apath
		k := "closure " + fn.RelString(nil)
		for _, b := range x.Bindings {
			q := f.path(b)
			fr = append(fr, q)
			k += "," + q.key
		}
		p = a.root(k, true, nil)
		p.root.fn, p.root.free = fn, fr
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		p = a.root("new "+f.siteID(v), true, v.Type())
	case *ssa.MakeInterface:
		p = f.path(x.X)
		if p.root.id == "const" { // a value that is not shared
			p = a.root("new "+f.siteID(v), true, x.X.Type())
		}
	case *ssa.ChangeType:
		p = f.path(x.X)
	case *ssa.ChangeInterface:
		p = f.path(x.X)
	case *ssa.Convert:
		p = f.path(x.X)
	case *ssa.TypeAssert:
		p = f.path(x.X)
	case *ssa.FieldAddr:
		p = a.step(f.path(x.X), structOf(x.X.Type()).Field(x.Field))
	case *ssa.Field:
		p = a.content(a.step(f.path(x.X), structOf(x.X.Type()).Field(x.Field)))
	case *ssa.IndexAddr:
		p = a.step(f.path(x.X), nil)
	case *ssa.Index:
		p = a.content(a.step(f.path(x.X), nil))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			p = a.content(a.step(f.path(x.X), nil))
		}
	case *ssa.Slice:
		p = f.path(x.X)
	case *ssa.Range:
		p = f.path(x.X)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p = a.content(f.path(x.X))
		case token.ARROW:
			p = a.content(a.step(f.path(x.X), nil))
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if x.Index == 2 && !t.IsString {
				p = a.content(a.step(f.path(t.Iter), nil))
			}
		case *ssa.Lookup, *ssa.TypeAssert, *ssa.UnOp:
			if x.Index == 0 {
				p = f.path(t)
			}
		case *ssa.Call:
			p = a.resChg[fmt.Sprintf("%s/%s/%d", f.ctx, f.siteID(t), x.Index)]
			if p == nil {
				return a.none() // not reached yet
			}
			return p
		case *ssa.Select:
			i := 2
			for _, s := range t.States {
				if s.Dir == types.RecvOnly {
					if i == x.Index {
						p = a.content(a.step(f.path(s.Chan), nil))
					}
					i++
				}
			}
		}
	case *ssa.Call:
		p = a.resChg[fmt.Sprintf("%s/%s/%d", f.ctx, f.siteID(x), 0)]
		if p == nil {
			return a.none()
		}
		return p
	case *ssa.Phi:
		sym := a.root("phi "+f.siteID(x), true, nil)
		f.vals[v] = sym
		var only *apath
		many := false
		var rs []*aroot
		for _, e := range x.Edges {
			q := f.path(e)
			if q == sym || q.root.id == "const" {
				continue
			}
			rs = append(rs, q.root)
			if only != nil && only != q {
				many = true
			}
			only = q
		}
		if only != nil && !many {
			// forget what was derived from the provisional name
			for k, q := range f.vals {
				if q.root == sym.root {
					delete(f.vals, k)
				}
			}
			f.vals[v] = only
			return only
		}
		sym.root.typ = x.Type()
		for _, r := range rs {
			if r != sym.root {
				a.mix(sym.root, r)
			}
		}
		return sym
	}
	if p == nil {
		p = a.none()
	}
	f.vals[v] = p
	return p
}

// analyze explores one invocation and returns the ways it can end.
func (a *lockAn) analyze(fn *ssa.Function, args, free []*apath, st *lstate) []lexit {
	a.fns[fn] = true
	n := 0
	for _, g := range a.stack {
		if g == fn {
			n++
		}
	}
	if fn.Blocks == nil || n >= 2 || len(a.stack) > 30 {
		return []lexit{{st: st}}
	}
	in := st.clone()
	in.defs, in.try = nil, map[ssa.Value]bool{}
	rel := a.relevant(args, free)
	for k := range in.pub {
		if !rel[k] {
			delete(in.pub, k)
		}
	}
	var kb strings.Builder
	for _, p := range args {
		kb.WriteString(p.key + ",")
	}
	for _, p := range free {
		kb.WriteString("^" + p.key)
	}
	ctx := fn.RelString(nil) + "(" + kb.String() + ")"
	who := ""
	if a.cur.init {
		who = "init"
	} else if strings.HasPrefix(a.cur.name, "go ") {
		who = a.cur.name
	}
	key := ctx + "#" + in.key() + "#" + in.pubKey() + "#" + who
	back := func(exits []lexit) []lexit {
		var out []lexit
		for _, x := range exits {
			s := x.st.clone()
			s.defs, s.try = st.defs, st.try
			s.join(st)
			out = append(out, lexit{s, x.res})
		}
		return out
	}
	if ex, ok := a.memo[key]; ok {
		return back(ex)
	}
	a.stack = append(a.stack, fn)
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	f := &lframe{a: a, fn: fn, args: args, free: free, vals: map[ssa.Value]*apath{}, ctx: ctx}
	type item struct {
		b *ssa.BasicBlock
		k string
	}
	at := map[string]*lstate{}
	exits := map[string]*lexit{}
	var order []string
	var work []item
	push := func(b *ssa.BasicBlock, s *lstate) {
		k := fmt.Sprintf("%d#%s", b.Index, s.key())
		if old := at[k]; old != nil {
			if old.join(s) {
				work = append(work, item{b, k})
			}
			return
		}
		at[k] = s.clone()
		work = append(work, item{b, k})
	}
	push(fn.Blocks[0], in)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		a.states++
		if a.states > 400000 {
			a.over = "too many states in " + fn.RelString(nil)
			return nil
		}
		sts := []*lstate{at[it.k].clone()}
		for _, ins := range it.b.Instrs {
			var next []*lstate
			dedup := map[string]*lstate{}
			for _, s := range sts {
				for _, t := range a.exec(f, s, ins) {
					k := t.key()
					if o := dedup[k]; o != nil {
						o.join(t)
						continue
					}
					if t == s || dedup[k] == nil {
						t = t.clone()
					}
					dedup[k] = t
					next = append(next, t)
				}
			}
			sts = next
			if a.over != "" {
				return nil
			}
			if ret, ok := ins.(*ssa.Return); ok {
				for _, s := range sts {
					var rs []*apath
					rk := ""
					for _, v := range ret.Results {
						p := f.path(v)
						rs = append(rs, p)
						rk += p.key + ","
					}
					s := s.clone()
					s.defs, s.try = nil, map[ssa.Value]bool{}
					k := rk + "#" + s.key()
					if o := exits[k]; o != nil {
						o.st.join(s)
						continue
					}
					exits[k] = &lexit{s, rs}
					order = append(order, k)
				}
			}
			if len(sts) == 0 {
				break
			}
		}
		for _, s := range sts {
			for i, b := range it.b.Succs {
				if iff, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
					c, neg := iff.Cond, false
					for {
						u, ok := c.(*ssa.UnOp)
						if !ok || u.Op != token.NOT {
							break
						}
						c, neg = u.X, !neg
					}
					if v, ok := s.try[c]; ok && (v != neg) != (i == 0) {
						continue
					}
				}
				t := s
				// a variable that names another object from now on
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					p := f.path(ph)
					if !strings.HasPrefix(p.key, "phi ") {
						continue
					}
					for j, h := range t.locks {
						if h.p.root == p.root {
							if t == s {
								t = s.clone()
							}
							t.locks[j].p = a.root("an earlier "+h.p.key, false, nil)
							t.locks[j].p.f = h.p.f
						}
					}
					t.dedup()
				}
				push(b, t)
			}
		}
	}
	var ex []lexit
	for _, k := range order {
		x := *exits[k]
		ret := a.relevant(args, free, x.res)
		for id := range x.st.pub {
			if !ret[id] {
				delete(x.st.pub, id)
			}
		}
		ex = append(ex, x)
	}
	a.memo[key] = ex
	return back(ex)
}

func (a *lockAn) trace() []string {
	var s []string
	for _, f := range a.stack {
		s = append(s, f.RelString(nil))
	}
	return []string{"entry: " + a.cur.name, "call path: " + strings.Join(s, " -> ")}
}

func (a *lockAn) bad(kind string, pos token.Pos, format string, args ...interface{}) {
	v := &Violation{Kind: kind, At: a.r.P.Pos(pos), What: fmt.Sprintf(format, args...), Path: a.trace()}
	if len(a.stack) > 0 {
		v.In = a.stack[len(a.stack)-1].RelString(nil)
	}
	k := v.Kind + v.At + v.In
	if a.viol[k] == nil {
		a.viol[k] = v
	}
}

func (a *lockAn) good(kind string, pos token.Pos, what string) {
	a.okAt[kind+"\x00"+what] = pos
}

// location names what an address designates: a field of any object of the
// type, a package variable, a captured variable, or the elements of those.
func location(p *apath) (key, name string) {
	switch {
	case p.f != nil:
		return fieldKey(p.f), declName(p.f)
	case p.up != nil:
		k, n := location(p.up)
		if k == "" {
			return "", ""
		}
		return k + "[*]", n + "[*]"
	case p.root.glob != nil:
		return p.root.id, p.root.glob.Name()
	case p.root.fresh && strings.HasPrefix(p.root.id, "new "):
		return p.root.id, "captured variable"
	}
	return "", ""
}

func (a *lockAn) access(st *lstate, p *apath, write bool, pos token.Pos) {
	if p.root.id == "const" || a.cur.init || !a.shared(st, p) {
		return
	}
	if p.f != nil && syncType(p.f.Type()) {
		return
	}
	loc, name := location(p)
	if loc == "" {
		return
	}
	ls := map[string]byte{}
	var lk []string
	for _, h := range st.locks {
		if !owns(h.p, p) {
			continue
		}
		c := lockClass(h.p)
		if ls[c] != 'W' {
			ls[c] = h.mode
		}
	}
	for c, m := range ls {
		lk = append(lk, c+string(m))
	}
	sort.Strings(lk)
	fn := a.stack[len(a.stack)-1]
	conf := ""
	if a.cur.conf != "" && p.root.id == a.cur.conf {
		conf = a.cur.name
	}
	k := fmt.Sprintf("%s|%v|%d|%s|%s", loc, write, pos, strings.Join(lk, ","), conf)
	if a.acc[k] == nil {
		a.acc[k] = &laccess{loc: loc, name: name, field: p.f, write: write, locks: ls, pos: pos, fn: fn, entry: a.cur.name, conf: conf, path: a.trace()}
	}
}

// owns: the lock is a field of the object accessed, of one it is reached
// through, or a package variable.
func owns(lock, p *apath) bool {
	if lock.up == nil {
		return lock.root.glob != nil || lock.root.fresh
	}
	owner := lock.up
	for q := p.up; q != nil; q = q.up {
		if q == owner {
			return true
		}
	}
	return owner.up == nil && owner.root.glob != nil
}

func lockClass(p *apath) string {
	if p.f != nil {
		return declName(p.f)
	}
	return p.key
}

// declName names a field by the type that declares it.
func declName(f *types.Var) string {
	if f.Pkg() != nil {
		for _, n := range f.Pkg().Scope().Names() {
			tn, ok := f.Pkg().Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			for i := 0; ok && i < s.NumFields(); i++ {
				if s.Field(i) == f {
					return n + "." + f.Name()
				}
			}
		}
	}
	return f.Name()
}

func syncType(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func (a *lockAn) exec(f *lframe, st *lstate, in ssa.Instruction) []*lstate {
	one := func(s *lstate) []*lstate { return []*lstate{s} }
	switch x := in.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		p := f.path(x.(ssa.Value))
		if _, ok := st.pub[p.root.id]; ok {
			st = st.clone()
			delete(st.pub, p.root.id)
		}
		return one(st)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := f.path(x.X)
			a.readAll(st, p, x.Type(), x.Pos())
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if k, _ := location(p); k == "" {
					for _, v := range fieldsOf(ia.X, map[ssa.Value]bool{}) {
						a.elemRead(st, v, p, x.Pos())
					}
				}
			}
		}
		if x.Op == token.ARROW {
			a.wait(st, "recv", f.path(x.X), x.Pos())
		}
	case *ssa.Field:
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.access(st, a.step(f.path(x.X), nil), false, x.Pos())
		}
	case *ssa.Next:
		if !x.IsString {
			a.access(st, a.step(f.path(x.Iter), nil), false, x.Pos())
		}
	case *ssa.Store:
		p, v := f.path(x.Addr), f.path(x.Val)
		st = st.clone()
		a.writeAll(st, p, x.Val.Type(), x.Pos())
		a.stored(st, p, v)
		return one(st)
	case *ssa.MapUpdate:
		p, v := a.step(f.path(x.Map), nil), f.path(x.Value)
		st = st.clone()
		a.access(st, p, true, x.Pos())
		a.stored(st, p, v)
		a.stored(st, p, f.path(x.Key))
		return one(st)
	case *ssa.Send:
		a.wait(st, "send", f.path(x.Chan), x.Pos())
		st = st.clone()
		a.stored(st, a.step(f.path(x.Chan), nil), f.path(x.X))
		return one(st)
	case *ssa.Select:
		for _, s := range x.States {
			kind := "recv"
			if s.Dir == types.SendOnly {
				kind = "send"
				st = st.clone()
				a.stored(st, a.step(f.path(s.Chan), nil), f.path(s.Send))
			}
			if x.Blocking {
				a.wait(st, kind, f.path(s.Chan), x.Pos())
			} else {
				a.signals(kind, f.path(s.Chan))
			}
		}
		return one(st)
	case *ssa.Go:
		return one(a.spawn(f, st, x))
	case *ssa.Defer:
		st = st.clone()
		n := 0
		for _, d := range st.defs {
			if d.in == x {
				n++
			}
		}
		if n < 2 { // in a loop: more of the same
			st.defs = append(st.defs, ldefer{x})
		}
		for _, p := range a.unlocks(f, &x.Call, 0) {
			for i := range st.locks {
				if st.locks[i].p == p {
					st.locks[i].def = true
				}
			}
		}
		return one(st)
	case *ssa.RunDefers:
		sts := one(st)
		for {
			var next []*lstate
			more := false
			for _, s := range sts {
				if len(s.defs) == 0 {
					next = append(next, s)
					continue
				}
				more = true
				d := s.defs[len(s.defs)-1]
				t := s.clone()
				t.defs = t.defs[:len(t.defs)-1]
				for _, e := range a.call(f, t, &d.in.Call, d.in, nil) {
					next = append(next, e.st)
				}
			}
			sts = next
			if !more {
				return sts
			}
		}
	case *ssa.Call:
		var out []*lstate
		for _, e := range a.call(f, st, &x.Call, x, x) {
			for i, p := range e.res {
				a.setRes(f, fmt.Sprintf("%s/%s/%d", f.ctx, f.siteID(x), i), p)
			}
			out = append(out, e.st)
		}
		return out
	case *ssa.Panic:
		for _, h := range st.locks {
			if !h.def && h.mode != 'O' {
				a.bad("released on panic", x.Pos(), "%s stays locked when this panics", lockClass(h.p))
			}
		}
		return nil
	case *ssa.Return:
		return one(st)
	}
	return one(st)
}

// setRes merges the result of a call over the ways it ends.
func (a *lockAn) setRes(f *lframe, k string, p *apath) {
	if p == nil || p.root.id == "const" {
		return
	}
	old := a.resChg[k]
	if old == nil {
		a.resChg[k] = p
		a.changed = true
		f.vals = map[ssa.Value]*apath{}
		return
	}
	if old == p {
		return
	}
	m := a.root("result "+k, true, nil)
	if old != m {
		a.mix(m.root, old.root)
		a.resChg[k] = m
		a.changed = true
		f.vals = map[ssa.Value]*apath{}
	}
	if m.root.typ == nil {
		m.root.typ = p.typeOf()
	}
	a.mix(m.root, p.root)
}

func (a *lockAn) stored(st *lstate, at, v *apath) {
	if v == nil || v.root.id == "const" {
		return
	}
	if at.root.fresh && at.root.id != "const" {
		a.setContent(at, v)
		if v.root.fresh && v.root != at.root {
			m := a.links[at.root.id]
			if m == nil {
				m = map[string]bool{}
				a.links[at.root.id] = m
			}
			if !m[v.root.id] {
				m[v.root.id] = true
				a.changed = true
			}
		}
		if w, ok := st.pub[at.root.id]; ok {
			_ = w
			a.publish(st, v.root)
		}
		return
	}
	if at.root.id != "const" {
		a.publish(st, v.root)
	}
}

func (a *lockAn) readAll(st *lstate, p *apath, t types.Type, pos token.Pos) {
	a.all(st, p, t, false, pos)
}
func (a *lockAn) writeAll(st *lstate, p *apath, t types.Type, pos token.Pos) {
	a.all(st, p, t, true, pos)
}

func (a *lockAn) all(st *lstate, p *apath, t types.Type, write bool, pos token.Pos) {
	if s, ok := t.Underlying().(*types.Struct); ok && !syncType(t) && a.repoType(t) {
		for i := 0; i < s.NumFields(); i++ {
			a.all(st, a.step(p, s.Field(i)), s.Field(i).Type(), write, pos)
		}
		return
	}
	a.access(st, p, write, pos)
}

func (a *lockAn) repoType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && a.r.P.IsRepoPkg(n.Obj().Pkg())
}

func (a *lockAn) wait(st *lstate, kind string, p *apath, pos token.Pos) {
	a.signals(kind, p)
	var ls []string
	for _, h := range st.locks {
		if h.mode != 'O' {
			ls = append(ls, lockClass(h.p))
		}
	}
	k, _ := location(p)
	if len(ls) == 0 || k == "" || a.cur.init {
		return
	}
	id := fmt.Sprintf("%s|%s|%d|%v", kind, k, pos, ls)
	if a.waits[id] == nil {
		a.waits[id] = &lwait{on: k, kind: kind, locks: ls, pos: pos, path: a.trace()}
	}
}

func (a *lockAn) signals(kind string, p *apath) {
	if k, _ := location(p); k != "" {
		a.cur.sig[kind+" "+k] = true
	}
}

// unlocks lists the locks a deferred call releases.
func (a *lockAn) unlocks(f *lframe, c *ssa.CallCommon, d int) []*apath {
	if isUnlock(calleeName(c)) {
		return []*apath{f.path(c.Args[0])}
	}
	var fn *ssa.Function
	var free, args []*apath
	switch v := c.Value.(type) {
	case *ssa.Function:
		fn = v
	case *ssa.MakeClosure:
		fn = v.Fn.(*ssa.Function)
		for _, b := range v.Bindings {
			free = append(free, f.path(b))
		}
	}
	if fn == nil || fn.Blocks == nil || d > 3 {
		return nil
	}
	for _, x := range c.Args {
		args = append(args, f.path(x))
	}
	g := &lframe{a: a, fn: fn, args: args, free: free, vals: map[ssa.Value]*apath{}, ctx: "unlocks"}
	var out []*apath
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok {
				if _, isGo := in.(*ssa.Go); !isGo {
					out = append(out, a.unlocks(g, cc.Common(), d+1)...)
				}
			}
		}
	}
	return out
}

func isUnlock(n string) bool {
	switch n {
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return true
	}
	return false
}

func (a *lockAn) spawn(f *lframe, st *lstate, g *ssa.Go) *lstate {
	st = st.clone()
	var fns []*ssa.Function
	var args, free []*apath
	c := &g.Call
	for _, x := range c.Args {
		args = append(args, f.path(x))
	}
	if c.IsInvoke() {
		args = append([]*apath{f.path(c.Value)}, args...)
		fns = a.callees(args[0], c)
	} else {
		p := f.path(c.Value)
		if p.root.fn != nil && p.up == nil {
			fns, free = []*ssa.Function{p.root.fn}, p.root.free
		} else {
			fns = a.byType(c.Signature())
		}
	}
	for _, p := range append(append([]*apath(nil), args...), free...) {
		a.publish(st, p.root)
	}
	a.spawned(f, fns, args, free, g.Pos(), g.Block())
	return st
}

func (a *lockAn) spawned(f *lframe, fns []*ssa.Function, args, free []*apath, pos token.Pos, blk *ssa.BasicBlock) {
	for _, fn := range fns {
		key := fmt.Sprintf("go %s at %s", fn.RelString(nil), a.r.P.Pos(pos))
		for _, p := range append(append([]*apath(nil), args...), free...) {
			key += "," + p.key
		}
		if a.seenGo[key] {
			continue
		}
		a.seenGo[key] = true
		e := &lentry{name: key, fn: fn, args: args, free: free, acq: map[string]bool{}, sig: map[string]bool{}}
		if i := strings.Index(key, ","); i > 0 {
			e.name = key[:i]
		}
		for _, p := range append(append([]*apath(nil), args...), free...) {
			e.pub = append(e.pub, p.root)
			q := a.content(p)
			e.pub = append(e.pub, q.root)
			// one goroutine per object: started where the object is made
			if !inLoop(blk) {
				for _, y := range []*apath{p, q} {
					if y.root.fresh && strings.HasPrefix(y.root.id, "new "+f.fn.RelString(nil)+":") {
						if _, ok := deref(y.root.typ).Underlying().(*types.Struct); ok {
							e.conf = y.root.id
						}
					}
				}
			}
		}
		a.entries = append(a.entries, e)
		a.changed = true
	}
}

func inLoop(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if reaches(s, b) {
			return true
		}
	}
	return false
}

// callees resolves a method call on an interface value.
func (a *lockAn) callees(recv *apath, c *ssa.CallCommon) []*ssa.Function {
	var ts []types.Type
	if t := recv.typeOf(); t != nil {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			ts = []types.Type{t}
			if !types.Implements(t, c.Value.Type().Underlying().(*types.Interface)) {
				ts = nil
				if p := types.NewPointer(deref(t)); types.Implements(p, c.Value.Type().Underlying().(*types.Interface)) {
					ts = []types.Type{p}
				}
			}
		}
	}
	if ts == nil {
		ts = a.r.B.Impls(c.Value.Type())
		if recv.f != nil {
			if only, ok := a.held(recv.f, map[interface{}]bool{}); ok {
				ts = only
			}
		} else if recv.up != nil && recv.up.f != nil {
			if only, ok := a.heldElems(recv.up.f, map[interface{}]bool{}); ok {
				ts = only
			}
		}
	}
	var out []*ssa.Function
	for _, t := range ts {
		sel := a.r.P.SSA.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			continue
		}
		if fn := a.r.P.SSA.MethodValue(sel); fn != nil && fn.Blocks != nil && a.r.P.IsRepo(fn) {
			out = append(out, fn)
		}
	}
	return out
}

func (a *lockAn) byType(sig *types.Signature) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range a.byAddr {
		if types.Identical(fn.Signature, sig) {
			out = append(out, fn)
		}
	}
	return out
}

// foreign: code the library does not know runs here, and may panic.
func (a *lockAn) foreign(st *lstate, pos token.Pos, what string) {
	for _, h := range st.locks {
		if h.mode == 'O' {
			continue
		}
		if !h.def {
			a.bad("released on panic", pos, "%s stays locked if %s panics: no deferred call releases it", lockClass(h.p), what)
		} else {
			a.good("released on panic", pos, "a deferred call releases "+lockClass(h.p)+" whatever "+what+" does")
		}
	}
}

func (a *lockAn) acquire(st *lstate, p *apath, mode byte, try bool, pos token.Pos) {
	cl := lockClass(p)
	if h := st.holds(p); h != nil && !try {
		a.bad("not re-entered", pos, "%s is taken again while it is held (since %s)", cl, a.r.P.Pos(h.pos))
	}
	if !try {
		a.cur.acq[cl] = true
		for _, h := range st.locks {
			if h.p == p || h.mode == 'O' {
				continue
			}
			e := &ledge{from: lockClass(h.p), to: cl, pos: pos, path: a.trace()}
			// an ancestor of the object whose lock is held
			if h.p.up != nil && p.up != nil && h.p.f == p.f {
				for q := p.up; q != nil; q = q.up {
					if q == h.p.up && q != p.up {
						e.up = true
						for s := p.up; s != q; s = s.up {
							e.via = append(e.via, s.f)
						}
					}
				}
			}
			k := fmt.Sprintf("%s>%s %v", e.from, e.to, e.up)
			if a.edges[k] == nil {
				a.edges[k] = e
			}
		}
	}
	st.locks = append(st.locks, held{p: p, mode: mode, pos: pos})
	st.dedup()
	a.good("taken", pos, cl+" is taken")
}

func (a *lockAn) release(st *lstate, p *apath, mode byte, pos token.Pos) {
	for i := len(st.locks) - 1; i >= 0; i-- {
		h := st.locks[i]
		if h.p == p && h.mode != 'O' {
			if h.mode != mode {
				a.bad("released", pos, "%s is released in another mode than it was taken (%c)", lockClass(p), h.mode)
			}
			st.locks = append(append([]held(nil), st.locks[:i]...), st.locks[i+1:]...)
			a.good("released", pos, lockClass(p)+" is released")
			return
		}
	}
	a.bad("released", pos, "%s is released but not held", lockClass(p))
}

// concurrency-unsafe library types, whose methods change them
var unsafeLib = map[string]bool{"bytes": true, "bufio": true, "strings": true, "container/list": true, "container/ring": true,
	"container/heap": true, "math/rand": true, "archive/tar": true, "archive/zip": true, "compress/gzip": true,
	"compress/flate": true, "encoding/json": true, "encoding/gob": true, "text/tabwriter": true, "hash": true, "text/template": false}

var readingMethods = map[string]bool{"Len": true, "String": true, "Bytes": true, "Cap": true, "Front": true, "Back": true, "Next": true, "Prev": true, "Available": true, "Buffered": true, "Size": true}

func (a *lockAn) call(f *lframe, st *lstate, c *ssa.CallCommon, in ssa.Instruction, v *ssa.Call) []lexit {
	a.calls++
	pos := in.Pos()
	done := func(s *lstate, res ...*apath) []lexit { return []lexit{{s, res}} }
	var args []*apath
	for _, x := range c.Args {
		args = append(args, f.path(x))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return a.builtin(f, st, b, c, args, in)
	}
	if c.IsInvoke() {
		recv := f.path(c.Value)
		args = append([]*apath{recv}, args...)
		if known := c.Value.Type(); foreignIface(a, known) {
			a.foreign(st, pos, c.Method.Name())
		}
		fns := a.callees(recv, c)
		if recv.root.id == "const" {
			fns = nil
		} else if recv.f != nil && !readingMethods[c.Method.Name()] {
			// objects of the standard library that are not safe by themselves
			ts, _ := a.held(recv.f, map[interface{}]bool{})
			for _, t := range ts {
				if n, ok := deref(t).(*types.Named); ok && n.Obj().Pkg() != nil && unsafeLib[n.Obj().Pkg().Path()] {
					a.access(st, a.step(recv, nil), true, pos)
					break
				}
			}
		}
		return a.into(f, st, fns, args, nil, in, c.Signature())
	}
	name := calleeName(c)
	if sp := a.syncCall(f, st, name, c, args, in, v); sp != nil {
		return sp
	}
	switch cv := c.Value.(type) {
	case *ssa.Function:
		if cv.Blocks != nil && (a.r.P.IsRepo(cv) || cv.Synthetic != "" && cv.Pkg == nil && cv.Object() == nil) {
			return a.into(f, st, []*ssa.Function{cv}, args, nil, in, c.Signature())
		}
		return a.library(f, st, cv, name, c, args, in)
	case *ssa.MakeClosure:
		p := f.path(cv)
		return a.into(f, st, []*ssa.Function{p.root.fn}, args, p.root.free, in, c.Signature())
	}
	p := f.path(c.Value)
	if p.up == nil && p.root.fn != nil {
		if !a.r.P.IsRepo(p.root.fn) || p.root.fn.Blocks == nil {
			return done(st)
		}
		return a.into(f, st, []*ssa.Function{p.root.fn}, args, p.root.free, in, c.Signature())
	}
	if p.root.id == "const" && p.up == nil {
		return done(st)
	}
	if n, ok := c.Value.Type().(*types.Named); !ok || n.Obj().Pkg() == nil || !internalPkg(n.Obj().Pkg().Path()) {
		a.foreign(st, pos, "the function called")
	}
	out := a.into(f, st, a.byType(c.Signature()), args, nil, in, c.Signature())
	// whoever supplied the function made a new object
	for i := range out {
		if len(out[i].res) == 0 {
			out[i].res = a.made(f, in, c.Signature())
		}
	}
	return out
}

func (a *lockAn) made(f *lframe, in ssa.Instruction, sig *types.Signature) []*apath {
	var res []*apath
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			res = append(res, a.none())
			continue
		}
		res = append(res, a.root(fmt.Sprintf("new by call %s#%d@%d", f.fn.RelString(nil), i, in.Pos()), true, t))
	}
	return res
}

func foreignIface(a *lockAn, t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Exported() && a.r.P.IsRepoPkg(n.Obj().Pkg()) && !internalPkg(n.Obj().Pkg().Path())
}

// internalPkg: nobody outside the module can implement or supply what is declared there.
func internalPkg(path string) bool {
	for _, x := range strings.Split(path, "/") {
		if x == "internal" {
			return true
		}
	}
	return false
}

func (a *lockAn) into(f *lframe, st *lstate, fns []*ssa.Function, args, free []*apath, in ssa.Instruction, sig *types.Signature) []lexit {
	if len(fns) == 0 {
		return []lexit{{st, nil}}
	}
	var out []lexit
	seen := map[string]int{}
	for _, fn := range fns {
		for _, x := range a.analyze(fn, args, free, st) {
			k := x.st.key()
			for _, p := range x.res {
				k += "," + p.key
			}
			if i, ok := seen[k]; ok {
				out[i].st.join(x.st)
				continue
			}
			seen[k] = len(out)
			out = append(out, x)
		}
	}
	return out
}

// fieldsOf lists the fields a slice may have been read from.
func fieldsOf(v ssa.Value, seen map[ssa.Value]bool) []*types.Var {
	if seen[v] || len(seen) > 40 {
		return nil
	}
	seen[v] = true
	var out []*types.Var
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, fieldsOf(e, seen)...)
		}
	case *ssa.Slice:
		return fieldsOf(x.X, seen)
	case *ssa.ChangeType:
		return fieldsOf(x.X, seen)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				out = append(out, structOf(fa.X.Type()).Field(fa.Field))
			}
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == al {
					out = append(out, fieldsOf(s.Val, seen)...)
				}
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return resultFields(c, x.Index, seen)
		}
	case *ssa.Call:
		return resultFields(x, 0, seen)
	}
	return out
}

func resultFields(c *ssa.Call, i int, seen map[ssa.Value]bool) []*types.Var {
	var out []*types.Var
	fn := c.Call.StaticCallee()
	if fn == nil {
		return nil
	}
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			out = append(out, fieldsOf(ret.Results[i], seen)...)
		}
	}
	return out
}

// elemRead records that an element of a field's slice is read.
func (a *lockAn) elemRead(st *lstate, f *types.Var, p *apath, pos token.Pos) {
	if a.cur.init || !a.shared(st, p) {
		return
	}
	loc, name := fieldKey(f)+"[*]", declName(f)+"[*]"
	ls := map[string]byte{}
	var lk []string
	for _, h := range st.locks {
		c := lockClass(h.p)
		if ls[c] != 'W' {
			ls[c] = h.mode
		}
	}
	for c, m := range ls {
		lk = append(lk, c+string(m))
	}
	sort.Strings(lk)
	k := fmt.Sprintf("%s|%v|%d|%s|", loc, false, pos, strings.Join(lk, ","))
	if a.acc[k] == nil {
		a.acc[k] = &laccess{loc: loc, name: name, locks: ls, pos: pos, fn: a.stack[len(a.stack)-1], entry: a.cur.name, path: a.trace()}
	}
}

// overwrites: appending to the slice may write over elements it was cut from.
func overwrites(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		_, ok := x.X.Type().Underlying().(*types.Slice)
		return ok && x.Max == nil && (x.High != nil || overwrites(x.X, seen))
	case *ssa.ChangeType:
		return overwrites(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if overwrites(e, seen) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return overwrites(x.Call.Args[0], seen)
		}
	}
	return false
}

func (a *lockAn) builtin(f *lframe, st *lstate, b *ssa.Builtin, c *ssa.CallCommon, args []*apath, in ssa.Instruction) []lexit {
	pos := in.Pos()
	switch b.Name() {
	case "append":
		res := args[0]
		if res.root.id == "const" {
			if v, ok := in.(ssa.Value); ok {
				res = a.root("new "+f.siteID(v), true, v.Type())
			}
		}
		if overwrites(c.Args[0], map[ssa.Value]bool{}) {
			a.access(st, a.step(args[0], nil), true, pos)
		}
		st = st.clone()
		if len(args) > 1 {
			a.stored(st, a.step(res, nil), a.content(a.step(args[1], nil)))
		}
		return []lexit{{st, []*apath{res}}}
	case "delete", "clear":
		a.access(st, a.step(args[0], nil), true, pos)
	case "copy":
		a.access(st, a.step(args[0], nil), true, pos)
		a.access(st, a.step(args[1], nil), false, pos)
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			a.access(st, a.step(args[0], nil), false, pos)
		}
	case "close":
		a.signals("send", args[0])
	}
	return []lexit{{st, nil}}
}

func (a *lockAn) syncCall(f *lframe, st *lstate, name string, c *ssa.CallCommon, args []*apath, in ssa.Instruction, v *ssa.Call) []lexit {
	pos := in.Pos()
	one := func(s *lstate) []lexit { return []lexit{{s, nil}} }
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		st = st.clone()
		a.acquire(st, args[0], 'W', false, pos)
		return one(st)
	case "(*sync.RWMutex).RLock":
		st = st.clone()
		a.acquire(st, args[0], 'R', false, pos)
		return one(st)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		st = st.clone()
		a.release(st, args[0], 'W', pos)
		return one(st)
	case "(*sync.RWMutex).RUnlock":
		st = st.clone()
		a.release(st, args[0], 'R', pos)
		return one(st)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		mode := byte('W')
		if strings.HasSuffix(name, "TryRLock") {
			mode = 'R'
		}
		y, n := st.clone(), st.clone()
		a.acquire(y, args[0], mode, true, pos)
		if v != nil {
			y.try[v], n.try[v] = true, false
		}
		return []lexit{{y, nil}, {n, nil}}
	case "(*sync.WaitGroup).Wait":
		a.wait(st, "wait", args[0], pos)
		return one(st)
	case "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Add":
		a.signals("done", args[0])
		return one(st)
	case "(*sync.WaitGroup).Go":
		a.signals("done", args[0])
		return nil
	case "(*sync.Once).Do":
		st = st.clone()
		p := args[1]
		if p.root.fn == nil || p.up != nil {
			a.foreign(st, pos, "the function called")
			return one(st)
		}
		st.locks = append(st.locks, held{p: args[0], mode: 'W', def: true, pos: pos})
		var out []lexit
		for _, x := range a.into(f, st, []*ssa.Function{p.root.fn}, nil, p.root.free, in, p.root.fn.Signature) {
			s := x.st.clone()
			for i := len(s.locks) - 1; i >= 0; i-- {
				if s.locks[i].p == args[0] && s.locks[i].mode == 'W' {
					s.locks[i].mode = 'O'
					break
				}
			}
			// one token is enough
			for i := range s.locks {
				for j := i + 1; j < len(s.locks); j++ {
					if s.locks[i].p == s.locks[j].p && s.locks[i].mode == 'O' && s.locks[j].mode == 'O' {
						s.locks = append(s.locks[:j:j], s.locks[j+1:]...)
						break
					}
				}
			}
			out = append(out, lexit{s, nil})
		}
		return out
	}
	return nil
}

// library models a call of a function whose source is not the repository's.
func (a *lockAn) library(f *lframe, st *lstate, fn *ssa.Function, name string, c *ssa.CallCommon, args []*apath, in ssa.Instruction) []lexit {
	pos := in.Pos()
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if pkg == "sync" || pkg == "sync/atomic" {
		return []lexit{{st, nil}}
	}
	if fn.Signature.Recv() != nil && len(args) > 0 && unsafeLib[pkg] {
		_, isPtr := fn.Signature.Recv().Type().Underlying().(*types.Pointer)
		a.access(st, args[0], isPtr && !readingMethods[fn.Name()], pos)
	}
	// the address of a variable is given away
	for i, x := range c.Args {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		}
		switch y := x.(type) {
		case *ssa.FieldAddr, *ssa.Global, *ssa.IndexAddr:
			if _, isS := deref(y.Type()).Underlying().(*types.Struct); !isS || !syncType(deref(y.Type())) {
				a.access(st, f.path(y), true, pos)
			}
		}
	}
	st = st.clone()
	// functions given away are called here, or later in another goroutine
	sts := []lexit{{st, nil}}
	for _, p := range args {
		if p.up != nil || p.root.fn == nil || p.root.fn.Blocks == nil || !a.r.P.IsRepo(p.root.fn) {
			continue
		}
		if name == "time.AfterFunc" || strings.HasPrefix(name, "runtime.") || name == "context.AfterFunc" {
			for _, q := range p.root.free {
				a.publish(st, q.root)
			}
			a.spawned(f, []*ssa.Function{p.root.fn}, nil, p.root.free, pos, in.Block())
			continue
		}
		var ps []*apath
		for range p.root.fn.Params {
			ps = append(ps, a.none())
		}
		var next []lexit
		for _, s := range sts {
			for _, x := range a.into(f, s.st, []*ssa.Function{p.root.fn}, ps, p.root.free, in, p.root.fn.Signature) {
				next = append(next, lexit{x.st, nil})
			}
		}
		sts = next
	}
	// what the library returns is a new object
	for i := range sts {
		sts[i].res = a.made(f, in, fn.Signature)
	}
	return sts
}

// ---- the whole program

func (r *Run) lockAnalysis() *lockAn {
	a := &lockAn{r: r, roots: map[string]*aroot{}, paths: map[string]*apath{}, cont: map[string]*apath{}, links: map[string]map[string]bool{},
		resChg: map[string]*apath{}, seenGo: map[string]bool{}, fns: map[*ssa.Function]bool{}}
	seen := map[*ssa.Function]bool{}
	r.P.instrs(func(f *ssa.Function, in ssa.Instruction) {
		var callee ssa.Value
		if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
			callee = c.Common().Value
		}
		for _, op := range in.Operands(nil) {
			if op == nil || *op == callee {
				continue
			}
			fn, ok := (*op).(*ssa.Function)
			if ok && fn.Blocks != nil && r.P.IsRepo(fn) && !seen[fn] {
				seen[fn] = true
				a.byAddr = append(a.byAddr, fn)
			}
		}
	})
	a.lockEntries()
	debug := os.Getenv("VERIF_DEBUG") != ""
	for round := 0; round < 40; round++ {
		a.changed = false
		a.acc, a.edges, a.waits = map[string]*laccess{}, map[string]*ledge{}, map[string]*lwait{}
		a.memo, a.viol, a.okAt = map[string][]lexit{}, map[string]*Violation{}, map[string]token.Pos{}
		a.states = 0
		for i := 0; i < len(a.entries); i++ {
			e := a.entries[i]
			a.cur = e
			e.acq, e.sig = map[string]bool{}, map[string]bool{}
			st := &lstate{pub: map[string]string{}, try: map[ssa.Value]bool{}}
			for _, x := range e.pub {
				a.publish(st, x)
			}
			for _, x := range a.analyze(e.fn, e.args, e.free, st) {
				for _, h := range x.st.locks {
					if h.mode != 'O' {
						a.stack = []*ssa.Function{e.fn}
						a.bad("released", h.pos, "%s taken here is still held when %s returns", lockClass(h.p), e.name)
						a.stack = nil
					}
				}
			}
			if debug {
				fmt.Fprintf(os.Stderr, "round %d %s: %d states, %d memo\n", round, e.name, a.states, len(a.memo))
			}
			if a.over != "" {
				r.bad("undecided", e.fn.Pos(), nil, "%s", a.over)
				return a
			}
		}
		if !a.changed {
			break
		}
		if round == 39 {
			r.bad("undecided", token.NoPos, nil, "the lock analysis does not reach a fixpoint")
		}
	}
	for f := range a.fns {
		r.fns[f] = true
	}
	r.sts += a.states
	r.ents += len(a.entries)
	return a
}

// lockEntries lists everything that can run concurrently.
func (a *lockAn) lockEntries() {
	r := a.r
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function, init bool) {
		if fn == nil || fn.Blocks == nil || seen[fn] {
			return
		}
		seen[fn] = true
		e := &lentry{name: fn.RelString(nil), fn: fn, init: init, acq: map[string]bool{}, sig: map[string]bool{}}
		for i, p := range fn.Params {
			id := fmt.Sprintf("%s of %s", p.Name(), fn.RelString(nil))
			if i == 0 && fn.Signature.Recv() != nil {
				id = "receiver"
				id = fmt.Sprintf("(%s)", types.TypeString(p.Type(), func(*types.Package) string { return "" }))
			}
			e.args = append(e.args, a.root(id, false, p.Type()))
		}
		a.entries = append(a.entries, e)
	}
	var ifs []types.Type
	for _, n := range []string{"Logger", "Writer", "Factory", "Manager", "Output", "Formatter"} {
		if t := r.apiType(n); t != nil {
			ifs = append(ifs, t)
		}
	}
	methods := func(it types.Type, skip string) {
		i := it.Underlying().(*types.Interface)
		for _, t := range r.B.Impls(it) {
			for k := 0; k < i.NumMethods(); k++ {
				if i.Method(k).Name() != skip {
					add(r.method(t, i.Method(k).Name()), false)
				}
			}
		}
	}
	for _, t := range ifs {
		skip := ""
		if r.apiType("Output") == t {
			skip = "SetFormatter" // before the output is used
		}
		methods(t, skip)
	}
	for _, f := range r.P.Funcs {
		if f.Pkg == nil || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		if f.Name() == "init" && f.Synthetic != "" {
			add(f, true)
			continue
		}
		if strings.Contains(f.Pkg.Pkg.Path()+"/", "/internal/") || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || strings.HasPrefix(f.Name(), "Test") {
			continue
		}
		if recv := f.Signature.Recv(); recv != nil {
			if n, ok := deref(recv.Type()).(*types.Named); !ok || !n.Obj().Exported() {
				continue
			}
		}
		add(f, false)
	}
}

// backPointers lists the fields of a part that name the object it is part of:
// field of the part -> field of the whole. Every store of it must agree.
func (a *lockAn) backPointers() map[*types.Var]*types.Var {
	if a.backs != nil {
		return a.backs
	}
	a.backs = map[*types.Var]*types.Var{}
	bad := map[*types.Var]bool{}
	a.r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		g := structOf(fa.X.Type()).Field(fa.Field)
		v := st.Val
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		var of *types.Var
		// part loaded from the whole, or stored in it
		if u, ok := fa.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			if w, ok := u.X.(*ssa.FieldAddr); ok && w.X == v {
				of = structOf(w.X.Type()).Field(w.Field)
			}
		}
		if refs := fa.X.Referrers(); of == nil && refs != nil {
			for _, ref := range *refs {
				if s, ok := ref.(*ssa.Store); ok && s.Val == fa.X {
					if w, ok := s.Addr.(*ssa.FieldAddr); ok && w.X == v {
						of = structOf(w.X.Type()).Field(w.Field)
					}
				}
			}
		}
		if old, had := a.backs[g]; of == nil || had && old != of {
			bad[g] = true
			return
		}
		a.backs[g] = of
	})
	for g := range bad {
		delete(a.backs, g)
	}
	return a.backs
}

func fieldKey(f *types.Var) string { return fmt.Sprintf("%p", f) }

func sorted(m map[string]token.Pos) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// held: the types of the repository a field of interface type can hold.
func (a *lockAn) held(f *types.Var, seen map[interface{}]bool) ([]types.Type, bool) {
	if seen[f] {
		return nil, true
	}
	seen[f] = true
	var out []types.Type
	for _, v := range a.stores()[f] {
		ts, ok := a.dynTypes(v, seen)
		if !ok {
			return nil, false
		}
		out = append(out, ts...)
	}
	return uniqueTypes(out), true
}

// heldElems: the types of the elements of a field holding a slice.
func (a *lockAn) heldElems(f *types.Var, seen map[interface{}]bool) ([]types.Type, bool) {
	if _, ok := f.Type().Underlying().(*types.Slice); !ok {
		return nil, false
	}
	if seen[f] {
		return nil, true
	}
	seen[f] = true
	var out []types.Type
	for _, v := range a.stores()[f] {
		ts, ok := a.elemTypes(v, seen)
		if !ok {
			return nil, false
		}
		out = append(out, ts...)
	}
	return uniqueTypes(out), true
}

// elemTypes: the types the elements of a slice can have, going by how the
// slice is made.
func (a *lockAn) elemTypes(v ssa.Value, seen map[interface{}]bool) ([]types.Type, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	both := func(vs []ssa.Value) ([]types.Type, bool) {
		var out []types.Type
		for _, e := range vs {
			ts, ok := a.elemTypes(e, seen)
			if !ok {
				return nil, false
			}
			out = append(out, ts...)
		}
		return out, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.Phi:
		return both(x.Edges)
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return both(x.Common().Args)
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return a.heldElems(structOf(fa.X.Type()).Field(fa.Field), seen)
		}
	case *ssa.Parameter:
		return a.argTypes(x, seen, a.elemTypes)
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return a.elemTypes(x.X, seen)
		}
		var out []types.Type
		for _, ref := range *al.Referrers() {
			switch y := ref.(type) {
			case *ssa.Slice, *ssa.DebugRef:
			case *ssa.IndexAddr:
				for _, r2 := range *y.Referrers() {
					s, ok := r2.(*ssa.Store)
					if !ok || s.Addr != y {
						return nil, false
					}
					ts, ok := a.dynTypes(s.Val, seen)
					if !ok {
						return nil, false
					}
					out = append(out, ts...)
				}
			default:
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

// argTypes follows a parameter to the arguments of the calls of its function.
func (a *lockAn) argTypes(x *ssa.Parameter, seen map[interface{}]bool, of func(ssa.Value, map[interface{}]bool) ([]types.Type, bool)) ([]types.Type, bool) {
	fn := x.Parent()
	a.stores()
	for _, g := range a.byAddr {
		if g == fn {
			return nil, false
		}
	}
	if fn.Signature.Recv() != nil || fn.Parent() != nil {
		return nil, false // possibly called through an interface
	}
	i := -1
	for j, p := range fn.Params {
		if p == x {
			i = j
		}
	}
	var out []types.Type
	for _, as := range a.callers[fn] {
		ts, ok := of(as[i], seen)
		if !ok {
			return nil, false
		}
		out = append(out, ts...)
	}
	return out, true
}

func uniqueTypes(ts []types.Type) []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	for _, t := range ts {
		if k := typKey(t); !seen[k] {
			seen[k] = true
			out = append(out, t)
		}
	}
	return out
}

// stores: what is stored in each field anywhere.
func (a *lockAn) stores() map[*types.Var][]ssa.Value {
	if a.allStores == nil {
		a.allStores = map[*types.Var][]ssa.Value{}
		a.callers = map[*ssa.Function][][]ssa.Value{}
		a.r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					v := structOf(fa.X.Type()).Field(fa.Field)
					a.allStores[v] = append(a.allStores[v], x.Val)
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil {
					a.callers[g] = append(a.callers[g], x.Common().Args)
				}
			}
		})
	}
	return a.allStores
}

// dynTypes: the types of the repository a value of interface type can have.
func (a *lockAn) dynTypes(v ssa.Value, seen map[interface{}]bool) ([]types.Type, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}, true
	case *ssa.ChangeInterface:
		return a.dynTypes(x.X, seen)
	case *ssa.TypeAssert:
		return a.dynTypes(x.X, seen)
	case *ssa.Phi:
		var out []types.Type
		for _, e := range x.Edges {
			ts, ok := a.dynTypes(e, seen)
			if !ok {
				return nil, false
			}
			out = append(out, ts...)
		}
		return out, true
	case *ssa.Parameter:
		return a.argTypes(x, seen, a.dynTypes)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.resTypes(c, x.Index, seen)
		}
	case *ssa.Call:
		return a.resTypes(x, 0, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return a.held(structOf(y.X.Type()).Field(y.Field), seen)
		case *ssa.Alloc:
			var out []types.Type
			for _, ref := range *y.Referrers() {
				switch s := ref.(type) {
				case *ssa.Store:
					if s.Addr != y {
						return nil, false
					}
					ts, ok := a.dynTypes(s.Val, seen)
					if !ok {
						return nil, false
					}
					out = append(out, ts...)
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return nil, false
				}
			}
			return out, true
		case *ssa.Global:
			if y.Pkg != nil && !a.r.P.Repo[y.Pkg] {
				return nil, true // of the library
			}
		}
	}
	return nil, false
}

func (a *lockAn) resTypes(c *ssa.Call, i int, seen map[interface{}]bool) ([]types.Type, bool) {
	fn := c.Common().StaticCallee()
	if fn == nil {
		return nil, false
	}
	if !a.r.P.IsRepo(fn) {
		return nil, true // a type of the library
	}
	if fn.Blocks == nil {
		return nil, false
	}
	var out []types.Type
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				ts, ok := a.dynTypes(ret.Results[i], seen)
				if !ok {
					return nil, false
				}
				out = append(out, ts...)
			}
		}
	}
	return out, true
}
