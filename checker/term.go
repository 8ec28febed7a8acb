package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// A Term is an abstract value: a hash-consed name for "the value computed this
// way". Equal terms denote equal values (global value numbering); different
// terms may or may not be equal, what is known about that is kept as facts.
type Term struct {
	id   int
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	Obj  interface{} // *ssa.Function for func/closure, constant.Value for const, *ssa.Global
	K    []int64     // lin: coefficients
	C    int64       // lin: constant; field/faddr: index
	syms []*Term     // site symbols (terms that a state may have to rename) inside
	size int
}

// Terms is the interner.
type Terms struct {
	tab map[string]*Term
	all []*Term
}

var T = &Terms{tab: map[string]*Term{}}

func (ts *Terms) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	return ts.mkFull(op, aux, typ, nil, nil, 0, args)
}

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (ts *Terms) mkFull(op, aux string, typ types.Type, obj interface{}, k []int64, c int64, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(c, 10))
	for _, x := range k {
		sb.WriteByte(';')
		sb.WriteString(strconv.FormatInt(x, 10))
	}
	if op == "mki" || op == "const" || op == "conv" || op == "sym" {
		sb.WriteByte('|')
		sb.WriteString(typKey(typ))
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{id: len(ts.all) + 1, Op: op, Aux: aux, Args: args, Typ: typ, Obj: obj, K: k, C: c, size: 1}
	seen := map[*Term]bool{}
	for _, a := range args {
		t.size += a.size
		for _, s := range a.syms {
			if !seen[s] {
				seen[s] = true
				t.syms = append(t.syms, s)
			}
		}
	}
	if op == "old" || op == "top" {
		t.syms = nil
	}
	if isSymOp(op) {
		t.syms = append(t.syms, t)
	}
	ts.tab[key] = t
	ts.all = append(ts.all, t)
	return t
}

// isSymOp: the terms bound to a program site, which name the value of the
// latest execution of that site.
func isSymOp(op string) bool {
	switch op {
	case "sym", "alloc", "old", "top":
		return true
	}
	return false
}

// ---- constructors

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return nilTerm
	}
	b, _ := typ.Underlying().(*types.Basic)
	if b != nil && b.Info()&types.IsInteger != 0 {
		if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return intTerm(i)
		}
	}
	switch v.Kind() {
	case constant.Bool:
		return boolTerm(constant.BoolVal(v))
	case constant.String:
		return strTerm(constant.StringVal(v))
	}
	return T.mkFull("const", v.ExactString(), nil, v, nil, 0, nil)
}

var (
	nilTerm   = T.mk("nil", "", nil)
	trueTerm  = T.mk("bool", "true", nil)
	falseTerm = T.mk("bool", "false", nil)
)

func boolTerm(b bool) *Term {
	if b {
		return trueTerm
	}
	return falseTerm
}

func strTerm(s string) *Term { return T.mk("str", s, nil) }

func intTerm(i int64) *Term { return T.mkFull("int", "", nil, nil, nil, i, nil) }

func (t *Term) isInt() bool  { return t.Op == "int" }
func (t *Term) isStr() bool  { return t.Op == "str" }
func (t *Term) isBool() bool { return t.Op == "bool" }
func (t *Term) isConst() bool {
	switch t.Op {
	case "int", "str", "bool", "nil", "const":
		return true
	}
	return false
}

// linear form of an integer term
type lin struct {
	c int64
	k map[*Term]int64
}

func toLin(t *Term) lin {
	switch t.Op {
	case "int":
		return lin{c: t.C, k: map[*Term]int64{}}
	case "lin":
		m := make(map[*Term]int64, len(t.Args))
		for i, a := range t.Args {
			m[a] = t.K[i]
		}
		return lin{c: t.C, k: m}
	}
	return lin{k: map[*Term]int64{t: 1}}
}

func (l lin) term() *Term {
	var as []*Term
	for a, k := range l.k {
		if k != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 0 {
		return intTerm(l.c)
	}
	if len(as) == 1 && l.c == 0 && l.k[as[0]] == 1 {
		return as[0]
	}
	ks := make([]int64, len(as))
	for i, a := range as {
		ks[i] = l.k[a]
	}
	return T.mkFull("lin", "", nil, nil, ks, l.c, as)
}

func linAdd(a, b *Term, kb int64) *Term {
	x, y := toLin(a), toLin(b)
	r := lin{c: x.c + kb*y.c, k: x.k}
	for t, k := range y.k {
		r.k[t] += kb * k
	}
	return r.term()
}

func add(a, b *Term) *Term { return linAdd(a, b, 1) }
func sub(a, b *Term) *Term { return linAdd(a, b, -1) }
func mulc(a *Term, k int64) *Term {
	x := toLin(a)
	x.c *= k
	for t := range x.k {
		x.k[t] *= k
	}
	return x.term()
}

// catTerm is string concatenation, flattened, constants folded.
func catTerm(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		ps := []*Term{p}
		if p.Op == "cat" {
			ps = p.Args
		}
		for _, q := range ps {
			if q.isStr() && q.Aux == "" {
				continue
			}
			if n := len(out); n > 0 && q.isStr() && out[n-1].isStr() {
				out[n-1] = strTerm(out[n-1].Aux + q.Aux)
				continue
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return strTerm("")
	case 1:
		return out[0]
	}
	return T.mk("cat", "", nil, out...)
}

func catParts(t *Term) []*Term {
	if t.Op == "cat" {
		return t.Args
	}
	if t.isStr() && t.Aux == "" {
		return nil
	}
	return []*Term{t}
}

func lenTerm(t *Term) *Term {
	switch t.Op {
	case "str":
		return intTerm(int64(len(t.Aux)))
	case "nil":
		return intTerm(0)
	case "cat":
		r := intTerm(0)
		for _, a := range t.Args {
			r = add(r, lenTerm(a))
		}
		return r
	case "list":
		return intTerm(int64(len(t.Args)))
	case "append":
		return add(lenTerm(t.Args[0]), intTerm(int64(len(t.Args)-1)))
	case "appendall":
		return add(lenTerm(t.Args[0]), lenTerm(t.Args[1]))
	case "slice":
		x, lo, hi := t.Args[0], t.Args[1], t.Args[2]
		if hi == nilTerm {
			hi = lenTerm(x)
		}
		if lo == nilTerm {
			lo = intTerm(0)
		}
		return sub(hi, lo)
	case "conv":
		if isStringOrBytes(t.Typ) && len(t.Args) == 1 {
			return lenTerm(t.Args[0])
		}
	case "alloc":
		if t.Typ != nil {
			if a, ok := t.Typ.Underlying().(*types.Array); ok {
				return intTerm(a.Len())
			}
		}
	case "mkslice":
		return t.Args[1]
	}
	return T.mk("len", "", nil, t)
}

func isStringOrBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
	}
	return false
}

// sliceTerm is x[lo:hi], simplified for concatenations cut at a part boundary.
func sliceTerm(x, lo, hi *Term) *Term {
	if lo != nilTerm && lo.isInt() && lo.C == 0 {
		lo = nilTerm
	}
	if hi != nilTerm && hi == lenTerm(x) {
		hi = nilTerm
	}
	if lo == nilTerm && hi == nilTerm && x.Op != "alloc" && x.Op != "faddr" && x.Op != "iaddr" {
		return x
	}
	if x.isStr() {
		l, h := int64(0), int64(len(x.Aux))
		ok := true
		if lo != nilTerm {
			if lo.isInt() {
				l = lo.C
			} else {
				ok = false
			}
		}
		if hi != nilTerm {
			if hi.isInt() {
				h = hi.C
			} else {
				ok = false
			}
		}
		if ok && 0 <= l && l <= h && h <= int64(len(x.Aux)) {
			return strTerm(x.Aux[l:h])
		}
	}
	if x.Op == "cat" {
		// try every pair of part boundaries
		n := len(x.Args)
		pos := intTerm(0)
		from, to := -1, -1
		if lo == nilTerm {
			from = 0
		}
		if hi == nilTerm {
			to = n
		}
		for i := 0; i <= n; i++ {
			if lo != nilTerm && pos == lo {
				from = i
			}
			if hi != nilTerm && pos == hi {
				to = i
			}
			if i < n {
				pos = add(pos, lenTerm(x.Args[i]))
			}
		}
		if from >= 0 && to >= from {
			return catTerm(x.Args[from:to]...)
		}
	}
	if x.Op == "slice" {
		// (y[a:b])[lo:hi]
		y, a, b := x.Args[0], x.Args[1], x.Args[2]
		base := intTerm(0)
		if a != nilTerm {
			base = a
		}
		nlo, nhi := base, b
		if lo != nilTerm {
			nlo = add(base, lo)
		}
		if hi != nilTerm {
			nhi = add(base, hi)
		}
		return sliceTerm(y, nlo, nhi)
	}
	return T.mk("slice", "", nil, x, lo, hi)
}

// faddr is the address of field v (the idx-th) of the struct at base.
func faddr(base *Term, idx int, v *types.Var) *Term {
	t := T.mkFull("faddr", "", nil, v, nil, int64(idx), []*Term{base})
	if t.Obj == nil || t.Obj.(*types.Var) == nil {
		t.Obj = v
	}
	return t
}

// fieldVar is the field an address or field-read term selects.
func fieldVar(t *Term) *types.Var {
	if v, ok := t.Obj.(*types.Var); ok {
		return v
	}
	return nil
}

func iaddr(base, idx *Term) *Term {
	if base.Op == "slice" {
		lo := base.Args[1]
		if lo == nilTerm {
			return iaddr(base.Args[0], idx)
		}
		return iaddr(base.Args[0], add(lo, idx))
	}
	return T.mk("iaddr", "", nil, base, idx)
}

func fieldOf(x *Term, idx int, v *types.Var) *Term {
	switch x.Op {
	case "mk":
		if idx < len(x.Args) {
			return x.Args[idx]
		}
	case "zero":
		if v != nil {
			return zeroTerm(v.Type())
		}
	case "ld":
		// part of what was read as a whole: the same as reading the part
		if v != nil {
			t := T.mk("ld", "", v.Type(), append([]*Term{faddr(x.Args[0], idx, v)}, x.Args[1:]...)...)
			if t.Typ == nil {
				t.Typ = v.Type()
			}
			return t
		}
	}
	t := T.mkFull("field", "", nil, v, nil, int64(idx), []*Term{x})
	if t.Obj == nil || t.Obj.(*types.Var) == nil {
		t.Obj = v
	}
	return t
}

// zeroTerm is the zero value of a type.
func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return intTerm(0)
		case u.Info()&types.IsString != 0:
			return strTerm("")
		case u.Info()&types.IsBoolean != 0:
			return falseTerm
		case u.Kind() == types.UnsafePointer:
			return nilTerm
		}
		return T.mk("const", "0", nil)
	case *types.Struct, *types.Array:
		return T.mk("zero", typKey(t), t)
	}
	return nilTerm
}

func extTerm(x *Term, i int) *Term {
	if x.Op == "tuple" {
		return x.Args[i]
	}
	return T.mkFull("ext", "", nil, nil, nil, int64(i), []*Term{x})
}

func notTerm(t *Term) *Term {
	switch {
	case t == trueTerm:
		return falseTerm
	case t == falseTerm:
		return trueTerm
	case t.Op == "not":
		return t.Args[0]
	}
	return T.mk("not", "", nil, t)
}

// root returns the base object of an address term.
func root(t *Term) *Term {
	for t.Op == "faddr" || t.Op == "iaddr" {
		t = t.Args[0]
	}
	return t
}

// ---- substitution

type substMap map[*Term]*Term

func (m substMap) apply(t *Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 || t.Op == "old" || t.Op == "top" {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = m.apply(a, memo)
		if as[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

// rebuild makes the term like t with other arguments, re-normalised.
func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "lin":
		r := intTerm(t.C)
		for i, a := range as {
			r = linAdd(r, a, t.K[i])
		}
		return r
	case "cat":
		return catTerm(as...)
	case "len":
		return lenTerm(as[0])
	case "slice":
		return sliceTerm(as[0], as[1], as[2])
	case "iaddr":
		return iaddr(as[0], as[1])
	case "field":
		return fieldOf(as[0], int(t.C), fieldVar(t))
	case "ext":
		return extTerm(as[0], int(t.C))
	case "not":
		return notTerm(as[0])
	case "lt0":
		return lt0(as[0])
	case "eq":
		return eqTerm(as[0], as[1])
	case "call":
		return pureCall(t.Aux, as)
	}
	r := T.mkFull(t.Op, t.Aux, t.Typ, t.Obj, t.K, t.C, as)
	if r.Typ == nil {
		r.Typ = t.Typ
	}
	return r
}

func (t *Term) hasSym(s *Term) bool {
	for _, x := range t.syms {
		if x == s {
			return true
		}
	}
	return false
}

// contains reports whether s is a subterm of t.
func (t *Term) contains(s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if a.contains(s) {
			return true
		}
	}
	return false
}

// ---- comparison atoms

// lt0 is the atom "d < 0" for an integer term d.
func lt0(d *Term) *Term {
	if d.isInt() {
		return boolTerm(d.C < 0)
	}
	return T.mk("lt0", "", nil, d)
}

// eqTerm is the atom a == b.
func eqTerm(a, b *Term) *Term {
	if a == b {
		return trueTerm
	}
	if isIntish(a) || isIntish(b) {
		d := sub(a, b)
		if d.isInt() {
			return boolTerm(d.C == 0)
		}
		// normalise the sign
		if d.Op == "lin" && d.K[0] < 0 {
			d = mulc(d, -1)
		}
		return T.mk("eq", "", nil, d, intTerm(0))
	}
	if a.isConst() && b.isConst() {
		return falseTerm
	}
	if a.isStr() && a.Aux == "" {
		return eqTerm(lenTerm(b), intTerm(0))
	}
	if b.isStr() && b.Aux == "" {
		return eqTerm(lenTerm(a), intTerm(0))
	}
	if a.isBool() {
		a, b = b, a
	}
	if b == trueTerm {
		return a
	}
	if b == falseTerm {
		return notTerm(a)
	}
	if cannotBeStr(a, b) || cannotBeStr(b, a) {
		return falseTerm
	}
	if a == nilTerm {
		a, b = b, a
	}
	if b == nilTerm && nonNil(a) {
		return falseTerm
	}
	if a.Op == "mki" && b.Op == "mki" {
		if typKey(a.Typ) != typKey(b.Typ) {
			return falseTerm
		}
		return eqTerm(a.Args[0], b.Args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk("eq", "", nil, a, b)
}

// cannotBeStr: a constant text that a concatenation is not, whatever its
// unknown pieces are.
func cannotBeStr(c, s *Term) bool {
	if !c.isStr() || s.Op != "cat" {
		return false
	}
	n := 0
	for i, p := range s.Args {
		if !p.isStr() {
			continue
		}
		n += len(p.Aux)
		if i == 0 && !strings.HasPrefix(c.Aux, p.Aux) || i == len(s.Args)-1 && !strings.HasSuffix(c.Aux, p.Aux) {
			return true
		}
	}
	return n > len(c.Aux)
}

func isIntish(t *Term) bool { return t.Op == "int" || t.Op == "lin" || t.Op == "len" }

func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "mki", "func", "closure", "faddr", "iaddr", "global", "mkslice", "mkmap", "mkchan", "append", "recvobj", "list":
		return true
	case "slice":
		return nonNil(t.Args[0])
	case "old":
		return nonNil(t.Args[0])
	case "call":
		return t.Aux == "fmt.Errorf" || t.Aux == "errors.New"
	}
	return false
}

// ---- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d > 8 {
		return "…"
	}
	args := func() string {
		s := make([]string, len(t.Args))
		for i, a := range t.Args {
			s[i] = a.str(d + 1)
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "int":
		return strconv.FormatInt(t.C, 10)
	case "str":
		return strconv.Quote(t.Aux)
	case "bool", "const":
		return t.Aux
	case "nil":
		return "nil"
	case "lin":
		var sb strings.Builder
		for i, a := range t.Args {
			k := t.K[i]
			switch {
			case k == 1 && i == 0:
			case k == 1:
				sb.WriteString("+")
			case k == -1:
				sb.WriteString("-")
			default:
				fmt.Fprintf(&sb, "%+d*", k)
			}
			sb.WriteString(a.str(d + 1))
		}
		if t.C != 0 {
			fmt.Fprintf(&sb, "%+d", t.C)
		}
		return sb.String()
	case "cat":
		s := make([]string, len(t.Args))
		for i, a := range t.Args {
			s[i] = a.str(d + 1)
		}
		return strings.Join(s, "+")
	case "param", "global", "func", "sym", "alloc":
		return t.Aux
	case "faddr":
		return "&" + t.Args[0].str(d+1) + "." + fieldName(t)
	case "field":
		return t.Args[0].str(d+1) + "." + fieldName(t)
	case "iaddr":
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "maddr":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "ld":
		s := t.Args[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		return s
	case "ext":
		return t.Args[0].str(d+1) + "#" + strconv.FormatInt(t.C, 10)
	case "mki":
		return t.Args[0].str(d + 1)
	case "not":
		return "!" + t.Args[0].str(d+1)
	case "lt0":
		return t.Args[0].str(d+1) + " < 0"
	case "eq":
		return t.Args[0].str(d+1) + " == " + t.Args[1].str(d+1)
	case "call":
		return t.Aux + "(" + args() + ")"
	case "old":
		return "previous " + t.Args[0].str(d+1)
	case "top":
		return "earlier " + t.Aux
	case "slice":
		lo, hi := "", ""
		if t.Args[1] != nilTerm {
			lo = t.Args[1].str(d + 1)
		}
		if t.Args[2] != nilTerm {
			hi = t.Args[2].str(d + 1)
		}
		return t.Args[0].str(d+1) + "[" + lo + ":" + hi + "]"
	}
	s := t.Op
	if t.Aux != "" {
		s += "[" + t.Aux + "]"
	}
	return s + "(" + args() + ")"
}

func fieldName(t *Term) string {
	if v := fieldVar(t); v != nil {
		return v.Name()
	}
	return "f" + strconv.FormatInt(t.C, 10)
}
