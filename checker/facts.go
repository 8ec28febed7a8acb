package main

import (
	"sort"
	"strings"
)

// Facts is a conjunction of atoms known true or false at a program point.
type Facts map[*Term]bool

func (f Facts) clone() Facts {
	g := make(Facts, len(f))
	for k, v := range f {
		g[k] = v
	}
	return g
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// ---- the zone (difference bound) domain over the integer facts

const inf = int64(1) << 60

// zone holds upper bounds on differences of integer atoms; node 0 is zero.
type zone struct {
	idx map[*Term]int
	ub  [][]int64 // ub[i][j]: upper bound of x_i - x_j
}

func (z *zone) node(t *Term) int {
	if i, ok := z.idx[t]; ok {
		return i
	}
	n := len(z.ub)
	z.idx[t] = n
	for i := range z.ub {
		z.ub[i] = append(z.ub[i], inf)
	}
	row := make([]int64, n+1)
	for i := range row {
		row[i] = inf
	}
	row[n] = 0
	z.ub = append(z.ub, row)
	return n
}

func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	return a + b
}

func (z *zone) add(i, j int, c int64) {
	if c < z.ub[i][j] {
		z.ub[i][j] = c
	}
}

// split writes an integer term as x - y + c; what does not fit that form
// becomes one variable of its own.
func split(d *Term) (x, y *Term, c int64) {
	switch d.Op {
	case "int":
		return nil, nil, d.C
	case "lin":
		var pos, neg []*Term
		simple := true
		for i, a := range d.Args {
			switch d.K[i] {
			case 1:
				pos = append(pos, a)
			case -1:
				neg = append(neg, a)
			default:
				simple = false
			}
		}
		if simple && len(pos) <= 1 && len(neg) <= 1 {
			if len(pos) == 1 {
				x = pos[0]
			}
			if len(neg) == 1 {
				y = neg[0]
			}
			return x, y, d.C
		}
		l := toLin(d)
		c = l.c
		l.c = 0
		v := l.term()
		if v.Op == "lin" && v.K[0] < 0 {
			return nil, mulc(v, -1), c
		}
		return v, nil, c
	}
	return d, nil, 0
}

func (f Facts) zone(extra ...*Term) *zone {
	z := &zone{idx: map[*Term]int{}, ub: [][]int64{{0}}}
	nd := func(t *Term) int {
		if t == nil {
			return 0
		}
		_, seen := z.idx[t]
		i := z.node(t)
		if !seen && nonNegative(t) {
			z.add(0, i, 0) // 0 - t <= 0
		}
		return i
	}
	type neq struct {
		x, y int
		c    int64
	}
	var neqs []neq
	for a, v := range f {
		switch a.Op {
		case "lt0":
			d := a.Args[0]
			if v { // d < 0 : x - y + c <= -1
				x, y, c := split(d)
				z.add2(nd(x), nd(y), -1-c)
			} else { // d >= 0 : y - x - c <= 0
				x, y, c := split(d)
				z.add2(nd(y), nd(x), c)
			}
		case "eq":
			l, r := a.Args[0], a.Args[1]
			if l.isStr() || r.isStr() || r == nilTerm || l == nilTerm {
				continue
			}
			d := sub(l, r)
			x, y, c := split(d)
			i, j := nd(x), nd(y)
			if v {
				z.add2(i, j, -c)
				z.add2(j, i, c)
			} else {
				neqs = append(neqs, neq{i, j, c})
			}
		}
	}
	for _, d := range extra {
		x, y, _ := split(d)
		nd(x)
		nd(y)
	}
	z.close()
	for k := 0; k < 3 && len(neqs) > 0; k++ {
		ch := false
		for _, n := range neqs { // x - y != -c
			if z.ub[n.x][n.y] == -n.c {
				z.ub[n.x][n.y]--
				ch = true
			}
			if z.ub[n.y][n.x] == n.c {
				z.ub[n.y][n.x]--
				ch = true
			}
		}
		if !ch {
			break
		}
		z.close()
	}
	return z
}

func (z *zone) add2(i, j int, c int64) {
	if i == j {
		return
	}
	z.add(i, j, c)
}

func (z *zone) close() {
	n := len(z.ub)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if z.ub[i][k] >= inf {
				continue
			}
			for j := 0; j < n; j++ {
				if s := satAdd(z.ub[i][k], z.ub[k][j]); s < z.ub[i][j] {
					z.ub[i][j] = s
				}
			}
		}
	}
}

// inconsistent reports whether no integers satisfy the zone.
func (z *zone) inconsistent() bool {
	for i := range z.ub {
		if z.ub[i][i] < 0 {
			return true
		}
	}
	return false
}

func nonNegative(t *Term) bool {
	switch t.Op {
	case "len", "cap":
		return true
	case "call":
		return t.Aux == "strings.Count"
	}
	return false
}

// upper returns an upper bound of the integer term d (inf: none known).
func (z *zone) upper(d *Term) int64 {
	x, y, c := split(d)
	get := func(t *Term) int {
		if t == nil {
			return 0
		}
		if i, ok := z.idx[t]; ok {
			return i
		}
		return -1
	}
	i, j := get(x), get(y)
	best := inf
	if i >= 0 && j >= 0 {
		best = satAdd(z.ub[i][j], c)
	}
	// sum of the bounds of the parts
	if d.Op == "lin" {
		s := d.C
		ok := true
		for n, a := range d.Args {
			ia := get(a)
			if ia < 0 {
				ok = false
				break
			}
			k := d.K[n]
			var b int64
			if k > 0 {
				b = z.ub[ia][0]
			} else {
				b = z.ub[0][ia]
				k = -k
			}
			if b >= inf || b > inf/1024 || b < -inf/1024 || k > 1<<20 {
				ok = false
				break
			}
			s += k * b
		}
		if ok && s < best {
			best = s
		}
	}
	return best
}

// bounds returns the interval of t implied by the facts.
func (f Facts) bounds(t *Term) (lo, hi int64) {
	if t.isInt() {
		return t.C, t.C
	}
	n := mulc(t, -1)
	z := f.zone(t, n)
	for _, a := range parts(t) {
		z.node(a)
	}
	z.close()
	hi = z.upper(t)
	lo = z.upper(n)
	if lo >= inf {
		lo = -inf
	} else {
		lo = -lo
	}
	return lo, hi
}

func parts(t *Term) []*Term {
	if t.Op == "lin" {
		return t.Args
	}
	return nil
}

// eval decides a boolean term under the facts.
func (f Facts) eval(c *Term) tri {
	switch c.Op {
	case "bool":
		return triOf(c == trueTerm)
	case "not":
		return f.eval(c.Args[0]).not()
	}
	if v, ok := f[c]; ok {
		return triOf(v)
	}
	switch c.Op {
	case "lt0":
		lo, hi := f.bounds(c.Args[0])
		if hi < 0 {
			return yes
		}
		if lo >= 0 {
			return no
		}
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if b == nilTerm && f.knownNonNil(a) {
			return no
		}
		// another constant is known for a (or b)
		for k, v := range f {
			if k.Op != "eq" || !v {
				continue
			}
			for i := 0; i < 2; i++ {
				x, y := k.Args[i], k.Args[1-i]
				if !y.isConst() {
					continue
				}
				if x == a && b.isConst() && y != b && b.Op == y.Op {
					return no
				}
				if x == b && a.isConst() && y != a && a.Op == y.Op {
					return no
				}
			}
		}
		if b == nilTerm && libraryError(a) || a == nilTerm && libraryError(b) {
			return no
		}
		if !b.isStr() && !a.isStr() && b != nilTerm && a != nilTerm {
			d := sub(a, b)
			lo, hi := f.bounds(d)
			if lo == 0 && hi == 0 {
				return yes
			}
			if lo > 0 || hi < 0 {
				return no
			}
		}
		// congruence through known equalities
		if ra, rb := f.rep(a), f.rep(b); ra != a || rb != b {
			if ra == rb {
				return yes
			}
			if e := eqTerm(ra, rb); e != c {
				if e.isBool() {
					return triOf(e == trueTerm)
				}
				if v, ok := f[e]; ok {
					return triOf(v)
				}
			}
		}
	case "call":
		return pureFact(f, c)
	}
	return unknown
}

// libraryError: an error variable of the standard library, which is never nil.
func libraryError(t *Term) bool {
	return t.Op == "ld" && t.Args[0].Op == "global" && (t.Args[0].Aux == "io.EOF" || strings.Contains(t.Args[0].Aux, ".Err") && (strings.HasPrefix(t.Args[0].Aux, "os.") || strings.HasPrefix(t.Args[0].Aux, "io.") || strings.HasPrefix(t.Args[0].Aux, "io/fs.")))
}

// rep returns a canonical representative of t under the equality facts.
func (f Facts) rep(t *Term) *Term {
	best := t
	for k, v := range f {
		if !v || k.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if k.Args[i] == t {
				o := k.Args[1-i]
				if o.isConst() || o.Op == "len" {
					if o.isInt() && k.Args[i].Op == "lin" {
						continue
					}
					return o
				}
				if o.id < best.id {
					best = o
				}
			}
		}
	}
	return best
}

func (f Facts) knownNonNil(t *Term) bool {
	if nonNil(t) {
		return true
	}
	if v, ok := f[eqTerm(t, nilTerm)]; ok && !v {
		return true
	}
	for k, v := range f {
		if k.Op == "typeis" && v && k.Args[0] == t {
			return true
		}
	}
	return false
}

// assume adds an atom (or its negation); it reports false when that
// contradicts what is known.
func (f Facts) assume(c *Term, val bool) bool {
	for c.Op == "not" {
		c, val = c.Args[0], !val
	}
	switch f.eval(c) {
	case yes:
		if val {
			return true
		}
		return false
	case no:
		return !val
	}
	// keep integer facts in one polarity, drop weaker ones on the same form
	if c.Op == "lt0" && !val {
		// d >= 0  <=>  -d-1 < 0
		c, val = lt0(add(mulc(c.Args[0], -1), intTerm(-1))), true
	}
	if c.Op == "lt0" {
		l := toLin(c.Args[0])
		base := l.c
		l.c = 0
		form := l.term()
		for k := range f {
			if k.Op == "lt0" {
				m := toLin(k.Args[0])
				kc := m.c
				m.c = 0
				if m.term() == form && kc <= base {
					delete(f, k)
				}
			}
		}
	}
	f[c] = val
	for _, l := range implied(c, val) {
		if !f.assume(l.T, l.Val) {
			return false
		}
	}
	return true
}

func (f Facts) sorted() []*Term {
	var ks []*Term
	for k := range f {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}
