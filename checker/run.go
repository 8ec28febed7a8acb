package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rule decides one property.
type Rule struct {
	ID        string
	Technique string // the deciding method
	Rule      string // the rule applied, for the evidence
	Trusts    []string
	Run       func(r *Run)
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.ID] = r }

// Violation is one construct that breaks the property.
type Violation struct {
	Kind string   `json:"rule"`
	At   string   `json:"at"`
	In   string   `json:"function"`
	What string   `json:"what"`
	Path []string `json:"path,omitempty"`
}

// Run is one execution of a rule.
type Run struct {
	arch    map[*ssa.Function]bool
	listers map[*ssa.Function]bool
	P       *Prog
	B       *Base
	Rule    *Rule
	Tier    string
	kinds   map[string]int
	seenO   map[string]bool
	obl     int
	samp    []string
	viol    []*Violation
	seenV   map[string]bool
	fns     map[*ssa.Function]bool
	sts     int
	blks    int
	ents    int
}

// ok records a discharged obligation (once per construct).
func (r *Run) ok(kind string, pos token.Pos, format string, a ...interface{}) {
	s := fmt.Sprintf("%s: %s: %s", r.P.Pos(pos), kind, fmt.Sprintf(format, a...))
	if r.seenO[s] {
		return
	}
	r.seenO[s] = true
	r.kinds[kind]++
	r.obl++
	if r.kinds[kind] <= 4 && len(r.samp) < 24 {
		r.samp = append(r.samp, s)
	}
}

// bad records a violation.
func (r *Run) bad(kind string, pos token.Pos, st *State, format string, a ...interface{}) {
	v := &Violation{Kind: kind, At: r.P.Pos(pos), What: fmt.Sprintf(format, a...)}
	if st != nil && len(st.frames) > 0 {
		v.In = st.top().fn.RelString(nil)
	} else if pos.IsValid() {
		v.In = r.funcAt(pos)
	}
	k := v.Kind + v.At + v.In
	if r.seenV[k] {
		return
	}
	r.seenV[k] = true
	if st != nil {
		for s := st.path; s != nil && len(v.Path) < 40; s = s.prev {
			v.Path = append([]string{r.P.Pos(s.pos) + " " + s.what}, v.Path...)
		}
		var call []string
		for _, f := range st.frames {
			call = append(call, f.fn.RelString(nil))
		}
		v.Path = append([]string{"call path: " + strings.Join(call, " -> ")}, v.Path...)
	}
	r.viol = append(r.viol, v)
}

func (r *Run) funcAt(pos token.Pos) string {
	best := ""
	for _, f := range r.P.Funcs {
		if s := f.Syntax(); s != nil && s.Pos() <= pos && pos <= s.End() {
			best = f.RelString(nil)
		}
	}
	return best
}

// check records an obligation either way.
func (r *Run) check(good bool, kind string, pos token.Pos, st *State, format string, a ...interface{}) bool {
	if good {
		r.ok(kind, pos, format, a...)
	} else {
		r.bad(kind, pos, st, format, a...)
	}
	return good
}

// need: the rule must have met at least n obligations of a kind; otherwise
// the code is not recognised and nothing was decided.
func (r *Run) need(kind string, n int) {
	if r.kinds[kind] < n && len(r.viol) == 0 {
		r.bad("anchor", token.NoPos, nil, "only %d of at least %d constructs for rule %q were found: the code cannot be matched to the property", r.kinds[kind], n, kind)
	}
}

// missing reports an anchor that does not resolve.
func (r *Run) missing(what string) {
	r.bad("anchor", token.NoPos, nil, "cannot find %s", what)
}

// engine makes an interpreter whose work is accounted to this run.
func (r *Run) engine() *Engine {
	e := newEngine(r.P, r.B)
	r.adopt(e)
	return e
}

// adopt bounds the work of an interpreter.
func (r *Run) adopt(e *Engine) {
	e.Stop = func(states int) string {
		if len(r.viol) > 0 && states > 2000 {
			return "stop" // the verdict is known
		}
		if time.Since(started) > 700*time.Second {
			return "time limit exceeded"
		}
		return ""
	}
}

// done accounts for an engine's work; what it could not decide is a violation.
func (r *Run) done(e *Engine, what string) {
	for f := range e.FnSeen {
		r.fns[f] = true
	}
	r.sts += e.States
	r.blks += e.Blocks
	r.ents++
	for _, u := range e.Undecided {
		r.bad("undecided", token.NoPos, nil, "%s: %s", what, u)
	}
}

var started = time.Now()

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	if x, err := os.Executable(); err == nil {
		d := filepath.Dir(x)
		for i := 0; i < 4; i++ {
			if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
				return d
			}
			d = filepath.Dir(d)
		}
	}
	return "/verif"
}

type loaded struct {
	p   *Prog
	b   *Base
	err error
}

func loadAll() (l *loaded) {
	l = &loaded{}
	defer func() {
		if x := recover(); x != nil {
			l.err = fmt.Errorf("the program could not be loaded: %v", x)
		}
	}()
	l.p, l.err = loadProg()
	if l.err == nil {
		l.b = buildBase(l.p)
	}
	return l
}

func runAll(tier string) int {
	var ids []string
	for id := range rules {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	l := loadAll()
	rc := 0
	for _, id := range ids {
		t := time.Now()
		c := runCheck(id, tier, l)
		fmt.Printf("-- %s rc=%d %.2fs\n", id, c, time.Since(t).Seconds())
		if c != 0 {
			rc = 1
		}
	}
	return rc
}

// runCheck decides one property and writes its evidence.
func runCheck(id, tier string, l *loaded) int {
	start := time.Now()
	rule := rules[id]
	if rule == nil {
		fmt.Printf("no rule for property %s\n", id)
		return 2
	}
	if l == nil {
		l = loadAll()
	}
	r := &Run{Rule: rule, Tier: tier, kinds: map[string]int{}, seenO: map[string]bool{}, seenV: map[string]bool{}, fns: map[*ssa.Function]bool{}}
	if l.err != nil {
		r.viol = append(r.viol, &Violation{Kind: "load", What: l.err.Error()})
	} else {
		r.P, r.B = l.p, l.b
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(x)
					}
					r.viol = append(r.viol, &Violation{Kind: "undecided", What: fmt.Sprintf("the analysis failed: %v", x)})
				}
			}()
			rule.Run(r)
			if r.obl == 0 && len(r.viol) == 0 {
				r.missing("any construct this property speaks of")
			}
		}()
	}
	dir := verifDir()
	known := readKnown(filepath.Join(dir, "KNOWN_FINDINGS.txt"))
	var fresh []*Violation
	for _, v := range r.viol {
		if k := known.match(id, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		fresh = append(fresh, v)
	}
	ev := filepath.Join(dir, "evidence")
	os.MkdirAll(ev, 0755)
	writeEvidence(filepath.Join(ev, id+".json"), r, fresh, time.Since(start))
	replay := filepath.Join(ev, id+".violation.json")
	os.Remove(replay)
	if len(fresh) == 0 {
		fmt.Printf("%s holds: %d obligations discharged over %d functions, %d abstract states\n", id, r.obl, len(r.fns), r.sts)
		return 0
	}
	bs, _ := json.MarshalIndent(map[string]interface{}{"property": id, "rule": rule.Rule, "violations": fresh}, "", " ")
	os.WriteFile(replay, append(bs, '\n'), 0644)
	for _, v := range fresh {
		fmt.Printf("%s: [%s] in %s: %s\n", v.At, v.Kind, v.In, v.What)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func writeEvidence(path string, r *Run, fresh []*Violation, d time.Duration) {
	var fns []string
	for f := range r.fns {
		if f.Synthetic == "" {
			fns = append(fns, f.RelString(nil))
		}
	}
	sort.Strings(fns)
	m := map[string]interface{}{
		"property": r.Rule.ID, "tier": r.Tier, "seed": seed(), "level": "other",
		"coverage": map[string]interface{}{
			"explanation":        r.Rule.Rule,
			"technique":          r.Rule.Technique,
			"obligations":        r.obl + len(fresh),
			"discharged":         r.obl,
			"obligation_kinds":   r.kinds,
			"functions_analysed": fns,
			"entry_points":       r.ents,
			"abstract_states":    r.sts,
			"block_visits":       r.blks,
			"samples":            r.samp,
		},
		"assumptions": r.Rule.Trusts,
		"wall_s":      d.Seconds(), "violations": len(fresh),
	}
	if r.Rule.Trusts == nil {
		m["assumptions"] = []string{}
	}
	bs, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, append(bs, '\n'), 0644)
}

// knownFindings lists the recorded defects: "known: property=ID rule=R in=F what...".
type knownFindings []map[string]string

func readKnown(path string) knownFindings {
	bs, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var k knownFindings
	for _, ln := range strings.Split(string(bs), "\n") {
		if !strings.HasPrefix(ln, "known: ") {
			continue
		}
		m := map[string]string{"": strings.TrimPrefix(ln, "known: ")}
		for _, f := range strings.Fields(ln) {
			if i := strings.Index(f, "="); i > 0 {
				m[f[:i]] = f[i+1:]
			}
		}
		k = append(k, m)
	}
	return k
}

func (k knownFindings) match(id string, v *Violation) string {
	for _, m := range k {
		if m["property"] == id && m["rule"] == v.Kind && m["in"] == v.In {
			return m[""]
		}
	}
	return ""
}

var debug = os.Getenv("VERIF_DEBUG") != ""

func dumpState(st *State) {
	if !debug {
		return
	}
	println("STATE")
	for k, v := range st.A {
		println("  A", k, v.String())
	}
	for k, v := range st.heap {
		if !strings.Contains(k.String(), "init:") && !strings.HasPrefix(k.String(), "github.com") {
			println("  H", k.String(), "=", v.String())
		}
	}
	for k, v := range st.facts {
		println("  F", k.String(), v)
	}
	for k, v := range st.TS {
		println("  T", k.String(), v)
	}
}
