package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const optTechnique = "disjunctive abstract interpretation (value numbering, zone domain for integers) of the output constructors and option parsers over an arbitrary configuration and arbitrary text"

func init() {
	register(&Rule{ID: "C22", Technique: optTechnique,
		Rule:   "on every path of each registered constructor of outputs, the value that ends up where an option takes effect (capacity of the event channel, batch limit, threshold, path, roll limit, pattern, number of backups, name mode, archive type, and the arguments of OpenFile, Chmod and MkdirAll of the rolling writers) is the value of that very option, and the asynchronous variant is built exactly when async is \"true\"; in the asynchronous goroutine the counter held against the batch limit is the number of records in the batch, which is written on an event only when it has reached the limit and does not wait then",
		Trusts: []string{"the umask may clear permissions of files created"},
		Run:    func(r *Run) { (&optRun{r: r, id: "C22"}).run() }})
	register(&Rule{ID: "C23", Technique: optTechnique,
		Rule:   "on every path of an option parser over arbitrary text, the result is within its bounds; where the text parses as a number within the bounds, the result is that number (times the unit of its suffix); a default is used only where the text is no such number",
		Trusts: []string{"strconv"},
		Run:    func(r *Run) { (&optRun{r: r, id: "C23"}).run() }})
}

// optRun explores the constructors of outputs.
type optRun struct {
	r       *Run
	id      string
	parsers map[string]*ssa.Function
	done    map[string]bool
	batch   *types.Var
	count   int
	async   map[string]int
}

func (o *optRun) check(id string, good bool, kind string, pos token.Pos, st *State, format string, a ...interface{}) {
	if id != o.id {
		return
	}
	o.r.check(good, kind, pos, st, format, a...)
}

// numOpt is the meaning of a numeric option.
type numOpt struct {
	lo, hi int64
	octal  bool
	units  bool
}

// option is one option of an output: key, and where its value takes effect.
type option struct {
	key  string
	num  *numOpt
	enum map[string]int64 // text to value
	def  int64            // of an enumeration
	lvl  bool
	text func(v *Term) *Term // what the value must be, given the text
}

// numeric: functions that turn text into a number.
func (o *optRun) numeric(fn *ssa.Function) bool {
	if !o.r.textParser(fn) {
		return false
	}
	b := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	return b.Info()&types.IsInteger != 0
}

// strconvs models the parsing of numbers.
func (o *optRun) strconvs(e *Engine, st *State, c *CallEv) ([]Out, bool) {
	switch c.Name {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
	default:
		return nil, false
	}
	rt := c.Sig.Results().At(0).Type()
	num := T.mk("call", "number", rt, c.Args...)
	er := ioErr(e, st, c, "error of parsing")
	base, bits := int64(10), int64(64)
	if len(c.Args) > 1 {
		base, bits = -1, -1
		if c.Args[1].isInt() && c.Args[2].isInt() {
			base, bits = c.Args[1].C, c.Args[2].C
			if bits == 0 {
				bits = 64
			}
		}
	}
	mark := func(st *State, how string) {
		st.A["=parsed"], st.A["base"], st.A["bits"] = c.Args[0], intTerm(base), intTerm(bits)
		st.A["=number"] = num
		if how != "" {
			st.A["invalid"] = trueTerm
			delete(st.A, "=number")
		}
		if c.Name == "strconv.ParseUint" {
			st.A["bits"] = intTerm(bits + 1)
		}
	}
	good := Out{Res: tupOf(num, nilTerm), Do: func(st *State) { st.note(c.Pos, "the text is a number"); mark(st, "") }}
	if c.Name == "strconv.ParseUint" {
		good.Assume = append(good.Assume, Lit{lt0(num), false})
	}
	outs := []Out{good}
	if bits < 1 || bits > 64 {
		bits = 64
	}
	top, low := int64(math.MaxInt64), int64(math.MinInt64)
	if bits < 64 {
		top, low = 1<<uint(bits-1)-1, -1<<uint(bits-1)
		if c.Name == "strconv.ParseUint" {
			top = 1<<uint(bits) - 1
		}
	}
	for _, v := range []int64{0, top, low} {
		if v < 0 && c.Name == "strconv.ParseUint" {
			continue
		}
		how := "the text is not a number"
		if v != 0 {
			how = "the text is a number out of range"
		}
		outs = append(outs, Out{Res: tupOf(intTerm(v), er), Assume: []Lit{{eqTerm(er, nilTerm), false}}, Do: func(st *State) {
			st.note(c.Pos, how)
			mark(st, "invalid")
		}})
	}
	return outs, true
}

// trimmed: the text of s without the suffix of a unit; the unit.
func (o *optRun) trimmed(st *State, t, s *Term) (int64, bool) {
	if t.Op == "call" && t.Aux == "strings.TrimSpace" {
		t = t.Args[0]
	}
	if t == s {
		for _, u := range []string{"K", "M", "G"} {
			if o.hasSuffix(st, s, u) != no {
				return 1, false
			}
		}
		return 1, true
	}
	for i, u := range []string{"K", "M", "G"} {
		unit := int64(1) << uint(10*(i+1))
		is := t.Op == "call" && t.Aux == "strings.TrimSuffix" && t.Args[0] == s && t.Args[1] == strTerm(u) ||
			t == sliceTerm(s, nilTerm, sub(lenTerm(s), intTerm(1)))
		if is && o.hasSuffix(st, s, u) == yes {
			return unit, true
		}
	}
	return 0, false
}

func (o *optRun) hasSuffix(st *State, s *Term, u string) tri {
	if v := st.facts.eval(pureCall("strings.HasSuffix", []*Term{s, strTerm(u)})); v != unknown {
		return v
	}
	if st.facts.eval(eqTerm(s, strTerm(""))) == yes || st.facts.eval(eqTerm(lenTerm(s), intTerm(0))) == yes {
		return no
	}
	for k := range st.facts {
		if last := k.find(func(t *Term) bool { return lastByte(t, s) }); last != nil {
			return st.facts.eval(eqTerm(last, intTerm(int64(u[0]))))
		}
	}
	return unknown
}

func lastByte(t, s *Term) bool {
	return len(t.Args) == 2 && t.Args[0] == s && t.Args[1] == sub(lenTerm(s), intTerm(1))
}

// number checks the value v of a numeric option whose text is s.
func (o *optRun) number(st *State, n *numOpt, s, v *Term, pos token.Pos, what string) {
	if v.Op == "conv" && v.Aux == "int" {
		x := v.Args[0]
		if st.facts.eval(lt0(x)) == no && st.facts.eval(lt0(sub(intTerm(math.MaxInt32), x))) == no {
			v = x
		}
	}
	unit := int64(1)
	num := st.A["=number"]
	parsed := st.A["=parsed"]
	ofText := false
	if parsed != nil {
		if n.units {
			unit, ofText = o.trimmed(st, parsed, s)
		} else {
			ofText = parsed == s || parsed.Op == "call" && parsed.Aux == "strings.TrimSpace" && parsed.Args[0] == s
		}
	}
	if unit == 0 {
		unit = 1
	}
	given := num != nil && ofText && (v == mulc(num, unit) || v.Op == "conv" && v.Args[0] == num)
	hi := n.hi
	if n.units {
		hi = math.MaxInt64 / unit
	}
	// bounds
	x := v
	top := n.hi
	if given {
		x, top = num, hi
	}
	below := st.facts.eval(lt0(sub(x, intTerm(n.lo))))
	above := st.facts.eval(lt0(sub(intTerm(top), x)))
	if x.isInt() {
		below, above = triOf(x.C < n.lo), triOf(x.C > top)
	}
	if top == math.MaxInt64 {
		above = no
	}
	if !given && n.units && !x.isInt() {
		above = unknown
	}
	o.check("C23", below == no && above == no, "bounds", pos, st, "%s is within %d..%d (%v)", what, n.lo, n.hi, v)
	// as given
	switch {
	case given:
		o.check("C23", true, "as given", pos, st, "%s is the number given", what)
	case parsed == nil:
		empty := st.facts.eval(eqTerm(s, strTerm(""))) == yes || st.facts.eval(eqTerm(lenTerm(s), intTerm(0))) == yes
		o.check("C23", empty, "as given", pos, st, "%s is taken from the text given", what)
	case !ofText:
		o.check("C23", false, "as given", pos, st, "%s is the number in the text given, without its unit (%v)", what, parsed)
	case num == nil:
		o.check("C23", true, "as given", pos, st, "%s falls back to a default where the text is no number", what)
	default:
		out := st.facts.eval(lt0(sub(num, intTerm(n.lo)))) == yes || st.facts.eval(lt0(sub(intTerm(hi), num))) == yes
		o.check("C23", out, "as given", pos, st, "a valid number is used as given for %s (%v instead of %v)", what, v, num)
	}
	if parsed != nil {
		base, bits := st.A["base"].C, st.A["bits"].C
		want := base == 10
		if n.octal {
			want = base == 0 || base == 8
		}
		o.check("C23", want, "base", pos, st, "%s is read in its base (%d)", what, base)
		o.check("C23", bits >= 64 || n.hi < 1<<uint(bits-1), "base", pos, st, "every valid number can be read for %s (%d bits)", what, bits)
	}
}

// value checks that v is what the option says, where its text is s.
func (o *optRun) value(st *State, opt *option, s, v *Term, pos token.Pos, what string) {
	switch {
	case opt.num != nil:
		o.number(st, opt.num, s, v, pos, what)
	case opt.lvl:
		o.level(st, s, v, pos, what)
	case opt.enum != nil:
		var ks []string
		for k := range opt.enum {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		rest := true
		for _, k := range ks {
			is := st.facts.eval(eqTerm(s, strTerm(k)))
			if is == yes {
				o.check("C22", v == intTerm(opt.enum[k]), "variant", pos, st, "%s %q selects its variant (%v)", what, k, v)
				return
			}
			if is != no && v != intTerm(opt.enum[k]) {
				rest = false
			}
		}
		ok := rest && v == intTerm(opt.def)
		for _, k := range ks {
			if st.facts.eval(eqTerm(s, strTerm(k))) == unknown && v == intTerm(opt.enum[k]) && opt.enum[k] == opt.def {
				ok = true
			}
		}
		o.check("C22", ok, "variant", pos, st, "%s is the default where nothing else is chosen (%v)", what, v)
	case opt.text != nil:
		o.check("C22", v == opt.text(s), "option", pos, st, "%s is the text given (%v)", what, v)
	}
}

func (o *optRun) level(st *State, s, v *Term, pos token.Pos, what string) {
	unset, all := o.r.level("Uninitialized"), o.r.level("All")
	l := v
	if v.isInt() {
		for k, b := range st.facts {
			if k.Op == "eq" && b {
				for i := 0; i < 2; i++ {
					if k.Args[i] == intTerm(unset) && o.isLevelFrom(k.Args[1-i]) {
						l = k.Args[1-i]
					}
				}
			}
		}
		if l != v {
			o.check("C22", l.Args[0] == s && v.C <= all, "option", pos, st, "without a valid %s everything passes (%v)", what, v)
			return
		}
	}
	o.check("C22", o.isLevelFrom(l) && l.Args[0] == s, "option", pos, st, "%s is the level given (%v)", what, v)
}

func (o *optRun) isLevelFrom(t *Term) bool {
	return t.Op == "call" && len(t.Args) == 1 && strings.HasSuffix(t.Aux, "api.LevelFrom")
}

// effect: the option takes effect with value v, in a state of a constructor
// where its text is s.
func (o *optRun) effect(st *State, opt *option, s, v *Term, pos token.Pos) {
	what := opt.key
	x := v
	for x.Op == "conv" {
		x = x.Args[0]
	}
	fn := o.parsers[x.Aux]
	if x.Op != "call" || fn == nil {
		if opt.lvl && o.isLevelFrom(x) {
			o.level(st, s, x, pos, what)
			return
		}
		o.value(st, opt, s, v, pos, what)
		return
	}
	src := x.Args[0]
	if opt.num != nil && src.Op == "call" && src.Aux == "strings.TrimSpace" {
		src = src.Args[0]
	}
	o.check("C22", src == s, "option", pos, st, "%s is taken from its own option (%v)", what, x.Args[0])
	for _, a := range x.Args[1:] {
		o.check("C22", a.isConst(), "option", pos, st, "%s depends on its own option alone (%v)", what, a)
		if !a.isConst() {
			return
		}
	}
	k := fmt.Sprint(opt.key, x.Aux, x.Args[1:])
	if o.done[k] {
		return
	}
	o.done[k] = true
	e := o.r.engine()
	e.Unroll = 8
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if c.Fn != nil && strings.HasSuffix(c.Name, "api.LevelFrom") {
			return []Out{{Res: typedCall(c)}}, true
		}
		return o.strconvs(e, st, c)
	}
	t := paramTerm("text", types.Typ[types.String])
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		o.value(st, opt, t, res[0], in.Pos(), what)
	}
	e.H.Panic = func(e *Engine, st *State, v *Term, in ssa.Instruction) {
		o.check("C23", false, "bounds", in.Pos(), st, "reading %s panics", what)
	}
	e.Entry(fn, append([]*Term{t}, x.Args[1:]...), nil)
	o.r.done(e, fn.Name()+" for "+opt.key)
}

func (o *optRun) run() {
	r := o.r
	o.parsers, o.done, o.async = map[string]*ssa.Function{}, map[string]bool{}, map[string]int{}
	o.batchField()
	perms := o.perms()
	ct := r.apiType("OutputFuncCreator")
	n := 0
	for _, fn := range r.creators() {
		if ct != nil && types.Identical(fn.Signature, ct.Underlying()) {
			n++
			o.creator(fn, perms)
		}
	}
	if n < 3 {
		r.missing("the constructors of outputs")
	}
	if o.id == "C22" {
		r.batchLimit(o.batch, r.fn("internal", "NewAsyncOutput"))
		r.need("option", 10)
		r.need("variant", 6)
		r.need("asynchronous", 2)
	} else {
		r.need("bounds", 12)
		r.need("as given", 12)
	}
}

// batchField finds where the batch limit is kept.
func (o *optRun) batchField() {
	fn := o.r.fn("internal", "NewAsyncOutput")
	if fn == nil || len(fn.Params) != 4 {
		o.r.missing("NewAsyncOutput")
		return
	}
	e := o.r.engine()
	p := paramTerm(fn.Params[3].Name(), fn.Params[3].Type())
	e.H.Go = func(e *Engine, st *State, c *CallEv) {}
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		for k, v := range st.heap {
			if v == p && fieldVar(k) != nil {
				o.batch = fieldVar(k)
			}
		}
	}
	e.Entry(fn, nil, nil)
	if o.batch == nil {
		o.r.missing("where the batch limit is kept")
	}
}

// perms finds the fields that give the permissions of the log file, of its
// backups and of directories.
func (o *optRun) perms() map[string]map[*types.Var]bool {
	found := map[string]map[*types.Var]bool{"file_perm": {}, "back_perm": {}, "dir_perm": {}}
	kinds := map[string][2]interface{}{
		"os.OpenFile": {"file_perm", 2}, "os.Chmod": {"back_perm", 1}, "os.MkdirAll": {"dir_perm", 1}, "os.Mkdir": {"dir_perm", 1}, "(*os.File).Chmod": {"file_perm", 1},
	}
	for _, w := range o.r.rollers() {
		rr := w.run()
		rr.op = func(st *State, op *rollOp) {
			k, ok := kinds[op.name]
			if !ok {
				return
			}
			key, i := k[0].(string), k[1].(int)
			v := op.args[i]
			f := (*types.Var)(nil)
			if v.Op == "ld" {
				f = fieldVar(v.Args[0])
			}
			if op.name == "os.Chmod" {
				// the log itself, or a backup
				if st.A["renamed"] == nil {
					key = "file_perm"
				}
			}
			o.check("C22", f != nil, "permissions", op.c.Pos, st, "the permissions given to %s are those configured (%v)", op.name, v)
			if f != nil {
				found[key][f] = true
			}
		}
		rr.did = func(st *State, op *rollOp, res *Term, failed bool) {
			if op.name == "os.Rename" && !failed {
				st.A["renamed"] = trueTerm
			}
			if op.name == "os.Chmod" && st.A["renamed"] != nil {
				st.A["chmod"] = trueTerm
			}
		}
		rr.e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			if st.A["renamed"] != nil {
				o.check("C22", st.A["chmod"] != nil, "permissions", in.Pos(), st, "a backup gets the permissions configured")
			}
		}
		rr.start(w.write, nil)
		o.r.done(rr.e, w.kind+" writer")
	}
	for _, k := range []string{"file_perm", "back_perm", "dir_perm"} {
		if len(found[k]) != 1 {
			o.r.missing("the one field with the " + k + " of rolling writers")
		}
	}
	return found
}

func (o *optRun) creator(fn *ssa.Function, perms map[string]map[*types.Var]bool) {
	r := o.r
	e := r.engine()
	e.H.NoInline = func(f *ssa.Function) bool { return o.numeric(f) || r.ioWrite(f) }
	e.H.Go = func(e *Engine, st *State, c *CallEv) {}
	cfg := paramTerm(fn.Params[0].Name(), fn.Params[0].Type())
	text := func(st *State, k string) *Term {
		v, _ := e.mapGet(st, cfg, strTerm(k), types.Typ[types.String])
		return v
	}
	e.H.Call = func(e *Engine, st *State, c *CallEv) ([]Out, bool) {
		if o.numeric(c.Fn) {
			o.parsers[c.Name] = c.Fn
			return []Out{{Res: typedCall(c)}}, true
		}
		switch c.Name {
		case "log/syslog.New", "log/syslog.Dial":
			o.check("C22", c.Args[len(c.Args)-1] == text(st, "prefix"), "option", c.Pos, st, "prefix is the tag of messages (%v)", c.Args[len(c.Args)-1])
			w := e.freshAlloc(st, c.Frame, c.Instr, "syslog", deref(c.Sig.Results().At(0).Type()))
			er := ioErr(e, st, c, "error of syslog")
			return []Out{{Res: tupOf(w, nilTerm)}, {Res: tupOf(nilTerm, er), Assume: []Lit{{eqTerm(er, nilTerm), false}}}}, true
		}
		return nil, false
	}
	rws := r.rollers()
	e.H.Return = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		pos := in.Pos()
		if st.facts.eval(eqTerm(res[1], nilTerm)) == no {
			return
		}
		o.count++
		fields := map[*types.Var][]*Term{}
		var caps []*Term
		made := map[string]bool{} // types of what was made
		var ks []*Term
		for k := range st.heap {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			v := st.heap[k]
			if e.Base != nil && e.Base.heap[k] == v {
				continue
			}
			if k.Op == "chancap" && r.eventChan(k.Args[0].Typ) {
				caps = append(caps, v)
			}
			if f := fieldVar(k); f != nil && root(k).Op == "alloc" {
				fields[f] = append(fields[f], v)
				if rt := root(k).Typ; rt != nil {
					made[rt.String()] = true
				}
			}
		}
		each := func(opt *option, f *types.Var) {
			vs := fields[f]
			if len(vs) == 0 {
				vs = []*Term{zeroTerm(f.Type())}
			}
			for _, v := range vs {
				o.effect(st, opt, text(st, opt.key), v, pos)
			}
		}
		for f, vs := range fields {
			if f.Type().String() == "io.Writer" && len(vs) == 1 && inMemory(vs[0]) {
				return // for tests
			}
		}
		// the variant
		onoff := st.facts.eval(eqTerm(text(st, "async"), strTerm("true")))
		if st.facts.eval(eqTerm(cfg, nilTerm)) == yes {
			onoff = no
		}
		o.async[fn.Name()] |= 1 << uint(len(caps))
		hasAsync := len(caps) > 0
		if _, isSys := r.syslogMade(st, res[0]); !isSys {
			o.check("C22", onoff == triOf(hasAsync), "asynchronous", pos, st, "%s is asynchronous exactly when async is true", fn.Name())
		}
		if hasAsync {
			for _, c := range caps {
				o.effect(st, &option{key: "queue_size", num: &numOpt{lo: 1, hi: 100000}}, text(st, "queue_size"), c, pos)
			}
			if o.batch != nil {
				each(&option{key: "batch_num", num: &numOpt{lo: 1, hi: 500}}, o.batch)
			}
		}
		// the threshold
		nl := 0
		for f := range fields {
			if types.Identical(f.Type(), r.apiType("Level")) {
				nl++
				each(&option{key: "threshold", lvl: true}, f)
			}
		}
		if nl == 0 {
			o.check("C22", false, "option", pos, st, "%s has a threshold", fn.Name())
		}
		// rolling files
		for _, w := range rws {
			if !made[w.typ.String()] {
				continue
			}
			same := func(k string) *option { return &option{key: k, text: func(s *Term) *Term { return s }} }
			for f := range perms["file_perm"] {
				each(&option{key: "file_perm", num: &numOpt{lo: 1, hi: 0777, octal: true}}, f)
			}
			for f := range perms["back_perm"] {
				each(&option{key: "back_perm", num: &numOpt{lo: 1, hi: 0777, octal: true}}, f)
			}
			for f := range perms["dir_perm"] {
				each(&option{key: "dir_perm", num: &numOpt{lo: 1, hi: 0777, octal: true}}, f)
			}
			each(&option{key: "backups", num: &numOpt{lo: 1, hi: 20}}, w.maxRolls.v)
			want := "size_rolling_file"
			if w.kind == "size" {
				each(&option{key: "size", num: &numOpt{lo: 1, hi: math.MaxInt64, units: true}}, w.limit.v)
			} else {
				want = "time_rolling_file"
				each(same("pattern"), w.pattern.v)
			}
			o.check("C22", st.facts.eval(eqTerm(text(st, "type"), strTerm(want))) == yes, "variant", pos, st, "a writer that rolls by %s is made for %s", w.kind, want)
			each(o.enumOf("archive", "rollingArchiveNone", map[string]string{"zip": "rollingArchiveZip", "gzip": "rollingArchiveGzip"}), w.arch.v)
			each(o.enumOf("name_mode", "rollingNameModePostfix", map[string]string{"prefix": "rollingNameModePrefix", "postfix": "rollingNameModePostfix"}), w.mode.v)
			for _, f := range []fieldAt{w.dir, w.name} {
				for _, v := range fields[f.v] {
					s := text(st, "file")
					other := v.find(func(t *Term) bool { return t.Op == s.Op && t != s && t.contains(cfg) }) != nil
					o.check("C22", v.isConst() || v.contains(s) && !other, "option", pos, st, "the path of the log is the file configured (%v)", v)
				}
			}
		}
	}
	e.Entry(fn, []*Term{cfg}, nil)
	r.done(e, fn.Name())
}

func (o *optRun) enumOf(key, def string, m map[string]string) *option {
	opt := &option{key: key, enum: map[string]int64{}}
	get := func(n string) int64 {
		v, ok := o.r.intConst("internal", n)
		if !ok {
			o.r.missing("the constant " + n)
			return -1
		}
		return v
	}
	opt.def = get(def)
	for k, n := range m {
		opt.enum[k] = get(n)
	}
	return opt
}

// syslogMade: the output writes to syslog, which is never asynchronous.
func (r *Run) syslogMade(st *State, t *Term) (*Term, bool) {
	for k, v := range st.heap {
		if f := fieldVar(k); f != nil && strings.HasSuffix(f.Type().String(), "log/syslog.Writer") {
			return v, true
		}
	}
	return nil, false
}

// inMemory: a writer that keeps what it is given.
func inMemory(v *Term) bool {
	if v.Op == "mki" && v.Typ != nil && v.Typ.String() == "*bytes.Buffer" {
		return true
	}
	f := fieldVar(strip(v))
	return f != nil && f.Type().String() == "bytes.Buffer"
}
