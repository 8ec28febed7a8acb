package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// purePkgs: library functions whose result depends only on their arguments.
var pureFuncs = map[string]bool{
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "errors.Is": true,
	"path/filepath.Join": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Ext": true,
	"path/filepath.Clean": true, "path/filepath.IsAbs": true, "path/filepath.Split": true, "path/filepath.ToSlash": true,
	"path/filepath.FromSlash": true, "path/filepath.Match": true, "path/filepath.VolumeName": true,
	"path.Join": true, "path.Base": true, "path.Dir": true, "path.Ext": true, "path.Clean": true, "path.IsAbs": true, "path.Split": true,
	"context.Background": true, "context.TODO": true, "context.WithValue": true,
	"reflect.DeepEqual": true, "reflect.TypeOf": true,
	"time.Date": true, "time.Unix": true, "time.ParseInLocation": true, "time.Parse": true, "time.ParseDuration": true,
	"fmt.Sprint": true, "fmt.Sprintln": true,
	"(io/fs.FileMode).IsRegular": true, "(io/fs.FileMode).IsDir": true, "(io/fs.FileMode).Perm": true, "(io/fs.FileMode).Type": true,
	"runtime.FuncForPC": true, "(*runtime.Func).Name": true,
	"(*os.File).Name":       true,
	"(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).Mode": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).ModTime": true,
	"(io/fs.DirEntry).Name": true, "(io/fs.DirEntry).IsDir": true, "(io/fs.DirEntry).Type": true,
	"(*archive/tar.Header).FileInfo":              true,
	"(*regexp.Regexp).FindAllStringSubmatchIndex": true, "(*regexp.Regexp).FindAllStringIndex": true, "(*regexp.Regexp).FindAllStringSubmatch": true,
	"(*regexp.Regexp).FindStringSubmatchIndex": true, "(*regexp.Regexp).MatchString": true,
	"(error).Error":           true,
	"(context.Context).Value": true,
}

func isPure(name string) bool {
	if pureFuncs[name] {
		return true
	}
	for _, p := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "math.", "bytes.", "(time.Time).", "(time.Duration).", "(time.Month).", "slices.Contains", "slices.Index"} {
		if strings.HasPrefix(name, p) {
			return name != "strings.NewReader" && name != "strings.NewReplacer" && name != "bytes.NewReader" && name != "bytes.NewBuffer" && name != "bytes.NewBufferString" && name != "(time.Time).UnmarshalText"
		}
	}
	return false
}

// pureCall is the term of a pure library call, simplified.
func pureCall(name string, as []*Term) *Term {
	allStr := true
	for _, a := range as {
		if !a.isStr() {
			allStr = false
		}
	}
	switch name {
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune":
		if as[1].isInt() {
			by := strTerm(string(rune(as[1].C)))
			if name != "strings.IndexRune" {
				by = strTerm(string([]byte{byte(as[1].C)}))
			}
			return pureCall(strings.TrimSuffix(strings.TrimSuffix(name, "Byte"), "Rune"), []*Term{as[0], by})
		}
	case "strings.Index":
		if allStr {
			return intTerm(int64(strings.Index(as[0].Aux, as[1].Aux)))
		}
	case "strings.LastIndex":
		if allStr {
			return intTerm(int64(strings.LastIndex(as[0].Aux, as[1].Aux)))
		}
	case "strings.ToUpper":
		if allStr {
			return strTerm(strings.ToUpper(as[0].Aux))
		}
	case "strings.ToLower":
		if allStr {
			return strTerm(strings.ToLower(as[0].Aux))
		}
	case "strings.TrimSpace":
		if allStr {
			return strTerm(strings.TrimSpace(as[0].Aux))
		}
	case "strings.EqualFold":
		if allStr {
			return boolTerm(strings.EqualFold(as[0].Aux, as[1].Aux))
		}
		// equality in one letter case
		return eqTerm(pureCall("strings.ToUpper", as[:1]), pureCall("strings.ToUpper", as[1:2]))
	case "strings.HasPrefix":
		if allStr {
			return boolTerm(strings.HasPrefix(as[0].Aux, as[1].Aux))
		}
		if r := hasPrefix(as[0], as[1]); r != unknown {
			return boolTerm(r == yes)
		}
	case "strings.HasSuffix":
		if allStr {
			return boolTerm(strings.HasSuffix(as[0].Aux, as[1].Aux))
		}
		if r := hasSuffix(as[0], as[1]); r != unknown {
			return boolTerm(r == yes)
		}
	case "strings.TrimPrefix":
		if allStr {
			return strTerm(strings.TrimPrefix(as[0].Aux, as[1].Aux))
		}
		switch hasPrefix(as[0], as[1]) {
		case yes:
			return sliceTerm(as[0], lenTerm(as[1]), nilTerm)
		case no:
			return as[0]
		}
	case "strings.TrimSuffix":
		if allStr {
			return strTerm(strings.TrimSuffix(as[0].Aux, as[1].Aux))
		}
		switch hasSuffix(as[0], as[1]) {
		case yes:
			return sliceTerm(as[0], nilTerm, sub(lenTerm(as[0]), lenTerm(as[1])))
		case no:
			return as[0]
		}
	case "strings.CutSuffix", "strings.CutPrefix":
		what := strings.TrimPrefix(name, "strings.Cut")
		return T.mk("tuple", "", nil, pureCall("strings.Trim"+what, as), pureCall("strings.Has"+what, as))
	case "strings.Contains":
		if allStr {
			return boolTerm(strings.Contains(as[0].Aux, as[1].Aux))
		}
	case "strconv.Itoa", "itoa":
		return T.mk("itoa", "", nil, as[0])
	case "strconv.FormatInt":
		if as[1].isInt() && as[1].C == 10 {
			return T.mk("itoa", "", nil, as[0])
		}
	case "strconv.Atoi", "strconv.ParseInt":
		if as[0].Op == "itoa" && (len(as) == 1 || as[1].isInt() && as[1].C == 10) {
			return T.mk("tuple", "", nil, as[0].Args[0], nilTerm)
		}
	case "os.IsNotExist":
		if as[0] == nilTerm {
			return falseTerm
		}
	case "errors.Is":
		if as[0] == nilTerm {
			return falseTerm
		}
		if as[1].Op == "ld" && as[1].Args[0].Op == "global" {
			switch as[1].Args[0].Aux {
			case "os.ErrNotExist", "io/fs.ErrNotExist":
				return pureCall("os.IsNotExist", as[:1])
			case "io.EOF":
				return eqTerm(as[0], as[1])
			}
		}
	case "(context.Context).Value":
		return ctxValue(as[0], as[1])
	case "context.TODO":
		return T.mk("call", "context.Background", nil)
	case "path/filepath.Join", "path.Join":
		// variadic: the elements
		var flat []*Term
		for _, a := range as {
			if a.isStr() && a.Aux == "" {
				continue
			}
			flat = append(flat, a)
		}
		as = flat
	}
	return T.mk("call", name, nil, as...)
}

func ctxValue(c, k *Term) *Term {
	if c.Op == "mki" {
		return ctxValue(c.Args[0], k)
	}
	if c.Op == "call" && c.Aux == "context.WithValue" {
		eq := eqTerm(c.Args[1], k)
		if eq == trueTerm {
			return c.Args[2]
		}
		if eq == falseTerm {
			return ctxValue(c.Args[0], k)
		}
	}
	if c.Op == "call" && c.Aux == "context.Background" {
		return nilTerm
	}
	return T.mk("call", "(context.Context).Value", nil, c, k)
}

func hasPrefix(s, p *Term) tri {
	sp, pp := catParts(s), catParts(p)
	for i, x := range pp {
		if i >= len(sp) {
			return unknown
		}
		if sp[i] == x {
			continue
		}
		if x.isStr() && sp[i].isStr() {
			if i == len(pp)-1 && strings.HasPrefix(sp[i].Aux, x.Aux) {
				return yes
			}
			n := len(x.Aux)
			if len(sp[i].Aux) < n {
				n = len(sp[i].Aux)
			}
			if sp[i].Aux[:n] != x.Aux[:n] {
				return no
			}
		}
		return unknown
	}
	return yes
}

func hasSuffix(s, p *Term) tri {
	sp, pp := catParts(s), catParts(p)
	for i := 0; i < len(pp); i++ {
		x := pp[len(pp)-1-i]
		j := len(sp) - 1 - i
		if j < 0 {
			return unknown
		}
		if sp[j] == x {
			continue
		}
		if x.isStr() && sp[j].isStr() {
			if i == len(pp)-1 && strings.HasSuffix(sp[j].Aux, x.Aux) {
				return yes
			}
			n := len(x.Aux)
			if len(sp[j].Aux) < n {
				n = len(sp[j].Aux)
			}
			if sp[j].Aux[len(sp[j].Aux)-n:] != x.Aux[len(x.Aux)-n:] {
				return no
			}
		}
		return unknown
	}
	return yes
}

// pureFact decides an atom that is a pure call, from the facts about its arguments.
func pureFact(f Facts, c *Term) tri {
	switch c.Aux {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.Is":
		if f.eval(eqTerm(c.Args[0], nilTerm)) == yes {
			return no
		}
	case "strings.HasPrefix", "strings.HasSuffix":
		// a known constant for the argument
		if r := f.rep(c.Args[0]); r != c.Args[0] {
			if t := pureCall(c.Aux, []*Term{r, c.Args[1]}); t.isBool() {
				return triOf(t == trueTerm)
			}
		}
		// two different constant suffixes of the same length exclude each other
		if c.Args[1].isStr() {
			for k, v := range f {
				if v && k.Op == "call" && k.Aux == c.Aux && k.Args[0] == c.Args[0] && k.Args[1].isStr() && k != c {
					a, b := k.Args[1].Aux, c.Args[1].Aux
					n := len(a)
					if len(b) < n {
						n = len(b)
					}
					if c.Aux == "strings.HasPrefix" {
						if a[:n] != b[:n] {
							return no
						}
					} else if a[len(a)-n:] != b[len(b)-n:] {
						return no
					}
				}
			}
		}
	}
	return unknown
}

// implied lists what else holds when an atom is assumed.
func implied(c *Term, val bool) []Lit {
	if c.Op == "call" && val {
		switch c.Aux {
		case "os.IsNotExist", "os.IsExist", "os.IsPermission":
			return []Lit{{eqTerm(c.Args[0], nilTerm), false}}
		}
	}
	return nil
}

func typedElem(t *Term) *Term {
	if t.Op == "mki" {
		return t.Args[0]
	}
	return t
}

// sprintf renders a constant format over known operands into a concatenation.
func sprintf(format string, ops []*Term) *Term {
	var out []*Term
	lit := ""
	n := 0
	flush := func() {
		if lit != "" {
			out = append(out, strTerm(lit))
			lit = ""
		}
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return nil
		}
		verb := format[i : j+1]
		i = j
		if format[j] == '%' {
			lit += "%"
			continue
		}
		if n >= len(ops) {
			return nil
		}
		op := ops[n]
		n++
		flush()
		if op.Op == "mki" {
			x := op.Args[0]
			named := false
			if nt, ok := op.Typ.(*types.Named); ok {
				named = nt.NumMethods() > 0
			}
			if b, ok := op.Typ.Underlying().(*types.Basic); ok && !named {
				if b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v") {
					out = append(out, x)
					continue
				}
				if b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v") {
					out = append(out, T.mk("itoa", "", nil, x))
					continue
				}
			}
		}
		out = append(out, T.mk("verb", verb, nil, op))
	}
	flush()
	if n != len(ops) {
		return nil
	}
	return catTerm(out...)
}

// model gives the library calls the analysis understands.
func (e *Engine) model(st *State, f *Frame, ev *CallEv) ([]Out, bool) {
	name := ev.Name
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
		if e.Havoc && len(ev.Args) > 0 {
			if a := ev.Args[0]; a.Op == "faddr" {
				e.havocObject(st, f, ev.Instr, a.Args[0])
			}
		}
		return []Out{{}}, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
		return []Out{{}}, true
	case "(*sync.Once).Do":
		// runs its argument at most once: either now or it has run before
		fn := ev.Args[1]
		if fn.Op == "func" || fn.Op == "closure" {
			o := st.clone()
			o.note(ev.Pos, "once: already done")
			fr := o.top()
			if !ev.Defer {
				fr.pc++
				if v, ok := ev.Instr.(ssa.Value); ok {
					e.set(fr, v, T.mk("tuple", "", nil))
				}
			}
			e.push(o)
			ev2 := *ev
			ev2.Fn = fn.Obj.(*ssa.Function)
			ev2.FnT = fn
			ev2.Args = nil
			ev2.Name = ev2.Fn.RelString(nil)
			e.inline(st, f, &ev2, nil, ev.Defer)
			return nil, true // handled through the pushed frame
		}
	case "fmt.Errorf", "errors.New":
		t := e.freshAlloc(st, f, ev.Instr, "error", nil)
		return []Out{{Res: T.mk("mki", "", errorStringType, t)}}, true
	case "fmt.Sprintf":
		els := e.elements(st, ev.Args[1])
		if ev.Args[1] == nilTerm {
			els = []*Term{}
		}
		if els != nil && ev.Args[0].isStr() {
			if t := sprintf(ev.Args[0].Aux, els); t != nil {
				return []Out{{Res: t}}, true
			}
		}
		if els != nil {
			return []Out{{Res: T.mk("call", name, nil, append([]*Term{ev.Args[0]}, els...)...)}}, true
		}
		return []Out{{Res: T.mk("call", name, nil, ev.Args...)}}, true
	case "fmt.Sprint", "fmt.Sprintln", "path/filepath.Join", "path.Join":
		if els := e.elements(st, ev.Args[0]); els != nil {
			if name == "fmt.Sprint" && len(els) == 1 {
				if t := sprintf("%v", els); t != nil {
					return []Out{{Res: t}}, true
				}
			}
			return []Out{{Res: pureCall(name, els)}}, true
		}
		return []Out{{Res: T.mk("call", name+"...", nil, ev.Args...)}}, true
	}
	if (name == "strings.TrimPrefix" || name == "strings.TrimSuffix") && len(ev.Args) == 2 {
		x := ev.Args[0]
		switch st.facts.eval(pureCall(strings.Replace(name, "Trim", "Has", 1), ev.Args)) {
		case yes:
			if name == "strings.TrimPrefix" {
				return []Out{{Res: sliceTerm(x, lenTerm(ev.Args[1]), nilTerm)}}, true
			}
			return []Out{{Res: sliceTerm(x, nilTerm, sub(lenTerm(x), lenTerm(ev.Args[1])))}}, true
		case no:
			return []Out{{Res: x}}, true
		}
	}
	if name == "strings.Join" && len(ev.Args) == 2 {
		if els := e.elements(st, ev.Args[0]); els != nil {
			var ps []*Term
			for i, x := range els {
				if i > 0 {
					ps = append(ps, ev.Args[1])
				}
				ps = append(ps, x)
			}
			return []Out{{Res: catTerm(ps...)}}, true
		}
	}
	if name == "strings.Cut" && len(ev.Args) == 2 {
		s, sep := ev.Args[0], ev.Args[1]
		i := pureCall("strings.Index", ev.Args)
		return []Out{
			{Res: T.mk("tuple", "", nil, sliceTerm(s, nilTerm, i), sliceTerm(s, add(i, lenTerm(sep)), nilTerm), trueTerm), Assume: []Lit{{lt0(i), false}}},
			{Res: T.mk("tuple", "", nil, s, strTerm(""), falseTerm), Assume: []Lit{{lt0(i), true}}},
		}, true
	}
	if isPure(name) {
		r := pureCall(name, ev.Args)
		n := ev.Sig.Results().Len()
		if n == 0 {
			return []Out{{}}, true
		}
		if n > 1 {
			if r.Op != "tuple" {
				rs := make([]*Term, n)
				for i := range rs {
					rs[i] = extTerm(r, i)
					if rs[i].Typ == nil {
						rs[i].Typ = ev.Sig.Results().At(i).Type()
					}
				}
				r = T.mk("tuple", "", nil, rs...)
			}
		} else if r.Typ == nil && !r.isConst() {
			r.Typ = ev.Sig.Results().At(0).Type()
		}
		return []Out{{Res: r}}, true
	}
	return nil, false
}

var errorStringType = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "errorString", nil), types.NewStruct(nil, nil), nil))
