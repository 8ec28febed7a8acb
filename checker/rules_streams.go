package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// diagnostics decides where the library may speak on its own behalf.
type diagnostics struct {
	r       *Run
	callers map[*ssa.Function][]ssa.Instruction
	taken   map[*ssa.Function]bool
	busyF   map[*ssa.Function]bool
}

func runC33(r *Run) {
	d := &diagnostics{r: r, callers: map[*ssa.Function][]ssa.Instruction{}, taken: map[*ssa.Function]bool{}, busyF: map[*ssa.Function]bool{}}
	user := func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Name() == "main" }
	r.P.instrs(func(f *ssa.Function, in ssa.Instruction) {
		var callee ssa.Value
		if c, ok := in.(ssa.CallInstruction); ok {
			callee = c.Common().Value
			if s := c.Common().StaticCallee(); s != nil {
				d.callers[s] = append(d.callers[s], in)
			}
		}
		if mc, ok := in.(*ssa.MakeClosure); ok {
			// a closure called or deferred at once is accounted for by its call
			if mc.Referrers() != nil {
				for _, x := range *mc.Referrers() {
					if c, ok := x.(ssa.CallInstruction); !ok || c.Common().Value != ssa.Value(mc) {
						d.taken[mc.Fn.(*ssa.Function)] = true
					}
				}
			}
			return
		}
		for _, op := range in.Operands(nil) {
			if *op == nil || *op == callee {
				continue
			}
			if g, ok := (*op).(*ssa.Function); ok {
				d.taken[g] = true
			}
		}
	})
	r.P.instrs(func(f *ssa.Function, in ssa.Instruction) {
		if user(f) {
			return
		}
		for _, op := range in.Operands(nil) {
			if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				s := constant.StringVal(c.Value)
				for _, p := range []string{"/dev/stdout", "/dev/fd/1", "/proc/self/fd/1", "/dev/tty"} {
					if strings.Contains(s, p) {
						r.bad("standard output", in.Pos(), nil, "standard output is named by its path %q", p)
					}
				}
			}
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok && g.RelString(nil) == "os.Stdout" {
				d.flow(u, map[ssa.Value]bool{})
			}
		}
		if s, ok := in.(*ssa.Store); ok {
			if g, ok := s.Addr.(*ssa.Global); ok && (g.RelString(nil) == "os.Stdout" || g.RelString(nil) == "os.Stderr") {
				r.bad("standard streams", in.Pos(), nil, "a standard stream is replaced")
			}
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		n := calleeName(c.Common())
		switch n {
		case "fmt.Print", "fmt.Printf", "fmt.Println":
			r.bad("standard output", in.Pos(), nil, "%s writes to standard output", n)
			return
		case "syscall.Write", "os.NewFile", "syscall.Dup2", "syscall.Dup3", "syscall.Syscall", "syscall.RawSyscall":
			r.bad("standard output", in.Pos(), nil, "%s may write to standard output", n)
			return
		case "log.SetOutput", "(*log.Logger).SetOutput":
			r.bad("standard streams", in.Pos(), nil, "%s sends diagnostics elsewhere", n)
			return
		}
		if d.diagnostic(c, n) {
			good := d.onFailure(in)
			r.check(good, "diagnostic", in.Pos(), nil, "the diagnostic of %s is given only on a failure or where nothing is configured", f.RelString(nil))
		}
	})
	r.need("destination", 1)
	r.need("diagnostic", 2)
	// the outputs which are not consoles do not end at standard output
	if p := r.entryPoints(); p != nil {
		r.registeredTypes(p, func(kind, name string, f *Term) {
			if kind == "Output" && name != "console" {
				r.keepsOff(name, f)
			}
		})
	}
}

// diagnostic: the call makes the library speak.
func (d *diagnostics) diagnostic(c ssa.CallInstruction, n string) bool {
	com := c.Common()
	if n == "builtin.println" || n == "builtin.print" {
		return true
	}
	if n == "log.New" {
		return false
	}
	for _, p := range []string{"log.", "(*log.Logger).", "log/slog.", "(*log/slog.Logger)."} {
		if strings.HasPrefix(n, p) {
			m := n[len(p):]
			for _, v := range []string{"Print", "Fatal", "Panic", "Output", "Log", "Debug", "Info", "Warn", "Error"} {
				if strings.HasPrefix(m, v) {
					return true
				}
			}
		}
	}
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	if len(args) == 0 || !(strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "(*os.File).Write") || n == "io.WriteString" || n == "(io.Writer).Write") {
		return false
	}
	v := args[0]
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			return ok && g.RelString(nil) == "os.Stderr"
		}
		return false
	}
}

// flow follows standard output to where it ends up.
func (d *diagnostics) flow(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	r := d.r
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Phi, *ssa.ChangeType, *ssa.Extract, *ssa.MakeClosure:
			if mc, ok := x.(*ssa.MakeClosure); ok {
				for i, b := range mc.Bindings {
					if b == v {
						d.flow(mc.Fn.(*ssa.Function).FreeVars[i], seen)
					}
				}
				continue
			}
			d.flow(x.(ssa.Value), seen)
		case *ssa.BinOp, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op == token.MUL {
				d.flow(x, seen)
			}
		case *ssa.Return:
			f := x.Parent()
			if len(d.callers[f]) == 0 || d.taken[f] {
				r.bad("standard output", in.Pos(), nil, "standard output leaves the library by %s", f.Name())
			}
			for _, c := range d.callers[f] {
				if cv, ok := c.(ssa.Value); ok {
					d.flow(cv, seen)
				}
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.Alloc:
				d.flow(a, seen)
			case *ssa.FieldAddr:
				ok := d.outputPart(deref(a.X.Type()))
				r.check(ok, "destination", in.Pos(), nil, "standard output becomes the destination of an output (%s)", a.X.Type())
			default:
				r.bad("standard output", in.Pos(), nil, "standard output is kept outside of an output")
			}
		case ssa.CallInstruction:
			com := x.Common()
			f := com.StaticCallee()
			if f == nil || f.Blocks == nil || !r.P.IsRepo(f) {
				r.bad("standard output", in.Pos(), nil, "%s is given standard output", calleeName(com))
				continue
			}
			for i, a := range com.Args {
				if a == v && i < len(f.Params) {
					d.flow(f.Params[i], seen)
				}
			}
		default:
			r.bad("standard output", in.Pos(), nil, "standard output is used here other than as the destination of an output")
		}
	}
}

// outputPart: the struct is an output, or what an output is made of.
func (d *diagnostics) outputPart(t types.Type) bool {
	out := d.r.iface("Output")
	if out == nil {
		return false
	}
	if types.Implements(types.NewPointer(t), out) || types.Implements(t, out) {
		return true
	}
	for _, o := range d.r.impls("Output") {
		if s := structOf(o); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(deref(s.Field(i).Type()), t) {
					return true
				}
			}
		}
	}
	return false
}

// onFailure: the instruction runs only after something failed or turned out
// to be missing.
func (d *diagnostics) onFailure(in ssa.Instruction) bool {
	if d.blockFails(in.Block(), map[*ssa.BasicBlock]bool{}) {
		return true
	}
	f := in.Parent()
	if d.busyF[f] {
		return true
	}
	if d.taken[f] || len(d.callers[f]) == 0 {
		return false
	}
	if o := f.Object(); o != nil && o.Exported() && f.Signature.Recv() == nil {
		return false
	}
	d.busyF[f] = true
	defer delete(d.busyF, f)
	for _, c := range d.callers[f] {
		if !d.onFailure(c) {
			return false
		}
	}
	return true
}

func (d *diagnostics) blockFails(b *ssa.BasicBlock, busy map[*ssa.BasicBlock]bool) bool {
	if busy[b] {
		return true
	}
	if len(b.Preds) == 0 {
		return false
	}
	busy[b] = true
	defer delete(busy, b)
	for _, p := range b.Preds {
		if !d.edgeFails(p, b, busy) {
			return false
		}
	}
	return true
}

func (d *diagnostics) edgeFails(p, b *ssa.BasicBlock, busy map[*ssa.BasicBlock]bool) bool {
	if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		if d.fails(br.Cond, p.Succs[0] == b, 0) {
			return true
		}
	}
	return d.blockFails(p, busy)
}

// fails: that v has the value want means that something failed or is missing.
func (d *diagnostics) fails(v ssa.Value, want bool, depth int) bool {
	if depth > 8 {
		return false
	}
	errT := types.Universe.Lookup("error").Type()
	isNil := func(x ssa.Value) bool { c, ok := x.(*ssa.Const); return ok && c.IsNil() }
	intv := func(x ssa.Value) (int64, bool) {
		c, ok := x.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		return c.Int64(), true
	}
	isLen := func(x ssa.Value) bool {
		c, ok := x.(*ssa.Call)
		return ok && calleeName(c.Common()) == "builtin.len"
	}
	recovered := func(x ssa.Value) bool {
		c, ok := x.(*ssa.Call)
		return ok && calleeName(c.Common()) == "builtin.recover"
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return d.fails(x.X, !want, depth+1)
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Call); !ok {
			return !want && x.Index == 1 // comma, ok
		}
		if c := x.Tuple.(*ssa.Call).Common().StaticCallee(); c != nil && d.r.P.IsRepo(c) && c.Blocks != nil {
			return d.callFails(c, x.Index, want, depth)
		}
		return !want // found, ok
	case *ssa.Call:
		n := calleeName(x.Common())
		for _, s := range []string{"errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout"} {
			if n == s {
				return want
			}
		}
		if c := x.Common().StaticCallee(); c != nil && d.r.P.IsRepo(c) && c.Blocks != nil {
			return d.callFails(c, 0, want, depth)
		}
	case *ssa.Phi:
		for i, ed := range x.Edges {
			if c, ok := ed.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != want {
				continue
			}
			if d.edgeFails(x.Block().Preds[i], x.Block(), map[*ssa.BasicBlock]bool{x.Block(): true}) {
				continue
			}
			if _, ok := ed.(*ssa.Const); !ok && d.fails(ed, want, depth+1) {
				continue
			}
			return false
		}
		return true
	case *ssa.BinOp:
		a, b, op := x.X, x.Y, x.Op
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !want {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		if isNil(b) {
			if types.Identical(a.Type(), errT) || recovered(a) {
				return op == token.NEQ
			}
			return op == token.EQL
		}
		if k, ok := intv(b); ok && isLen(a) {
			return op == token.EQL && k == 0 || op == token.LSS && k == 1 || op == token.LEQ && k == 0
		}
		if c, ok := b.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
			return op == token.EQL
		}
		// an error compared with a known one
		if types.Identical(a.Type(), errT) && op == token.EQL && !isNil(b) {
			return true
		}
	}
	return false
}

// callFails: that the function's i-th result is want means a failure.
func (d *diagnostics) callFails(f *ssa.Function, i int, want bool, depth int) bool {
	n := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		n++
		v := ret.Results[i]
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) != want || d.blockFails(b, map[*ssa.BasicBlock]bool{}) {
				continue
			}
			return false
		}
		if !d.fails(v, want, depth+1) && !d.blockFails(b, map[*ssa.BasicBlock]bool{}) {
			return false
		}
	}
	return n > 0
}
