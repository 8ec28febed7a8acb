package main

import (
	"go/types"
	"strings"
)

// Content of in-memory buffers: content(b) is the text written to b so far.

func contentOf(b *Term) *Term { return T.mk("content", "", nil, b) }

func (st *State) content(b *Term) *Term {
	if c, ok := st.heap[contentOf(b)]; ok {
		return c
	}
	if isFreshObj(root(b)) {
		if _, dirty := st.heap[markOf(root(b))]; !dirty {
			return strTerm("")
		}
	}
	return T.mk("ld", "", types.Typ[types.String], contentOf(b))
}

func isBufType(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

// bufferCall models the calls that read and write in-memory buffers. onWrite
// is told of every piece written and may give what to keep as the content.
func (e *Engine) bufferCall(st *State, c *CallEv, onWrite func(b, piece *Term) *Term) ([]Out, bool) {
	write := func(b, piece, n *Term) ([]Out, bool) {
		nc := catTerm(st.content(b), piece)
		if onWrite != nil {
			if k := onWrite(b, piece); k != nil {
				nc = k
			}
		}
		st.heap[contentOf(b)] = nc
		if n == nil {
			n = lenTerm(piece)
		}
		return []Out{{Res: T.mk("tuple", "", nil, n, nilTerm)}}, true
	}
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		if !strings.HasPrefix(c.Name, p) {
			continue
		}
		b := c.Args[0]
		switch strings.TrimPrefix(c.Name, p) {
		case "Write", "WriteString":
			return write(b, strip(c.Args[1]), nil)
		case "WriteByte", "WriteRune":
			x := T.mk("conv", "char", types.Typ[types.String], c.Args[1])
			if c.Args[1].isInt() {
				x = strTerm(string(rune(c.Args[1].C)))
			}
			o, _ := write(b, x, nil)
			if strings.HasSuffix(c.Name, "WriteByte") {
				o[0].Res = nilTerm
			}
			return o, true
		case "Bytes", "String":
			return []Out{{Res: st.content(b)}}, true
		case "Len":
			return []Out{{Res: lenTerm(st.content(b))}}, true
		case "Grow":
			return []Out{{}}, true
		case "Reset":
			st.heap[contentOf(b)] = strTerm("")
			return []Out{{}}, true
		case "Truncate":
			if c.Args[1].isInt() && c.Args[1].C == 0 {
				st.heap[contentOf(b)] = strTerm("")
			} else {
				st.heap[contentOf(b)] = sliceTerm(st.content(b), nilTerm, c.Args[1])
			}
			return []Out{{}}, true
		}
		return nil, false
	}
	switch c.Name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		w := c.Args[0]
		if w.Op != "mki" || !isBufType(w.Typ) {
			return nil, false
		}
		x := c.Args[1]
		if c.Name != "io.WriteString" {
			ev := *c
			ev.Name = "fmt.S" + strings.TrimPrefix(c.Name, "fmt.F")
			ev.Args = c.Args[1:]
			outs, ok := e.model(st, c.Frame, &ev)
			if !ok || len(outs) != 1 {
				return nil, false
			}
			x = outs[0].Res
		}
		return write(w.Args[0], strip(x), nil)
	case "bytes.NewBuffer", "bytes.NewBufferString":
		b := e.freshAlloc(st, c.Frame, c.Instr, "buffer", deref(c.Sig.Results().At(0).Type()))
		x := strip(c.Args[0])
		if x == nilTerm {
			x = strTerm("")
		}
		if strings.HasPrefix(x.Op, "mkslice") || x.Op == "slice" && lenTerm(x).isInt() && lenTerm(x).C == 0 {
			x = strTerm("")
		}
		st.heap[contentOf(b)] = x
		return []Out{{Res: b}}, true
	}
	return nil, false
}
