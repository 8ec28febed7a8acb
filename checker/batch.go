package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// batchTrack decides whether the batch is written exactly when it has as many
// records as configured. The batch has as many records as the counter says,
// which is shown for every stretch of the goroutine between two waits.
type batchTrack struct {
	r      *Run
	s      *sink
	limit  *Term
	cell   *Term
	report bool
	fails  int
	broken bool // the counter does not say how many records the batch has
	stored bool
}

func (b *batchTrack) check(ok bool, st *State, in ssa.Instruction, f string, a ...interface{}) {
	if b.report {
		b.r.check(ok, "batch", in.Pos(), st, "%s: "+f, append([]interface{}{b.s.label}, a...)...)
	} else if !ok {
		b.fails++
	}
}

func (b *batchTrack) count(e *Engine, st *State) *Term {
	return e.load(st, b.cell, fieldVar(b.cell).Type())
}

// wait: the goroutine is about to wait, or has just received. The number of
// records in the batch is the counter plus "=delta".
func (b *batchTrack) wait(e *Engine, st *State, in ssa.Instruction, event bool) {
	if b == nil {
		return
	}
	if d := st.A["=delta"]; d != nil {
		same := st.facts.eval(eqTerm(d, intTerm(0))) == yes
		b.broken = b.broken || !same
		b.check(same, st, in, "the counter says how many records the batch has (%v more)", d)
		if st.A["=grown"] != nil && b.limit != nil {
			n := add(b.count(e, st), d)
			b.check(st.facts.eval(lt0(sub(n, b.limit))) == yes, st, in, "a batch with the number of records configured does not wait (%v of %v)", n, b.limit)
		}
	}
	delete(st.A, "=grown")
	delete(st.A, "=event")
	if event {
		st.A["=event"] = trueTerm
	}
	st.A["=delta"] = intTerm(0)
	// the counter is the number of records
	least := 0
	if st.A["pend"] != nil {
		least = 1
	}
	less := lt0(sub(b.count(e, st), intTerm(int64(least))))
	if st.facts.eval(less) == yes {
		b.broken = true
		b.check(false, st, in, "the counter says how many records the batch has")
		return
	}
	st.facts.assume(less, false)
}

// set: v is stored in the counter; the batch may be known to have nothing.
func (b *batchTrack) set(e *Engine, st *State, v *Term, none bool) {
	b.stored = true
	if none && v == intTerm(0) {
		st.A["=delta"] = intTerm(0)
		delete(st.A, "=grown")
	} else if d := st.A["=delta"]; d != nil {
		st.A["=delta"] = sub(add(d, b.count(e, st)), v)
	}
}

// back: what is known now is forgotten with the next round.
func (b *batchTrack) back(e *Engine, st *State) {
	if b == nil || b.limit == nil || st.A["=grown"] == nil || st.A["=delta"] == nil {
		return
	}
	if st.facts.eval(lt0(sub(add(b.count(e, st), st.A["=delta"]), b.limit))) == yes {
		delete(st.A, "=grown")
	}
}

func (b *batchTrack) added(st *State) {
	if b != nil && st.A["=delta"] != nil {
		st.A["=delta"] = add(st.A["=delta"], intTerm(1))
		st.A["=grown"] = trueTerm
	}
}

func (b *batchTrack) written(e *Engine, st *State, in ssa.Instruction, last bool) {
	if b == nil || st.A["=delta"] == nil {
		return
	}
	n := b.count(e, st)
	if st.A["=event"] != nil && !last && b.limit != nil {
		has := add(n, st.A["=delta"])
		b.check(st.facts.eval(lt0(sub(has, b.limit))) == no, st, in, "the batch is written only with the number of records configured (%v of %v)", has, b.limit)
	}
	st.A["=delta"] = mulc(n, -1)
	delete(st.A, "=grown")
}

// countOf finds the counter of the records in the batch, if there is one.
func (r *Run) countOf(s *sink) *batchTrack {
	cells := map[*Term]string{}
	for k := range s.full {
		if countCell(r, s, k) {
			cells[k] = ""
		}
	}
	for _, c := range sortTerms(cells) {
		b := &batchTrack{r: r, s: s, cell: c}
		o := r.outEngine(s, "C22")
		o.batch = b
		r.goroutine(o, s, "C22", nil)
		if b.stored && !b.broken {
			return b
		}
	}
	return nil
}

func countCell(r *Run, s *sink, k *Term) bool {
	fv := fieldVar(k)
	return fv != nil && k.Op == "faddr" && isInteger(fv.Type()) && s.heap[k] == nil && !types.Identical(fv.Type(), r.apiType("Level"))
}

// batchLimit decides what batch_num does.
func (r *Run) batchLimit(batch *types.Var, fn *ssa.Function) {
	if batch == nil || fn == nil {
		return
	}
	for _, s := range r.outputs() {
		if s.fn != fn || len(s.spawn) == 0 {
			continue
		}
		var limit *Term
		cells := map[*Term]string{}
		for k, v := range s.full {
			fv := fieldVar(k)
			switch {
			case fv == nil || k.Op != "faddr":
			case fv == batch:
				limit = v
			case countCell(r, s, k):
				cells[k] = ""
			}
		}
		if limit == nil {
			continue
		}
		var best *batchTrack
		for _, c := range sortTerms(cells) {
			b := &batchTrack{r: r, s: s, limit: limit, cell: c}
			o := r.outEngine(s, "C22")
			o.batch = b
			r.goroutine(o, s, "C22", nil)
			if b.stored && (best == nil || b.fails < best.fails) {
				best = b
			}
		}
		if best != nil { // without a counter, the records are counted by what holds them
			best.report = true
			o := r.outEngine(s, "C22")
			o.batch = best
			r.goroutine(o, s, "C22", nil)
		}
	}
}
