package kit

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
)

// Hist records operations of concurrent clients without ordering them.
type Hist struct{ per [][]porcupine.Operation }

// NewHist makes a history of n clients.
func NewHist(n int) *Hist {
	h := &Hist{per: make([][]porcupine.Operation, n)}
	for i := range h.per {
		h.per[i] = make([]porcupine.Operation, 0, 32)
	}
	return h
}

// Do runs one operation of client g.
func (h *Hist) Do(g int, in any, f func() any) {
	t0 := Now()
	out := f()
	h.per[g] = append(h.per[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: Now()})
}

// Ops returns all operations, by call time.
func (h *Hist) Ops() []porcupine.Operation {
	var all []porcupine.Operation
	for _, p := range h.per {
		all = append(all, p...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	return all
}

// Show writes a history.
func Show(ops []porcupine.Operation) string {
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, "g%d [%d,%d] %v -> %v\n", o.ClientId, o.Call, o.Return, o.Input, o.Output)
	}
	return b.String()
}

// Overlaps counts operations that overlap another one.
func Overlaps(ops []porcupine.Operation) int {
	n := 0
	var end int64 = -1
	for i, o := range ops {
		if o.Call <= end || (i+1 < len(ops) && ops[i+1].Call <= o.Return) {
			n++
		}
		end = max(end, o.Return)
	}
	return n
}

// Linearizable checks a history against a model. Orders and results that were
// seen are counted as distinct behaviour when operations overlapped.
func (c *Case) Linearizable(what string, model porcupine.Model, ops []porcupine.Operation) {
	if len(ops) == 0 {
		return
	}
	res := porcupine.CheckOperationsTimeout(model, ops, 20*time.Second)
	switch res {
	case porcupine.Illegal:
		c.Violate("%s: the history is not linearizable\n%s", what, Show(ops))
	case porcupine.Unknown:
		c.Inconclusive("linearizability search ran out of time")
		return
	}
	c.Events("operations in checked histories", len(ops))
	ov := Overlaps(ops)
	c.Events("operations overlapping another", ov)
	if ov > 0 {
		c.Distinct(shape(ops))
	}
	c.Sample(func() string { return what + ":\n" + Show(ops) })
}

// shape is the interleaving of a history: who called and returned in which
// order, and with which results, without the times.
func shape(ops []porcupine.Operation) string {
	type ev struct {
		t int64
		s string
	}
	evs := make([]ev, 0, 2*len(ops))
	for _, o := range ops {
		evs = append(evs, ev{o.Call, fmt.Sprintf("c%d%v", o.ClientId, o.Input)}, ev{o.Return, fmt.Sprintf("r%d%v", o.ClientId, o.Output)})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	var b strings.Builder
	for _, e := range evs {
		b.WriteString(e.s)
	}
	return b.String()
}
