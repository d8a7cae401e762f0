package maps

import (
	"fmt"
	"math/rand/v2"
	"slices"

	"axverif/kit"
	"axverif/typed"

	"github.com/anishathalye/porcupine"
	"github.com/axgrid/axutils/collections"
)

type tkPair struct{ k2, v int } // v 0: absent
type tkState [4]tkPair          // by first key

type tkIn struct {
	op        string
	k1, k2, v int
}
type tkOut struct {
	v    int
	ok   bool
	keys string
}

func (i tkIn) String() string  { return fmt.Sprintf("%s(%d,%d,%d)", i.op, i.k1, i.k2, i.v) }
func (o tkOut) String() string { return fmt.Sprintf("(%d,%v,%s)", o.v, o.ok, o.keys) }

func tkStep(s tkState, i tkIn, o tkOut) (bool, tkState) {
	at := func(k2 int) int {
		for k, p := range s {
			if p.v != 0 && p.k2 == k2 {
				return k
			}
		}
		return -1
	}
	list := func(second bool) string {
		var ks []int
		for k, p := range s {
			if p.v != 0 {
				if second {
					k = p.k2
				}
				ks = append(ks, k)
			}
		}
		slices.Sort(ks)
		return fmt.Sprint(ks)
	}
	switch i.op {
	case "Put":
		if k := at(i.k2); k >= 0 {
			s[k] = tkPair{}
		}
		s[i.k1] = tkPair{i.k2, i.v}
		return true, s
	case "Get":
		return o.v == s[i.k1].v && o.ok == (s[i.k1].v != 0), s
	case "GetByK2":
		if k := at(i.k2); k >= 0 {
			return o.ok && o.v == s[k].v, s
		}
		return !o.ok && o.v == 0, s
	case "Remove":
		s[i.k1] = tkPair{}
		return true, s
	case "RemoveByK2":
		if k := at(i.k2); k >= 0 {
			s[k] = tkPair{}
		}
		return true, s
	case "Len":
		n := 0
		for _, p := range s {
			if p.v != 0 {
				n++
			}
		}
		return o.v == n, s
	case "Keys":
		return o.keys == list(false), s
	case "KeysK2":
		return o.keys == list(true), s
	}
	panic(i.op)
}

var tkModel = porcupine.Model{
	Init: func() any { return tkState{} },
	Step: func(s, in, out any) (bool, any) {
		ok, n := tkStep(s.(tkState), in.(tkIn), out.(tkOut))
		return ok, n
	},
	Equal: func(a, b any) bool { return a.(tkState) == b.(tkState) },
}

func tkDo(m typed.TwoKeyMap, i tkIn) tkOut {
	show := func(ks []int) tkOut {
		ks = slices.Clone(ks)
		slices.Sort(ks)
		if len(ks) == 0 {
			ks = nil
		}
		return tkOut{keys: fmt.Sprint(ks)}
	}
	switch i.op {
	case "Put":
		m.Put(i.k1, i.k2, i.v)
	case "Get":
		v, ok := m.Get(i.k1)
		return tkOut{v: v, ok: ok}
	case "GetByK2":
		v, ok := m.GetByK2(i.k2)
		return tkOut{v: v, ok: ok}
	case "Remove":
		m.Remove(i.k1)
	case "RemoveByK2":
		m.RemoveByK2(i.k2)
	case "Len":
		return tkOut{v: m.Len()}
	case "Keys":
		return show(m.Keys())
	case "KeysK2":
		return show(m.KeysK2())
	}
	return tkOut{}
}

var tkOps = []string{"Put", "Put", "Put", "Get", "GetByK2", "GetByK2", "Remove", "RemoveByK2", "Len", "Keys", "KeysK2"}

func tkSequential(c *kit.Case) {
	m := typed.NewTwoKeyMap(c.R, 1+c.R.IntN(40))
	var s tkState
	k1s, k2s := 1+c.R.IntN(4), 1+c.R.IntN(4)
	sig := ""
	for j := 0; j < 40; j++ {
		in := tkIn{op: tkOps[c.R.IntN(len(tkOps))], k1: c.R.IntN(k1s), k2: c.R.IntN(k2s) + 10*c.R.IntN(2)*0, v: j + 1}
		out := tkDo(m, in)
		ok, n := tkStep(s, in, out)
		c.Logf("%v -> %v", in, out)
		if !ok {
			c.Violate("%v returned %v; stored pairs are %v", in, out, s)
		}
		s = n
		sig += in.String()
		// every query must agree afterwards
		var qs []tkIn
		for k := 0; k < 4; k++ {
			qs = append(qs, tkIn{op: "Get", k1: k}, tkIn{op: "GetByK2", k2: k})
		}
		qs = append(qs, tkIn{op: "Len"}, tkIn{op: "Keys"}, tkIn{op: "KeysK2"})
		for _, q := range qs {
			got := tkDo(m, q)
			if ok, _ := tkStep(s, q, got); !ok {
				c.Violate("after %v, %v returned %v; stored pairs (by first key) are %v", in, q, got, s)
			}
		}
		c.Events("sequential queries judged", len(qs))
	}
	c.Distinct(sig)
	c.Sample(func() string { return sig })
}

// tkWide compares a long history over many string keys with a reference.
func tkWide(c *kit.Case) {
	m := collections.NewTwoKeyMap[string, int64, string]()
	a, b := map[string]int64{}, map[int64]string{}
	vals := map[string]string{}
	n1, n2 := 2+c.R.IntN(30), 2+c.R.IntN(30)
	drop := func(k1 string) {
		if k2, ok := a[k1]; ok {
			delete(b, k2)
			delete(a, k1)
			delete(vals, k1)
		}
	}
	for j := 0; j < 250; j++ {
		k1, k2 := fmt.Sprint("a", c.R.IntN(n1)), int64(c.R.IntN(n2))
		switch c.R.IntN(5) {
		case 0, 1, 2:
			v := ""
			if c.R.IntN(4) > 0 {
				v = fmt.Sprint("v", j)
			}
			m.Put(k1, k2, v)
			if x, ok := b[k2]; ok {
				drop(x)
			}
			drop(k1)
			a[k1], b[k2], vals[k1] = k2, k1, v
		case 3:
			m.Remove(k1)
			drop(k1)
		case 4:
			m.RemoveByK2(k2)
			if x, ok := b[k2]; ok {
				drop(x)
			}
		}
		x, has := b[k2]
		if v, ok := m.GetByK2(k2); ok != has || v != vals[x] {
			c.Violate("step %d: GetByK2(%d) is (%q,%v), want (%q,%v)", j, k2, v, ok, vals[x], has)
		}
		_, has = a[k1]
		if v, ok := m.Get(k1); ok != has || v != vals[k1] {
			c.Violate("step %d: Get(%s) is (%q,%v), want (%q,%v)", j, k1, v, ok, vals[k1], has)
		}
		if m.Len() != len(a) || len(m.Keys()) != len(a) || len(m.KeysK2()) != len(a) {
			c.Violate("step %d: Len %d, %d first and %d second keys, want %d", j, m.Len(), len(m.Keys()), len(m.KeysK2()), len(a))
		}
	}
	for i := 0; i < n1; i++ {
		k := fmt.Sprint("a", i)
		_, has := a[k]
		if v, ok := m.Get(k); ok != has || v != vals[k] {
			c.Violate("at the end Get(%s) is (%q,%v), want (%q,%v)", k, v, ok, vals[k], has)
		}
	}
	for k2 := int64(0); k2 < int64(n2); k2++ {
		k1, has := b[k2]
		if v, ok := m.GetByK2(k2); ok != has || v != vals[k1] {
			c.Violate("at the end GetByK2(%d) is (%q,%v), want (%q,%v)", k2, v, ok, vals[k1], has)
		}
	}
	for _, k := range m.Keys() {
		if _, ok := a[k]; !ok {
			c.Violate("Keys lists %s", k)
		}
		delete(a, k)
	}
	for _, k := range m.KeysK2() {
		if _, ok := b[k]; !ok {
			c.Violate("KeysK2 lists %d", k)
		}
		delete(b, k)
	}
	if len(a)+len(b) > 0 {
		c.Violate("keys not listed: %v %v", a, b)
	}
	c.Events("sequential operations judged", 250)
	c.Distinct(n1, n2, c.Idx)
}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C04",
		Rule: "random Put/Remove sequences over few colliding keys with all queries compared after each step, distinct by sequence; random concurrent histories with overlap, distinct by interleaving and results",
		Parts: []kit.Part{
			{Name: "sequential", N: 3000, Fn: tkSequential},
			{Name: "wide", N: 600, Fn: tkWide},
			{Name: "large", N: 80, Fn: tkLarge},
			{Name: "huge", N: 2, Fn: func(c *kit.Case) { tkOf(c, 20000+c.R.IntN(60000)) }},
			{Name: "window", N: 12, Stress: true, Fn: tkWindow},
			{Name: "linearizable", N: 8000, Stress: true, Fn: func(c *kit.Case) {
				m := typed.NewTwoKeyMap(c.R, 1000*c.R.IntN(4)+1+c.R.IntN(3))
				clients, per, keys := 2+c.R.IntN(3), 2+c.R.IntN(4), 1+c.R.IntN(3)
				h := kit.NewHist(clients)
				c.Go(clients, func(g int, r *rand.Rand) {
					for j := 0; j < per; j++ {
						in := tkIn{op: tkOps[r.IntN(len(tkOps))], k1: r.IntN(keys), k2: r.IntN(keys), v: g*1000 + j + 1}
						h.Do(g, in, func() any { return tkDo(m, in) })
					}
				})
				c.Linearizable("TwoKeyMap", tkModel, h.Ops())
			}},
		},
	})
}
