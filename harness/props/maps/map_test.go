package maps

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync/atomic"

	"axverif/kit"
	"axverif/typed"

	"github.com/anishathalye/porcupine"
	"github.com/axgrid/axutils/collections"
)

// mapIn and mapOut are one operation on a map of int keys 0..maxKeys-1.
type mapIn struct {
	op  string
	key int
	val int
}
type mapOut struct {
	v     int
	ok    bool
	calls int // of the function given to SetIfNotExistsWithFunc
}

func (i mapIn) String() string  { return fmt.Sprintf("%s(%d,%d)", i.op, i.key, i.val) }
func (o mapOut) String() string { return fmt.Sprintf("(%d,%v,%d)", o.v, o.ok, o.calls) }

const maxKeys = 4

type mapState [maxKeys]int // 0: absent

func mapStep(s mapState, i mapIn, o mapOut) (bool, mapState) {
	cur := s[i.key]
	switch i.op {
	case "Get":
		return o.v == cur && o.ok == (cur != 0), s
	case "Has":
		return o.ok == (cur != 0), s
	case "Set":
		s[i.key] = i.val
		return true, s
	case "Delete":
		s[i.key] = 0
		return true, s
	case "Clear":
		return true, mapState{}
	case "SetIfNotExists":
		if o.ok != (cur == 0) {
			return false, s
		}
		if o.ok {
			s[i.key] = i.val
		}
		return true, s
	case "SetIfNotExistsWithFunc":
		if o.ok != (cur == 0) {
			return false, s
		}
		if o.ok {
			s[i.key] = i.val
			return o.v == i.val && o.calls == 1, s
		}
		return o.v == cur && o.calls == 0, s
	case "Size":
		n := 0
		for _, v := range s {
			if v != 0 {
				n++
			}
		}
		return o.v == n, s
	}
	panic(i.op)
}

var mapModel = porcupine.Model{
	Init:  func() any { return mapState{} },
	Step:  func(s, in, out any) (bool, any) { return mapStep2(s, in, out) },
	Equal: func(a, b any) bool { return a.(mapState) == b.(mapState) },
}

func mapStep2(s, in, out any) (bool, any) {
	ok, n := mapStep(s.(mapState), in.(mapIn), out.(mapOut))
	return ok, n
}

type clearer interface{ Clear() }

func mapDo(m collections.Map[int, int], i mapIn) mapOut {
	switch i.op {
	case "Get":
		v, ok := m.Get(i.key)
		return mapOut{v: v, ok: ok}
	case "Has":
		return mapOut{ok: m.Has(i.key)}
	case "Set":
		m.Set(i.key, i.val)
	case "Delete":
		m.Delete(i.key)
	case "Clear":
		m.(clearer).Clear()
	case "SetIfNotExists":
		return mapOut{ok: m.SetIfNotExists(i.key, i.val)}
	case "SetIfNotExistsWithFunc":
		n := 0
		v, ok := m.SetIfNotExistsWithFunc(i.key, func() int { n++; runtime.Gosched(); return i.val })
		return mapOut{v: v, ok: ok, calls: n}
	case "Size":
		return mapOut{v: m.Size()}
	}
	return mapOut{}
}

var simpleOps = []string{"Get", "Get", "Set", "Delete", "Has", "SetIfNotExists", "SetIfNotExistsWithFunc", "Size"}
var shardOps = []string{"Get", "Get", "Set", "Delete", "Has", "SetIfNotExists", "SetIfNotExistsWithFunc", "Clear"}

// shardMap builds a map with a random layout.
func shardMap(r *rand.Rand, zero int) (typed.Map, string) {
	n := r.IntN(9) + 1
	f, name := func(k int) int { return k % n }, "k%n"
	switch r.IntN(4) {
	case 0:
		f, name = func(k int) int { return n - 1 }, "last"
	case 1:
		f, name = func(k int) int { return (n - 1) - k%n }, "reversed"
	case 2:
		f, name = func(k int) int { return (k / 2) % n }, "k/2%n"
	}
	return typed.ShardMap(r, zero, n, f), fmt.Sprintf("shards=%d func=%s", n, name)
}

// zeroOf picks a value of a history of so many clients and steps: it is stored
// as the zero value of the map's type. electionZero does for elections.
func zeroOf(r *rand.Rand, clients, steps int) int { return r.IntN(clients)*1000 + r.IntN(steps) + 1 }
func electionZero(r *rand.Rand) int               { return r.IntN(8)*100 + r.IntN(12) + 1 }

// mapHistory runs clients with random operations.
func mapHistory(c *kit.Case, m collections.Map[int, int], ops []string) []porcupine.Operation {
	clients, per, keys := 2+c.R.IntN(4), 3+c.R.IntN(5), 1+c.R.IntN(3)
	h := kit.NewHist(clients)
	c.Go(clients, func(g int, r *rand.Rand) {
		for j := 0; j < per; j++ {
			in := mapIn{op: ops[r.IntN(len(ops))], key: r.IntN(keys), val: g*1000 + j + 1}
			h.Do(g, in, func() any { return mapDo(m, in) })
		}
	})
	return h.Ops()
}

func perKey(ops []porcupine.Operation, key int) []porcupine.Operation {
	var out []porcupine.Operation
	for _, o := range ops {
		if i := o.Input.(mapIn); i.key == key || i.op == "Clear" {
			if i.op == "Clear" {
				i.key = key
				o.Input = i
			}
			out = append(out, o)
		}
	}
	return out
}

// election: many goroutines create the same fresh keys.
func election(c *kit.Case, m collections.Map[int, int]) {
	n, keys := 2+c.R.IntN(7), 12
	type res struct {
		v, calls int
		ok       bool
	}
	got := make([][]res, n)
	variant := c.R.IntN(3)
	c.Go(n, func(g int, r *rand.Rand) {
		out := make([]res, keys)
		for k := 0; k < keys; k++ {
			x := res{}
			val := g*100 + k + 1
			if variant == 0 || (variant == 2 && r.IntN(2) == 0) {
				x.ok = m.SetIfNotExists(k, val)
				x.v, _ = m.Get(k)
			} else {
				x.v, x.ok = m.SetIfNotExistsWithFunc(k, func() int { x.calls++; return val })
				if x.calls != map[bool]int{true: 1, false: 0}[x.ok] {
					c.Violate("SetIfNotExistsWithFunc(%d) reported created=%v but ran its function %d times", k, x.ok, x.calls)
				}
			}
			out[k] = x
		}
		got[g] = out
	})
	shape := ""
	for k := 0; k < keys; k++ {
		winner := -1
		for g := range got {
			if got[g][k].ok {
				if winner >= 0 {
					c.Violate("key %d: goroutines %d and %d were both told they created it", k, winner, g)
				}
				winner = g
			}
		}
		if winner < 0 {
			c.Violate("key %d: nobody was told to have created it", k)
		}
		for g := range got {
			if want := winner*100 + k + 1; got[g][k].v != want {
				c.Violate("key %d: goroutine %d saw %d, the creator stored %d", k, g, got[g][k].v, want)
			}
		}
		shape += fmt.Sprint(winner)
	}
	if s := m.Size(); s != keys {
		c.Violate("Size is %d after creating %d keys", s, keys)
	}
	c.Events("elections judged", keys)
	c.Distinct(n, variant, shape)
	c.Sample(func() string { return fmt.Sprintf("%d goroutines create %d keys, creators %s", n, keys, shape) })
}

// sequential compares a long single-client history with an ordinary map, with
// keys and values of another type than the concurrent parts use.
func sequential(c *kit.Case, m interface {
	collections.Map[string, *int]
}, clear func()) {
	ref := map[string]*int{}
	keys := 1 + c.R.IntN(20)
	sig := ""
	for j := 0; j < 120; j++ {
		k := fmt.Sprintf("k%d", c.R.IntN(keys))
		if c.R.IntN(20) == 0 {
			k = ""
		}
		var v *int // nil is a value like any other
		if c.R.IntN(4) > 0 {
			v = new(int)
			*v = j
		}
		cur, has := ref[k]
		fail := func(got ...any) { c.Violate("step %d key %q: got %v, stored (%v,%v)", j, k, got, cur, has) }
		op := c.R.IntN(8)
		switch op {
		case 0:
			if g, ok := m.Get(k); g != cur || ok != has {
				fail("Get", g, ok)
			}
		case 1, 2:
			m.Set(k, v)
			ref[k] = v
		case 3:
			m.Delete(k)
			delete(ref, k)
		case 4:
			if ok := m.Has(k); ok != has {
				fail("Has", ok)
			}
		case 5:
			if ok := m.SetIfNotExists(k, v); ok == has {
				fail("SetIfNotExists", ok)
			}
			if !has {
				ref[k] = v
			}
		case 6:
			n := 0
			g, ok := m.SetIfNotExistsWithFunc(k, func() *int { n++; return v })
			if !has {
				ref[k], cur = v, v
			}
			if ok == has || g != cur || (n == 1) != ok || n > 1 {
				fail("SetIfNotExistsWithFunc", g, ok, n)
			}
		case 7:
			if clear != nil && c.R.IntN(5) == 0 {
				clear()
				ref = map[string]*int{}
				op = 8
			}
		}
		sig += fmt.Sprint(op)
		if s := m.Size(); s != len(ref) {
			c.Violate("step %d: Size is %d, %d keys are stored", j, s, len(ref))
		}
		if g, ok := m.Get(k); func() bool { w, h := ref[k]; return g != w || ok != h }() {
			c.Violate("step %d op %d: key %q is (%v,%v) afterwards", j, op, k, g, ok)
		}
	}
	for k, v := range ref {
		if g, ok := m.Get(k); !ok || g != v {
			c.Violate("at the end key %q is (%v,%v), want %v", k, g, ok, v)
		}
	}
	c.Events("sequential operations judged", 120)
	c.Distinct(sig)
}

// hammer has every goroutine own some keys and share others, on a bigger scale.
func hammer(c *kit.Case, m collections.Map[int, int]) {
	n, per := 8, 60
	c.Go(n, func(g int, r *rand.Rand) {
		own := map[int]int{}
		for j := 0; j < per; j++ {
			k := 1000*(g+1) + r.IntN(8)
			switch r.IntN(6) {
			case 0, 1:
				m.Set(k, j+1)
				own[k] = j + 1
			case 2:
				m.Delete(k)
				delete(own, k)
			case 3:
				ok := m.SetIfNotExists(k, j+1)
				if _, had := own[k]; had == ok {
					c.Violate("SetIfNotExists(%d)=%v though only this goroutine uses the key (present: %v)", k, ok, had)
				}
				if ok {
					own[k] = j + 1
				}
			case 4:
				m.Set(7, j)
				m.Get(7)
				m.Has(7)
				m.Delete(8)
			case 5:
				m.Size()
			}
			if v, ok := m.Get(k); v != own[k] || ok != (own[k] != 0) {
				c.Violate("key %d, used by one goroutine only, is (%d,%v), want %d", k, v, ok, own[k])
			}
		}
		for k := range own {
			m.Delete(k)
		}
	})
	m.Delete(7)
	if s := m.Size(); s != 0 {
		c.Violate("Size is %d after every key was deleted", s)
	}
	c.Events("operations on keys owned by one of 8 goroutines", n*per*2)
	c.Distinct("hammer", c.Idx)
}

// sizes asks for the size while keys that stay are written, and each writer
// has at most one key of its own besides.
func sizes(c *kit.Case, m collections.Map[int, int], label string) {
	stay, writers := []int{1, 20, 300, 3000}[c.Idx%4]+c.R.IntN(20), 2+c.R.IntN(4)
	for k := 0; k < stay; k++ {
		m.Set(k, k+1)
	}
	var running atomic.Int32
	running.Store(int32(writers))
	lo, hi, asked := stay, stay, 0
	c.Go(writers+1, func(g int, r *rand.Rand) {
		if g == 0 {
			for running.Load() > 0 || asked == 0 {
				n := m.Size()
				if n < stay || n > stay+writers {
					c.Violate("%s: Size is %d while %d keys stay and at most %d come and go", label, n, stay, writers)
				}
				lo, hi = min(lo, n), max(hi, n)
				asked++
				c.Tick()
			}
			return
		}
		defer running.Add(-1)
		for j := 0; j < 150; j++ {
			k := r.IntN(stay)
			switch r.IntN(5) {
			case 0, 1:
				m.Set(k, k+1)
			case 2:
				m.SetIfNotExists(k, 0)
			case 3:
				if v, ok := m.Get(k); !ok || v != k+1 {
					c.Violate("%s: key %d, never deleted, is (%d,%v)", label, k, v, ok)
				}
			case 4:
				own := -1 - g // always the same: sizes of shards are added up one after the other
				m.Set(own, 1)
				m.Delete(own)
			}
		}
	})
	if n := m.Size(); n != stay {
		c.Violate("%s: Size is %d at rest, %d keys are stored", label, n, stay)
	}
	c.Events("sizes asked for while keys were written", asked)
	c.Distinct("sizes", stay, writers, lo, hi)
}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C01",
		Rule: "random concurrent histories (2-5 clients, 1-3 keys) with operations overlapping, distinct by interleaving and results; creation races by who won each key; sequential histories by operation sequence",
		Parts: []kit.Part{
			{Name: "linearizable", N: 16000, Stress: true, Fn: func(c *kit.Case) {
				m := typed.SimpleMap(c.R, zeroOf(c.R, 6, 5))
				c.Linearizable("SimpleMap", mapModel, mapHistory(c, m, simpleOps))
			}},
			{Name: "election", N: 4000, Stress: true, Fn: func(c *kit.Case) { election(c, typed.SimpleMap(c.R, electionZero(c.R))) }},
			{Name: "hammer", N: 320, Stress: true, Fn: func(c *kit.Case) { hammer(c, typed.SimpleMap(c.R, 1+c.R.IntN(20))) }},
			{Name: "sequential", N: 2400, Fn: func(c *kit.Case) { sequential(c, collections.NewSimpleMap[string, *int](), nil) }},
			{Name: "sizes", N: 120, Stress: true, Fn: func(c *kit.Case) { sizes(c, collections.NewSimpleMap[int, int](), "SimpleMap") }},
			{Name: "large", N: 160, Fn: simpleLarge},
			{Name: "crowd", N: 40, Stress: true, Fn: func(c *kit.Case) { crowd(c, typed.SimpleMap(c.R, 0)) }},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C02",
		Rule: "random shard layouts; per-key concurrent histories with Clear as a deletion of each key, distinct by interleaving and results; creation races by who won each key; sequential histories by operation sequence",
		Parts: []kit.Part{
			{Name: "linearizable", N: 12000, Stress: true, Fn: func(c *kit.Case) {
				m, layout := shardMap(c.R, zeroOf(c.R, 6, 5))
				ops := shardOps
				withSize := c.R.IntN(3) == 0
				if withSize {
					ops = append(append([]string{}, ops...), "Size")
				}
				all := mapHistory(c, m, ops)
				left := 0
				for k := 0; k < maxKeys; k++ {
					c.Linearizable(fmt.Sprintf("ShardMap %s key %d", layout, k), mapModel, noSize(perKey(all, k)))
					if m.Has(k) {
						left++
					}
				}
				if s := m.Size(); s != left {
					c.Violate("%s: Size is %d at rest, %d keys are stored", layout, s, left)
				}
				m.(clearer).Clear()
				if s := m.Size(); s != 0 {
					c.Violate("%s: Size is %d after Clear", layout, s)
				}
			}},
			{Name: "election", N: 4000, Stress: true, Fn: func(c *kit.Case) { m, _ := shardMap(c.R, electionZero(c.R)); election(c, m) }},
			{Name: "hammer", N: 320, Stress: true, Fn: func(c *kit.Case) { m, _ := shardMap(c.R, 1+c.R.IntN(20)); hammer(c, m) }},
			{Name: "sequential", N: 2400, Fn: func(c *kit.Case) {
				n := 1 + c.R.IntN(12)
				b := collections.NewShardMap[string, *int]()
				if c.R.IntN(4) > 0 {
					b.WithShardsCount(n)
				} else {
					n = 6 // the default
				}
				mul := c.R.IntN(31) + 1
				m := b.WithShardsFunc(func(k string) int {
					h := 0
					for _, x := range []byte(k) {
						h = h*mul + int(x)
					}
					if h < 0 {
						h = -h
					}
					return h % n
				}).Build()
				sequential(c, m, m.Clear)
			}},
			{Name: "sizes", N: 200, Stress: true, Fn: func(c *kit.Case) {
				n := 1 + c.R.IntN(9)
				sizes(c, collections.NewShardMap[int, int]().WithShardsCount(n).WithShardsFunc(func(k int) int { return max(k, -k) % n }).Build(), fmt.Sprint("ShardMap of ", n, " shards"))
			}},
			{Name: "large", N: 160, Fn: shardLarge},
			{Name: "crowd", N: 40, Stress: true, Fn: func(c *kit.Case) {
				n := []int{1, 6, 16, 64, 100}[c.R.IntN(5)]
				crowd(c, collections.NewShardMap[int, int]().WithShardsCount(n).WithShardsFunc(func(k int) int { return k % n }).Build())
			}},
		},
	})
}

func noSize(ops []porcupine.Operation) []porcupine.Operation {
	var out []porcupine.Operation
	for _, o := range ops {
		if o.Input.(mapIn).op != "Size" {
			out = append(out, o)
		}
	}
	return out
}
