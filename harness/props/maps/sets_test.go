package maps

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"strings"

	"axverif/kit"
	"axverif/typed"

	"github.com/anishathalye/porcupine"
	"github.com/axgrid/axutils/collections"
)

// hsState lists the members in insertion order as one byte each.
type hsState struct {
	max     int
	members string
}
type hsIn struct {
	op  string
	key int
}
type hsOut struct {
	ok   bool
	n    int
	keys string
}

func (i hsIn) String() string  { return fmt.Sprintf("%s(%d)", i.op, i.key) }
func (o hsOut) String() string { return fmt.Sprintf("(%v,%d,%q)", o.ok, o.n, o.keys) }

func sorted(s string) string {
	b := []byte(s)
	slices.Sort(b)
	return string(b)
}

func hsStep(s hsState, i hsIn, o hsOut) (bool, hsState) {
	k := string(rune('a' + i.key))
	has := strings.Contains(s.members, k)
	add := func() {
		if !has {
			s.members += k
			if s.max > 0 && len(s.members) > s.max {
				s.members = s.members[1:]
			}
		}
	}
	switch i.op {
	case "Add":
		add()
		return true, s
	case "Has":
		return o.ok == has, s
	case "HasOrCreate":
		add()
		return o.ok == has, s
	case "Delete":
		s.members = strings.ReplaceAll(s.members, k, "")
		return true, s
	case "Count":
		return o.n == len(s.members), s
	case "Keys":
		return o.keys == sorted(s.members), s
	case "Clear":
		s.members = ""
		return true, s
	}
	panic(i.op)
}

func hsModel(max int) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return hsState{max: max} },
		Step: func(s, in, out any) (bool, any) {
			ok, n := hsStep(s.(hsState), in.(hsIn), out.(hsOut))
			return ok, n
		},
		Equal: func(a, b any) bool { return a.(hsState) == b.(hsState) },
	}
}

func hsDo(s typed.HashSet, i hsIn) hsOut {
	switch i.op {
	case "Add":
		s.Add(i.key)
	case "Has":
		return hsOut{ok: s.Has(i.key)}
	case "HasOrCreate":
		return hsOut{ok: s.HasOrCreate(i.key)}
	case "Delete":
		s.Delete(i.key)
	case "Count":
		return hsOut{n: s.Count()}
	case "Keys":
		b := []byte{}
		for _, k := range s.Keys() {
			b = append(b, byte('a'+k))
		}
		return hsOut{keys: sorted(string(b))}
	case "Clear":
		s.Clear()
	}
	return hsOut{}
}

func newHashSet(max int) *collections.HashSet[int] {
	b := collections.NewHashSet[int]()
	if max > 0 {
		b.WithMaxCount(max)
	}
	return b.Build()
}

var hsOps = []string{"Add", "Add", "Add", "Has", "HasOrCreate", "HasOrCreate", "Delete", "Count", "Keys", "Clear"}

func hsSequential(c *kit.Case) {
	max := c.R.IntN(8)
	keys := max + 1 + c.R.IntN(6)
	set := typed.NewHashSet(c.R, max)
	s := hsState{max: max}
	sig := fmt.Sprint(max)
	for j := 0; j < 80; j++ {
		op := hsOps[c.R.IntN(len(hsOps))]
		if op == "Clear" && c.R.IntN(4) > 0 {
			op = "Delete"
		}
		in := hsIn{op, c.R.IntN(keys)}
		out := hsDo(set, in)
		c.Logf("%v -> %v", in, out)
		ok, n := hsStep(s, in, out)
		if !ok {
			c.Violate("max=%d: %v returned %v; members by age are %q", max, in, out, s.members)
		}
		s = n
		sig += in.String()
		for _, q := range []hsIn{{"Count", 0}, {"Keys", 0}} {
			if got := hsDo(set, q); true {
				if ok, _ := hsStep(s, q, got); !ok {
					c.Violate("max=%d after %v: %v returned %v; members by age are %q", max, in, q, got, s.members)
				}
			}
		}
		for k := 0; k < keys; k++ {
			q := hsIn{"Has", k}
			got := hsDo(set, q)
			if ok, _ := hsStep(s, q, got); !ok {
				c.Violate("max=%d after %v: %v returned %v; members by age are %q", max, in, q, got, s.members)
			}
		}
		c.Events("sequential queries judged", keys+2)
	}
	c.Distinct(sig)
	c.Sample(func() string { return sig })
}

// hsElection: goroutines race to create the same keys, without a bound.
func hsElection(c *kit.Case) {
	set := typed.NewHashSet(c.R, 0)
	n, keys := 2+c.R.IntN(7), 16
	won := make([][]bool, n)
	c.Go(n, func(g int, r *rand.Rand) {
		w := make([]bool, keys)
		for k := range w {
			w[k] = !set.HasOrCreate(k)
			if !set.Has(k) {
				c.Violate("key %d is absent right after HasOrCreate", k)
			}
		}
		won[g] = w
	})
	sig := ""
	for k := 0; k < keys; k++ {
		cnt := 0
		for g := range won {
			if won[g][k] {
				cnt++
				sig += fmt.Sprint(g)
			}
		}
		if cnt != 1 {
			c.Violate("HasOrCreate(%d) returned false to %d of %d racing callers", k, cnt, n)
		}
	}
	if set.Count() != keys || len(set.Keys()) != keys {
		c.Violate("Count %d, %d keys, want %d", set.Count(), len(set.Keys()), keys)
	}
	c.Events("elections judged", keys)
	c.Distinct(n, sig)
}

// hsBound: whatever happens concurrently, nobody ever sees more than max keys.
func hsBound(c *kit.Case) {
	max := 1 + c.R.IntN(5)
	set := newHashSet(max)
	c.Go(6, func(g int, r *rand.Rand) {
		for j := 0; j < 30; j++ {
			switch r.IntN(6) {
			case 0, 1:
				set.Add(r.IntN(12))
			case 2:
				set.HasOrCreate(r.IntN(12))
			case 3:
				set.Delete(r.IntN(12))
			}
			if n := set.Count(); n > max {
				c.Violate("Count is %d with at most %d allowed", n, max)
			}
			if n := len(set.Keys()); n > max {
				c.Violate("%d keys with at most %d allowed", n, max)
			}
		}
	})
	// and the set still evicts exactly the oldest
	set.Clear()
	for k := 100; k < 100+2*max; k++ {
		set.Add(k)
	}
	for k := 100; k < 100+2*max; k++ {
		if set.Has(k) != (k >= 100+max) {
			c.Violate("after adding 100..%d to a set of at most %d, Has(%d)=%v", 99+2*max, max, k, set.Has(k))
		}
	}
	c.Events("bound observations", 6*30*2)
	c.Distinct(max, c.Idx)
}

// setCase checks Set against a map.
func setCase(c *kit.Case) {
	keys := 1 + c.R.IntN(10)
	pick := func() []string {
		var v []string
		for n := c.R.IntN(4); n > 0; n-- {
			v = append(v, fmt.Sprint("v", c.R.IntN(keys)))
		}
		return v
	}
	ref := map[string]bool{}
	init := pick()
	s := collections.NewSet(init...)
	for _, v := range init {
		ref[v] = true
	}
	var list func(m map[string]bool) []string
	list = func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		slices.Sort(out)
		return out
	}
	same := func(s *collections.Set[string], ref map[string]bool, when string) {
		want := list(ref)
		for name, got := range map[string][]string{"Values": s.Values(), "All": s.All()} {
			got = slices.Clone(got)
			slices.Sort(got)
			if !slices.Equal(got, want) {
				c.Violate("%s: %s is %v, want %v", when, name, got, want)
			}
		}
		if s.Size() != len(ref) {
			c.Violate("%s: Size is %d, want %v", when, s.Size(), want)
		}
		for i := 0; i < keys; i++ {
			v := fmt.Sprint("v", i)
			if s.Has(v) != ref[v] {
				c.Violate("%s: Has(%s)=%v, want %v", when, v, s.Has(v), ref[v])
			}
		}
	}
	same(s, ref, "new")
	sig := fmt.Sprint(init)
	type clone struct {
		s    *collections.Set[string]
		ref  map[string]bool
		vals []string
		was  []string
	}
	var clones []clone
	for j := 0; j < 30; j++ {
		op := c.R.IntN(10)
		args := pick()
		v := fmt.Sprint("v", c.R.IntN(keys))
		when := fmt.Sprint("step ", j, " op ", op, " ", v, " ", args)
		switch op {
		case 0, 1:
			s.Add(v)
			ref[v] = true
		case 2:
			before := slices.Clone(args)
			s.AddAll(args...)
			if !slices.Equal(args, before) {
				c.Violate("AddAll changed its argument")
			}
			for _, x := range args {
				ref[x] = true
			}
		case 3, 4:
			s.Remove(v)
			delete(ref, v)
		case 5:
			if c.R.IntN(4) == 0 {
				s.Clear()
				ref = map[string]bool{}
			}
		case 6:
			all, any := true, false
			for _, x := range args {
				all, any = all && ref[x], any || ref[x]
			}
			if s.HasAll(args...) != all {
				c.Violate("%s: HasAll=%v, want %v", when, !all, all)
			}
			if s.HasAny(args...) != any {
				c.Violate("%s: HasAny=%v, want %v", when, !any, any)
			}
		case 7:
			vals := s.Values()
			cl := clone{s.Clone(), map[string]bool{}, vals, slices.Clone(vals)}
			for k := range ref {
				cl.ref[k] = true
			}
			if !s.Equals(cl.s) || !cl.s.Equals(s) || !s.Equals(s) {
				c.Violate("%s: a clone is not equal to its original", when)
			}
			clones = append(clones, cl)
		case 8:
			if len(clones) > 0 {
				cl := &clones[c.R.IntN(len(clones))]
				if c.R.IntN(2) == 0 {
					cl.s.Add(v)
					cl.ref[v] = true
				} else if c.R.IntN(4) > 0 {
					cl.s.Remove(v)
					delete(cl.ref, v)
				} else {
					cl.s.Clear()
					cl.ref = map[string]bool{}
				}
				// what Values returned belongs to the caller
				for i := range cl.vals {
					cl.vals[i] = "scribbled"
				}
				cl.was = slices.Clone(cl.vals)
			}
		case 9:
			other := map[string]bool{}
			o := collections.NewSet[string]()
			for i := 0; i < keys; i++ {
				x := fmt.Sprint("v", i)
				if ref[x] != (c.R.IntN(keys*2) == 0) {
					o.Add(x)
					other[x] = true
				}
			}
			want := slices.Equal(list(other), list(ref))
			if s.Equals(o) != want || o.Equals(s) != want {
				c.Violate("%s: Equals is %v/%v for %v and %v", when, s.Equals(o), o.Equals(s), list(ref), list(other))
			}
			same(o, other, when+" other")
		}
		sig += when
		same(s, ref, when)
		for _, cl := range clones {
			same(cl.s, cl.ref, when+" clone")
			if !slices.Equal(cl.vals, cl.was) {
				c.Violate("%s: a slice returned by Values changed from %v to %v", when, cl.was, cl.vals)
			}
		}
		c.Events("membership snapshots compared", 1+len(clones))
	}
	c.Distinct(sig)
	c.Sample(func() string { return sig })
}

// setTypes does it with members of other types, nil and zero values too.
func setTypes(c *kit.Case) {
	mk := typed.NewSet(c.R)
	keys := 1 + c.R.IntN(40)
	list := func(n int) (v []int) {
		for ; n > 0; n-- {
			v = append(v, c.R.IntN(keys))
		}
		return
	}
	type pair struct {
		s   typed.Set
		ref map[int]bool
	}
	first := list(c.R.IntN(5))
	all := []pair{{mk(first...), map[int]bool{}}}
	for _, k := range first {
		all[0].ref[k] = true
	}
	sig := fmt.Sprintf("%T %v", all[0].s, first)
	for j := 0; j < 40; j++ {
		p := all[c.R.IntN(len(all))]
		ks := list(c.R.IntN(6))
		op := c.R.IntN(9)
		switch op {
		case 0, 1:
			for _, k := range ks {
				p.s.Add(k)
				p.ref[k] = true
			}
		case 2:
			p.s.AddAll(ks...)
			for _, k := range ks {
				p.ref[k] = true
			}
		case 3, 4:
			for _, k := range ks {
				p.s.Remove(k)
				delete(p.ref, k)
			}
		case 5:
			if c.R.IntN(5) == 0 {
				p.s.Clear()
				clear(p.ref)
			}
		case 6:
			if len(all) < 4 {
				all = append(all, pair{p.s.Clone(), maps.Clone(p.ref)})
			}
		default:
			every, some := true, false
			for _, k := range ks {
				every, some = every && p.ref[k], some || p.ref[k]
			}
			if p.s.HasAll(ks...) != every || p.s.HasAny(ks...) != some {
				c.Violate("%T of %v: HasAll(%v) is %v, HasAny %v", p.s, p.ref, ks, p.s.HasAll(ks...), p.s.HasAny(ks...))
			}
		}
		sig += fmt.Sprint(op, ks)
		for _, q := range all {
			for name, got := range map[string][]int{"Values": q.s.Values(), "All": q.s.All()} {
				slices.Sort(got)
				if want := slices.Sorted(maps.Keys(q.ref)); !slices.Equal(got, want) {
					c.Violate("%T: %s are %v, want %v", q.s, name, got, want)
				}
			}
			for k := 0; k < keys; k++ {
				if q.s.Has(k) != q.ref[k] {
					c.Violate("%T of %v: Has(%d) is %v", q.s, q.ref, k, q.s.Has(k))
				}
			}
			if q.s.Size() != len(q.ref) {
				c.Violate("%T of %v: Size is %d", q.s, q.ref, q.s.Size())
			}
			if got := p.s.Equals(q.s); got != maps.Equal(p.ref, q.ref) {
				c.Violate("%T: Equals of %v and %v is %v", q.s, p.ref, q.ref, got)
			}
		}
		c.Events("typed snapshots compared", len(all))
	}
	c.Distinct(sig)
}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C05",
		Rule: "random sequences with all queries compared after each step, distinct by capacity and sequence; random concurrent histories with overlap, distinct by interleaving and results; creation races by winners",
		Parts: []kit.Part{
			{Name: "sequential", N: 2400, Fn: hsSequential},
			{Name: "linearizable", N: 10000, Stress: true, Fn: func(c *kit.Case) {
				max := c.R.IntN(4)
				set := typed.NewHashSet(c.R, max)
				clients, per, keys := 2+c.R.IntN(3), 2+c.R.IntN(5), 1+c.R.IntN(4)
				h := kit.NewHist(clients)
				c.Go(clients, func(g int, r *rand.Rand) {
					for j := 0; j < per; j++ {
						in := hsIn{hsOps[r.IntN(len(hsOps))], r.IntN(keys)}
						h.Do(g, in, func() any { return hsDo(set, in) })
					}
				})
				c.Linearizable(fmt.Sprintf("HashSet max=%d", max), hsModel(max), h.Ops())
			}},
			{Name: "election", N: 4000, Stress: true, Fn: hsElection},
			{Name: "bound", N: 800, Stress: true, Fn: hsBound},
			{Name: "large", N: 120, Fn: hsLarge},
			{Name: "huge", N: 4, Fn: hsHuge},
			{Name: "window", N: 12, Stress: true, Fn: hsWindow},
			{Name: "memory", N: 3, Fn: hsMemory},
		},
	})
	kit.Register(&kit.Prop{
		ID:    "C06",
		Rule:  "random sequences of all Set methods against a map of members, with clones and returned slices changed in between; distinct by sequence",
		Parts: []kit.Part{{Name: "model", N: 12000, Fn: setCase}, {Name: "types", N: 1500, Fn: setTypes}, {Name: "large", N: 120, Fn: setLarge}, {Name: "huge", N: 4, Fn: func(c *kit.Case) { setOf(c, 10000+c.R.IntN(60000)) }}},
	})
}
