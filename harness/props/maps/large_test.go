package maps

import (
	"fmt"
	"maps"
	"math"
	"math/rand/v2"
	"runtime"
	"slices"
	"sync"

	"axverif/kit"

	"github.com/axgrid/axutils/collections"
)

// The parts of this file are about size: hundreds to thousands of entries,
// shards, waiting goroutines, and keys of other kinds.

type pair struct {
	a string
	b int8
}

// largeMap fills, thins, refills and empties a map over thousands of keys.
func largeMap[K comparable](c *kit.Case, m collections.Map[K, int64], clear func(), key func(int) K) {
	n := 1 << (6 + c.R.IntN(6)) // up to 4096
	if c.Idx%50 == 49 {
		n = 40000
	}
	n += c.R.IntN(n)
	ref := map[K]int64{}
	full := func(when string) {
		if s := m.Size(); s != len(ref) {
			c.Violate("%s: Size is %d, %d keys are stored", when, s, len(ref))
		}
		for i := 0; i < n+20; i++ {
			k := key(i)
			w, has := ref[k]
			if v, ok := m.Get(k); v != w || ok != has {
				c.Violate("%s: key %v (number %d of %d) is (%d,%v), want (%d,%v)", when, k, i, n, v, ok, w, has)
			}
			if m.Has(k) != has {
				c.Violate("%s: Has(%v) is %v", when, k, !has)
			}
		}
		c.Events("large: keys compared", n+20)
	}
	rounds := 2 + c.R.IntN(3)
	ops := 0
	for round := 0; round < rounds; round++ {
		for _, i := range c.R.Perm(n) {
			k, v := key(i), c.R.Int64()
			cur, has := ref[k]
			switch op := c.R.IntN(8); {
			case op < 3:
				m.Set(k, v)
				ref[k] = v
			case op < 5:
				if ok := m.SetIfNotExists(k, v); ok == has {
					c.Violate("SetIfNotExists(%v)=%v with %d keys stored", k, ok, len(ref))
				}
				if !has {
					ref[k] = v
				}
			case op < 7:
				calls := 0
				got, ok := m.SetIfNotExistsWithFunc(k, func() int64 { calls++; return v })
				if !has {
					cur = v
					ref[k] = v
				}
				if ok == has || got != cur || calls != map[bool]int{true: 1}[ok] {
					c.Violate("SetIfNotExistsWithFunc(%v)=(%d,%v) with %d calls, want (%d,%v)", k, got, ok, calls, cur, !has)
				}
			default:
				m.Delete(k)
				delete(ref, k)
			}
			ops++
		}
		full(fmt.Sprint("after filling, round ", round))
		c.Max("keys in one map", len(ref))
		switch c.R.IntN(3) {
		case 0:
			if clear != nil {
				clear()
				ref = map[K]int64{}
			}
		case 1:
			for i := 0; i < n; i++ {
				if c.R.IntN(8) > 0 {
					m.Delete(key(i))
					delete(ref, key(i))
				}
			}
		case 2:
			for i := n - 1; i >= 0; i-- {
				m.Delete(key(i))
			}
			ref = map[K]int64{}
		}
		full(fmt.Sprint("after emptying, round ", round))
	}
	c.Events("large: operations", ops)
	c.Distinct(n, rounds, c.Idx)
}

// keyKinds runs largeMap with keys of one kind or another.
func keyKinds(c *kit.Case, kind int, mk func() (any, func()), label string) {
	m, clear := mk()
	c.Logf("%s with keys of kind %d", label, kind)
	switch m := m.(type) {
	case collections.Map[int, int64]:
		off := []int{0, -1000, math.MaxInt - 5000, math.MinInt}[c.R.IntN(4)]
		largeMap(c, m, clear, func(i int) int { return off + i })
	case collections.Map[uint8, int64]:
		largeMap(c, m, clear, func(i int) uint8 { return uint8(i) })
	case collections.Map[string, int64]:
		pad := fmt.Sprintf("%0*d", c.R.IntN(200)+1, 0)
		largeMap(c, m, clear, func(i int) string { return pad + fmt.Sprint(i) })
	case collections.Map[pair, int64]:
		largeMap(c, m, clear, func(i int) pair { return pair{fmt.Sprint(i / 200), int8(i % 200)} })
	case collections.Map[any, int64]:
		largeMap(c, m, clear, anyKey)
	case collections.Map[float64, int64]:
		largeMap(c, m, clear, func(i int) float64 { return float64(i) / 16 })
	default:
		c.Fatal("kind %T", m)
	}
}

// anyKey makes keys of different types that print alike.
func anyKey(i int) any {
	switch n := i / 6; i % 6 {
	case 0:
		return n
	case 1:
		return int64(n)
	case 2:
		return fmt.Sprint(n)
	case 3:
		return float64(n)
	case 4:
		return [1]int{n}
	default:
		return pair{"", int8(n)}
	}
}

func simpleLarge(c *kit.Case) {
	kind := c.R.IntN(6)
	keyKinds(c, kind, func() (any, func()) {
		switch kind {
		case 0:
			return collections.NewSimpleMap[int, int64](), nil
		case 1:
			return collections.NewSimpleMap[uint8, int64](), nil
		case 2:
			return collections.NewSimpleMap[string, int64](), nil
		case 3:
			return collections.NewSimpleMap[pair, int64](), nil
		case 4:
			return collections.NewSimpleMap[any, int64](), nil
		}
		return collections.NewSimpleMap[float64, int64](), nil
	}, "SimpleMap")
}

func shardOf[K comparable](shards int, f func(K) int) (any, func()) {
	m := collections.NewShardMap[K, int64]().WithShardsCount(shards).WithShardsFunc(func(k K) int {
		s := f(k) % shards
		if s < 0 {
			s += shards
		}
		return s
	}).Build()
	return m, m.Clear
}

func shardLarge(c *kit.Case) {
	kind := c.R.IntN(6)
	shards := []int{1, 2, 7, 16, 17, 64, 100, 256, 1000}[c.R.IntN(9)]
	hash := func(s string) int {
		h := 7
		for _, b := range []byte(s) {
			h = h*31 + int(b)
		}
		return h
	}
	keyKinds(c, kind, func() (any, func()) {
		switch kind {
		case 0:
			return shardOf(shards, func(k int) int { return k })
		case 1:
			return shardOf(shards, func(k uint8) int { return int(k) })
		case 2:
			return shardOf(shards, hash)
		case 3:
			return shardOf(shards, func(k pair) int { return hash(k.a) + int(k.b) })
		case 4:
			return shardOf(shards, func(k any) int { return hash(fmt.Sprint(k)) })
		}
		return shardOf(shards, func(k float64) int { return int(k) })
	}, fmt.Sprint("ShardMap of ", shards))
}

// crowd has many goroutines create, read and delete over many keys.
func crowd(c *kit.Case, m collections.Map[int, int]) {
	n, keys := 40+c.R.IntN(60), 200
	created := make([][]int8, n)
	deleted := make([][]int8, n)
	c.Go(n, func(g int, r *rand.Rand) {
		a, d := make([]int8, keys), make([]int8, keys)
		for _, k := range r.Perm(keys)[:80] {
			if r.IntN(2) == 0 {
				if m.SetIfNotExists(k, g+1) {
					a[k]++
				}
			} else if v, ok := m.SetIfNotExistsWithFunc(k, func() int { return g + 1 }); ok {
				a[k]++
			} else if v < 1 || v > n {
				c.Violate("key %d is %d, which nobody stored", k, v)
			}
			if v, ok := m.Get(k); !ok || v < 1 || v > n {
				c.Violate("key %d, which nobody deletes, is (%d,%v)", k, v, ok)
			}
			// keys of its own are used up and deleted
			own := 1000 + g
			m.Set(own, k)
			if v, ok := m.Get(own); !ok || v != k {
				c.Violate("key %d, used by one goroutine only, is (%d,%v), want %d", own, v, ok, k)
			}
			m.Delete(own)
			d[k]++
		}
		created[g], deleted[g] = a, d
	})
	want := 0
	for k := 0; k < keys; k++ {
		creators, visits := 0, 0
		for g := range created {
			creators += int(created[g][k])
			visits += int(deleted[g][k])
		}
		if visits > 0 {
			want++
			if creators != 1 {
				c.Violate("key %d was created by %d of %d callers", k, creators, visits)
			}
		}
	}
	if s := m.Size(); s != want {
		c.Violate("Size is %d, %d keys are stored", s, want)
	}
	c.Events("large: elections among crowds", want)
	c.Max("goroutines on one map", n)
	c.Distinct("crowd", n, c.Idx)
}

// lockLarge uses thousands of keys, some of which stay locked all the time.
func lockLarge(c *kit.Case) {
	keys := 200 + c.R.IntN(2000)
	if c.Idx%16 == 3 {
		keys = 20000
	}
	kind, w, all := lockers(c.R)
	held := map[int]locker{}
	for i := 20 + c.R.IntN(2)*c.R.IntN(min(keys/2, 6000)); i > 0; i-- {
		k := c.R.IntN(keys)
		if _, ok := held[k]; !ok {
			held[k] = all[c.R.IntN(len(all))]
			held[k].lock(k)
		}
	}
	c.Logf("%s of %d keys with %d held throughout: the others must be free", kind, keys, len(held))
	n := 4
	cells := make([]cell, 64)
	want := make([][]int, n)
	waiting := sync.WaitGroup{}
	var got, expect []int
	var mu sync.Mutex
	for k, l := range held { // one waits for each of the held keys
		expect = append(expect, k)
		waiting.Add(1)
		_ = l
		go c.Guard(func() {
			defer waiting.Done()
			w.lock(k)
			mu.Lock()
			got = append(got, k)
			mu.Unlock()
			w.unlock(k)
		})
	}
	c.Go(n, func(g int, r *rand.Rand) {
		s := make([]int, len(cells))
		for j := 0; j < keys; j++ {
			k := r.IntN(keys)
			if _, ok := held[k]; ok {
				continue
			}
			if r.IntN(3) > 0 {
				l := all[r.IntN(len(all))]
				l.lock(k)
				l.unlock(k)
				continue
			}
			w.lock(k)
			if k < len(cells) {
				writeSection(c, &cells[k], r, k)
				s[k]++
			}
			w.unlock(k)
		}
		want[g] = s
	})
	mu.Lock()
	if len(got) > 0 {
		c.Violate("%s: keys %v were locked by others while they were held", kind, got)
	}
	mu.Unlock()
	for k, l := range held {
		l.unlock(k)
	}
	waiting.Wait()
	slices.Sort(got)
	slices.Sort(expect)
	if !slices.Equal(got, expect) {
		c.Violate("%s: of the waiters for %v only %v got their lock", kind, expect, got)
	}
	c.Max("keys of one lock map", keys)
	check(c, cells, want, n, keys)
}

// lockCrowd puts a crowd on one key.
func lockCrowd(c *kit.Case) {
	_, w, all := lockers(c.R)
	n, per := 64+c.R.IntN(100), 3
	cells := make([]cell, 1)
	want := make([][]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		s := make([]int, 1)
		for j := 0; j < per; j++ {
			if l := all[r.IntN(len(all))]; l.name == "RLock" && r.IntN(2) == 0 {
				l.lock(0)
				if x := peek(&cells[0].writers); x != 0 {
					c.Violate("a reader got the lock while %d writers held it", x)
				}
				_ = cells[0].n
				linger(r)
				l.unlock(0)
				continue
			}
			w.lock(0)
			writeSection(c, &cells[0], r, 0)
			w.unlock(0)
			s[0]++
		}
		want[g] = s
	})
	check(c, cells, want, n, per)
}

// tkLarge: thousands of pairs, put, re-put crosswise and removed.
func tkLarge(c *kit.Case) {
	n := 1 << (5 + c.R.IntN(6))
	tkOf(c, n+c.R.IntN(n))
}

func tkOf(c *kit.Case, n int) {
	m := collections.NewTwoKeyMap[int, string, int64]()
	a, b, vals := map[int]string{}, map[string]int{}, map[int]int64{}
	k2s := make([]string, n+10)
	for i := range k2s {
		k2s[i] = fmt.Sprint("s", i)
	}
	drop := func(k1 int) {
		if k2, ok := a[k1]; ok {
			delete(b, k2)
			delete(a, k1)
			delete(vals, k1)
		}
	}
	put := func(k1 int, k2 string) {
		v := c.R.Int64()
		m.Put(k1, k2, v)
		if x, ok := b[k2]; ok {
			drop(x)
		}
		drop(k1)
		a[k1], b[k2], vals[k1] = k2, k1, v
	}
	full := func(when string) {
		if m.Len() != len(a) {
			c.Violate("%s: Len is %d, %d pairs are stored", when, m.Len(), len(a))
		}
		for i := 0; i < n+10; i++ {
			_, has := a[i]
			if v, ok := m.Get(i); ok != has || v != vals[i] {
				c.Violate("%s: Get(%d) is (%d,%v), want (%d,%v); %d pairs", when, i, v, ok, vals[i], has, len(a))
			}
			k1, has := b[k2s[i]]
			var w int64
			if has {
				w = vals[k1]
			}
			if v, ok := m.GetByK2(k2s[i]); ok != has || v != w {
				c.Violate("%s: GetByK2(%s) is (%d,%v), want (%d,%v); %d pairs", when, k2s[i], v, ok, w, has, len(a))
			}
		}
		x, y := m.Keys(), m.KeysK2()
		slices.Sort(x)
		slices.Sort(y)
		var wx []int
		var wy []string
		for k, v := range a {
			wx, wy = append(wx, k), append(wy, v)
		}
		slices.Sort(wx)
		slices.Sort(wy)
		if !slices.Equal(x, wx) || !slices.Equal(y, wy) {
			c.Violate("%s: Keys/KeysK2 list %d/%d keys that are not the %d stored", when, len(x), len(y), len(a))
		}
		c.Events("large: keys compared", 2*n)
	}
	for round := 0; round < 3; round++ {
		p := c.R.Perm(n)
		for i := 0; i < n; i++ {
			switch round {
			case 0:
				put(i, k2s[p[i]])
			default: // cross over, now and then removing
				switch c.R.IntN(6) {
				case 0:
					m.Remove(i)
					drop(i)
				case 1:
					m.RemoveByK2(k2s[i])
					if x, ok := b[k2s[i]]; ok {
						drop(x)
					}
				default:
					put(i, k2s[p[i]])
				}
			}
		}
		full(fmt.Sprint("round ", round, " of ", n))
		c.Max("pairs in one map", len(a))
	}
	for i := 0; i < n; i++ {
		if c.R.IntN(2) == 0 {
			m.Remove(i)
			drop(i)
		} else if k2, ok := a[i]; ok {
			m.RemoveByK2(k2)
			drop(i)
		}
	}
	full("after removing all")
	c.Distinct(n, c.Idx)
}

// hsLarge: sets of hundreds to thousands of keys, bounded or not.
func hsLarge(c *kit.Case) {
	max := 0
	if c.R.IntN(4) > 0 {
		max = 1 + c.R.IntN(1<<(4+c.R.IntN(7)))
	}
	set := newHashSet(max)
	keys := 50 + 2*max + c.R.IntN(500)
	var order []int // members, oldest first
	in := map[int]bool{}
	add := func(k int) {
		if in[k] {
			return
		}
		in[k] = true
		order = append(order, k)
		if max > 0 && len(order) > max {
			delete(in, order[0])
			order = order[1:]
		}
	}
	full := func(when string) {
		ks := set.Keys()
		want := slices.Clone(order)
		slices.Sort(ks)
		slices.Sort(want)
		if !slices.Equal(ks, want) {
			c.Violate("%s: Keys are not the %d members: %v, want %v", when, len(order), ks, want)
		}
		for k := 0; k < keys; k++ {
			if set.Has(k) != in[k] {
				c.Violate("%s: max=%d Has(%d)=%v with %d members", when, max, k, !in[k], len(order))
			}
		}
		c.Events("large: keys compared", keys)
	}
	ops := 2*keys + 400
	bias := c.R.IntN(6)
	for j := 0; j < ops; j++ {
		k := c.R.IntN(keys)
		switch x := c.R.IntN(12); {
		case x < 4:
			set.Add(k)
			add(k)
		case x < 7:
			if got := set.HasOrCreate(k); got != in[k] {
				c.Violate("max=%d step %d: HasOrCreate(%d)=%v with %d members", max, j, k, got, len(order))
			}
			add(k)
		case x < 7+bias/2:
			if len(order) > 0 && c.R.IntN(2) == 0 {
				k = order[c.R.IntN(len(order))]
			}
			set.Delete(k)
			if in[k] {
				delete(in, k)
				i := slices.Index(order, k)
				order = slices.Delete(slices.Clone(order), i, i+1)
			}
		case x == 11 && c.R.IntN(ops) == 0:
			set.Clear()
			order, in = nil, map[int]bool{}
		}
		if n := set.Count(); n != len(order) {
			c.Violate("max=%d step %d: Count is %d, want %d", max, j, n, len(order))
		}
		if len(order) > 0 { // the oldest, the next to go, is still there
			if !set.Has(order[0]) {
				c.Violate("max=%d step %d: the oldest of %d members, %d, is missing", max, j, len(order), order[0])
			}
		}
		if j%(ops/4) == 0 {
			full(fmt.Sprint("step ", j))
		}
	}
	full("at the end")
	c.Max("members of one HashSet", len(order))
	c.Events("sequential queries judged", ops*2)
	c.Distinct(max, keys, c.Idx)
}

var live struct {
	sync.Mutex
	ms runtime.MemStats
}

func heap() int64 {
	live.Lock()
	defer live.Unlock()
	runtime.GC()
	runtime.ReadMemStats(&live.ms)
	return int64(live.ms.HeapAlloc)
}

// hsMemory: what a bounded set holds is bounded too, however much passes through.
func hsMemory(c *kit.Case) {
	max := 1 + c.R.IntN(20)
	b := collections.NewHashSet[string]().WithMaxCount(max)
	set := b.Build()
	const passes, size = 30000, 400
	mode := c.R.IntN(3)
	before := heap()
	for i := 0; i < passes; i++ {
		k := fmt.Sprintf("%0*d", size, i)
		switch mode {
		case 0:
			set.Add(k)
		case 1:
			set.HasOrCreate(k)
		case 2:
			set.Add(k)
			set.Delete(k)
		}
	}
	if grown := heap() - before; grown > passes*size/3 {
		c.Violate("a set of at most %d keys of %d bytes holds %d bytes after %d keys passed through (mode %d)", max, size, grown, passes, mode)
	}
	runtime.KeepAlive(set)
	c.Events("keys passed through bounded sets", passes)
	c.Distinct("memory", max, mode)
}

// firstOf is the smallest of the keys, or -1.
func firstOf(m map[int]bool) int {
	first := -1
	for k := range m {
		if first < 0 || k < first {
			first = k
		}
	}
	return first
}

// setLarge compares big sets with maps.
func setLarge(c *kit.Case) {
	n := 1 << (5 + c.R.IntN(7))
	setOf(c, n+c.R.IntN(n))
}

func setOf(c *kit.Case, n int) {
	ref := map[int]bool{}
	var init []int
	for i := 0; i < n; i++ {
		if k := c.R.IntN(n); c.R.IntN(3) > 0 {
			init = append(init, k)
			ref[k] = true
		}
	}
	s := collections.NewSet(init...)
	compare := func(s *collections.Set[int], ref map[int]bool, when string) {
		if s.Size() != len(ref) {
			c.Violate("%s: Size is %d, want %d", when, s.Size(), len(ref))
		}
		vals := s.Values()
		if c.R.IntN(2) == 0 {
			vals = s.All()
		}
		slices.Sort(vals)
		want := make([]int, 0, len(ref))
		for k := range ref {
			want = append(want, k)
		}
		slices.Sort(want)
		if !slices.Equal(vals, want) {
			c.Violate("%s: %d values listed, not the %d members", when, len(vals), len(want))
		}
		for i := -5; i < n+5; i++ {
			if s.Has(i) != ref[i] {
				c.Violate("%s: Has(%d)=%v", when, i, !ref[i])
			}
		}
		if !s.HasAll(want...) || s.HasAny(want...) != (len(want) > 0) {
			c.Violate("%s: HasAll/HasAny of all %d members: %v %v", when, len(want), s.HasAll(want...), s.HasAny(want...))
		}
		if s.HasAll(append(want, n+1)...) {
			c.Violate("%s: HasAll with %d members and one stranger", when, len(want))
		}
		var none []int
		for i := 0; i < n+50; i++ {
			if !ref[i] {
				none = append(none, i)
			}
		}
		if s.HasAny(none...) {
			c.Violate("%s: HasAny of %d values that are no members", when, len(none))
		}
		if len(want) > 0 && !s.HasAny(append(none, want[0])...) {
			c.Violate("%s: HasAny misses the member after %d others", when, len(none))
		}
		c.Events("large: keys compared", n)
	}
	compare(s, ref, "built")
	cl := s.Clone()
	cref := map[int]bool{}
	for k := range ref {
		cref[k] = true
	}
	compare(cl, cref, "cloned")
	if !cl.Equals(s) || !s.Equals(cl) {
		c.Violate("a clone of %d members is not equal", len(ref))
	}
	for j := 0; j < n; j++ {
		k := c.R.IntN(n)
		if c.R.IntN(2) == 0 {
			s.Remove(k)
			delete(ref, k)
		} else {
			s.Add(k)
			ref[k] = true
		}
	}
	compare(s, ref, "changed")
	compare(cl, cref, "clone of the changed")
	equal := len(ref) == len(cref)
	for k := range ref {
		equal = equal && cref[k]
	}
	if cl.Equals(s) != equal || s.Equals(cl) != equal {
		c.Violate("Equals=%v for sets of %d and %d members", !equal, len(ref), len(cref))
	}
	// one member exchanged for a stranger: same size, not equal
	for k := range ref {
		o := s.Clone()
		o.Remove(k)
		if o.Equals(s) || s.Equals(o) {
			c.Violate("Equals of sets of %d and %d members", len(ref)-1, len(ref))
		}
		o.Add(n + 7)
		if o.Equals(s) || s.Equals(o) {
			c.Violate("Equals of sets of %d members of which one differs", len(ref))
		}
		break
	}
	// clones of clones, each changed in its own way
	{
		copyOf := func() map[int]bool { return maps.Clone(ref) }
		a := s.Clone()
		b, d := a.Clone(), s.Clone()
		bref, dref := copyOf(), copyOf()
		a.Clear()
		compare(a, map[int]bool{}, "a cleared clone")
		compare(s, ref, "with a clone cleared")
		compare(b, bref, "a clone of the cleared")
		d.Add(n + 9)
		b.Remove(firstOf(ref))
		delete(bref, firstOf(ref))
		compare(b, bref, "a clone with one removed")
		if d.Size() != len(dref)+1 || !d.Has(n+9) || s.Has(n+9) || b.Has(n+9) || a.Has(n+9) {
			c.Violate("one value added to one of four clones: %d, %d, %d, %d members", s.Size(), a.Size(), b.Size(), d.Size())
		}
		a.AddAll(1, 2, 3)
		compare(a, map[int]bool{1: true, 2: true, 3: true}, "a clone cleared and used again")
		e := d.Clone()
		d.Clear()
		if e.Size() != len(dref)+1 || d.Size() != 0 {
			c.Violate("a clone of %d members, after the original was cleared: %d", len(dref)+1, e.Size())
		}
	}
	var more []int
	for i := 0; i < n; i++ {
		more = append(more, c.R.IntN(2*n))
	}
	s.AddAll(more...)
	for _, k := range more {
		ref[k] = true
	}
	n *= 2
	compare(s, ref, "after AddAll")
	s.Clear()
	compare(s, map[int]bool{}, "cleared")
	s.Add(3)
	compare(s, map[int]bool{3: true}, "used again")
	c.Max("members of one Set", len(ref))
	c.Distinct(n, c.Idx)
}
