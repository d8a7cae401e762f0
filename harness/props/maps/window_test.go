package maps

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"slices"
	"sync/atomic"

	"axverif/kit"

	"github.com/axgrid/axutils/collections"
)

// slider is a collection through which a window of keys moves: the writer adds
// the next key at the upper end, then removes the last one at the lower end
// (unless the collection, bounded, has done so itself).
type slider struct {
	name  string
	add   func(k int)
	del   func(k int) // nil: adding evicts
	lists []func() []int
	count func() int
}

// window takes snapshots of big collections while they change: at every
// instant the keys are n (or, between the writer's two steps, n+1) neighbours,
// and so must be the keys of each snapshot.
func window(c *kit.Case, s slider, n int) {
	for k := 0; k < n; k++ {
		s.add(k)
	}
	if s.del == nil && s.count() != n {
		c.Violate("%s: %d of %d keys are there", s.name, s.count(), n)
	}
	var started, done atomic.Int64 // steps of the writer
	var readers atomic.Int64
	const nr = 3
	readers.Store(nr)
	c.Go(nr+1, func(g int, r *rand.Rand) {
		if g == 0 {
			for i := 0; readers.Load() > 0; i++ {
				started.Store(int64(i + 1))
				s.add(n + i)
				if s.del != nil {
					s.del(i)
				}
				done.Store(int64(i + 1))
				if i%64 == 0 {
					c.Tick()
					runtime.Gosched()
				}
			}
			return
		}
		defer readers.Add(-1)
		shots, moved := 4+c.Idx%3, 0
		for j := 0; j < shots; j++ {
			before := done.Load()
			ks := s.lists[r.IntN(len(s.lists))]()
			after := started.Load()
			slices.Sort(ks)
			size := s.count()
			if size < n || size > n+1 || s.del == nil && size != n {
				c.Violate("%s: it counts %d keys, %d always there", s.name, size, n)
			}
			if len(ks) < n || len(ks) > n+1 || s.del == nil && len(ks) != n {
				c.Violate("%s: a snapshot lists %d keys, %d always there", s.name, len(ks), n)
			}
			if gap := ks[len(ks)-1] - ks[0] + 1 - len(ks); gap != 0 {
				c.Violate("%s: a snapshot of %d keys, %d to %d, misses %d between, which never were the only ones missing", s.name, len(ks), ks[0], ks[len(ks)-1], gap)
			}
			if int64(ks[0]) < before || int64(ks[0]) > after {
				c.Violate("%s: a snapshot begins with key %d; removed were %d before and at most %d after", s.name, ks[0], before, after)
			}
			if after > before {
				moved++
			}
			c.Tick()
		}
		c.Events("snapshots of big collections judged", shots)
		c.Events("snapshots overlapping changes", moved)
	})
	c.Events("steps of the window", int(done.Load()))
	c.Max("keys in one snapshot", n)
	c.Distinct("window", s.name, n, done.Load())
}

func windowSize(c *kit.Case) int {
	return []int{600, 1500, 5000, 12000, 40000, 70000}[c.Idx%6] + c.R.IntN(500)
}

func hsWindow(c *kit.Case) {
	n := windowSize(c)
	max := 0
	if c.R.IntN(2) == 0 {
		max = n
	}
	set := newHashSet(max)
	s := slider{name: fmt.Sprint("HashSet max=", max), add: set.Add, lists: []func() []int{set.Keys}, count: set.Count}
	if c.R.IntN(2) == 0 {
		s.add = func(k int) { set.HasOrCreate(k) }
	}
	if max == 0 {
		s.del = set.Delete
	}
	window(c, s, n)
}

func tkWindow(c *kit.Case) {
	n := windowSize(c)
	m := collections.NewTwoKeyMap[int, int, int]()
	s := slider{name: "TwoKeyMap", add: func(k int) { m.Put(k, -k, k) }, lists: []func() []int{m.Keys, func() []int {
		ks := m.KeysK2()
		for i := range ks {
			ks[i] = -ks[i]
		}
		return ks
	}}, count: m.Len}
	s.del = m.Remove
	switch c.R.IntN(3) {
	case 0:
		s.del = func(k int) { m.RemoveByK2(-k) }
	case 1: // the second keys stay, and move on to the next window of first keys
		s.add, s.lists = func(k int) { m.Put(k, k%n, k) }, s.lists[:1]
		s.del = nil
	}
	window(c, s, n)
}

// hsHuge: sets of tens of thousands of keys against a queue of the members.
func hsHuge(c *kit.Case) {
	max := []int{0, 5000, 20000, 70000}[c.Idx%4]
	if max > 0 {
		max += c.R.IntN(1000)
	}
	set := newHashSet(max)
	type entry struct{ k, seq int }
	in, queue, seq := map[int]int{}, []entry{}, 0
	keys := 3 * (max + 10000)
	room := max
	if max == 0 {
		room = 30000
	}
	for j := 0; j < room+room/2+8000; j++ {
		k := c.R.IntN(keys)
		if c.R.IntN(40) == 0 && len(queue) > 0 {
			k = queue[c.R.IntN(len(queue))].k
		}
		_, has := in[k]
		switch x := c.R.IntN(100); {
		case x < 2:
			set.Delete(k)
			delete(in, k)
			if set.Has(k) {
				c.Violate("max=%d step %d: Has(%d) after Delete", max, j, k)
			}
			has = true
		case x < 50:
			set.Add(k)
		default:
			if got := set.HasOrCreate(k); got != has {
				c.Violate("max=%d step %d: HasOrCreate(%d)=%v with %d members", max, j, k, got, len(in))
			}
		}
		if !has {
			if !set.Has(k) {
				c.Violate("max=%d step %d: key %d, just added, is missing among %d members", max, j, k, len(in))
			}
			seq++
			in[k] = seq
			queue = append(queue, entry{k, seq})
		}
		for len(queue) > 0 && in[queue[0].k] != queue[0].seq {
			queue = queue[1:]
		}
		if max > 0 && len(in) > max {
			old := queue[0]
			delete(in, old.k)
			queue = queue[1:]
			if set.Has(old.k) {
				c.Violate("max=%d step %d: %d keys and the oldest, %d, is still there", max, j, len(in)+1, old.k)
			}
		}
		for len(queue) > 0 && in[queue[0].k] != queue[0].seq {
			queue = queue[1:]
		}
		if n := set.Count(); n != len(in) {
			c.Violate("max=%d step %d: Count is %d, want %d", max, j, n, len(in))
		}
		if len(queue) > 0 && !set.Has(queue[0].k) {
			c.Violate("max=%d step %d: the oldest of %d members, %d, is missing", max, j, len(in), queue[0].k)
		}
		if j%256 == 0 {
			c.Tick()
		}
	}
	ks := set.Keys()
	if len(ks) != len(in) {
		c.Violate("max=%d: Keys lists %d of %d members", max, len(ks), len(in))
	}
	for _, k := range ks {
		if _, ok := in[k]; !ok {
			c.Violate("max=%d: Keys lists %d, which is no member", max, k)
		}
	}
	for k := 0; k < keys; k++ {
		if _, ok := in[k]; set.Has(k) != ok {
			c.Violate("max=%d: Has(%d)=%v with %d members", max, k, !ok, len(in))
		}
	}
	if max > 0 && len(in) < max {
		c.Fatal("never full: %d of %d", len(in), max)
	}
	set.Clear()
	if set.Count() != 0 || len(set.Keys()) != 0 || set.Has(ks[0]) {
		c.Violate("max=%d: %d members after Clear", max, set.Count())
	}
	set.Add(ks[0])
	if set.Count() != 1 || !set.Has(ks[0]) {
		c.Violate("max=%d: %d members after Clear and Add", max, set.Count())
	}
	c.Max("members of one HashSet", len(in))
	c.Events("sequential queries judged", 3*room)
	c.Distinct("huge", max, c.Idx)
}
