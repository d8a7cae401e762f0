package guava

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"slices"
	"sync/atomic"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/collections"
)

// huge: maps of thousands to tens of thousands of entries, bounded or not,
// against a queue of the entries by age.
func huge(c *kit.Case) {
	max := []int{600, 0, 3000, 9000, 25000, 70000}[c.Idx%6]
	if max > 0 {
		max += c.R.IntN(500)
	}
	room := max
	if max == 0 {
		room = 20000
	}
	var unloads atomic.Int64
	loads := 0
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b := collections.NewGuavaMap[int, int]().WithContext(ctx).WithMaxCount(max)
	b.WithUnloadFunc(func(k, v int) { unloads.Add(1) })
	b.WithLoadFunc(func(k int) (int, error) { loads++; return -k, nil }).WithLockLoad(c.R.IntN(2) == 0)
	if room < 5000 && c.R.IntN(2) == 0 {
		b.WithReadTimeout(50 * time.Hour)
	}
	m := b.Build()
	type held struct{ v, seq int }
	type entry struct{ k, seq int }
	in, queue, seq, left := map[int]held{}, []entry{}, 0, 0
	stale := func(e entry) bool { h, ok := in[e.k]; return !ok || h.seq != e.seq }
	trim := func() {
		for len(queue) > 0 && stale(queue[0]) {
			queue = queue[1:]
		}
	}
	put := func(k, v int) {
		if h, ok := in[k]; ok {
			in[k] = held{v, h.seq}
			return
		}
		if max > 0 && len(in) >= max {
			trim()
			old := queue[0].k
			delete(in, old)
			left++
			queue = queue[1:]
			if n := m.Size(); n != max {
				c.Violate("max=%d: Size is %d after another entry came to the full map", max, n)
			}
			if _, ok := in[old]; !ok && m.Has(old) {
				c.Violate("max=%d: the oldest entry, %d, is still there after another came to the full map", max, old)
			}
		}
		seq++
		in[k] = held{v, seq}
		queue = append(queue, entry{k, seq})
	}
	keys := 2*room + 1000
	dels := 0
	for j := 0; len(in) < room || j < room+room/3+3000; j++ {
		k := c.R.IntN(keys)
		if c.R.IntN(30) == 0 && len(queue) > 0 {
			k = queue[c.R.IntN(len(queue))].k
		}
		h, has := in[k]
		switch x := c.R.IntN(100); {
		case x < 3 && dels < 3000:
			m.Delete(k)
			if has {
				delete(in, k)
				left++
				dels++
			}
			if m.Has(k) {
				c.Violate("max=%d step %d: Has(%d) after Delete", max, j, k)
			}
		case x < 30:
			m.Set(k, j)
			put(k, j)
		case x < 50:
			if got := m.HasOrCreate(k, j); got != has {
				c.Violate("max=%d step %d: HasOrCreate(%d)=%v with %d entries", max, j, k, got, len(in))
			}
			if !has {
				put(k, j)
			}
		case x < 70:
			if got := m.LockForUpdate(k, func() int { return j }); got != j {
				c.Violate("max=%d step %d: LockForUpdate(%d)=%d, want %d", max, j, k, got, j)
			}
			put(k, j)
		default:
			before, want := loads, h.v
			if !has {
				want = -k
			}
			got, err := m.Get(k)
			if n := loads - before; got != want || err != nil || has != (n == 0) || n > 1 {
				c.Violate("max=%d step %d: Get(%d)=%d,%v with %d loads, want %d; stored before: %v", max, j, k, got, err, n, want, has)
			}
			if !has {
				put(k, want)
			}
		}
		if n := m.Size(); n != len(in) {
			c.Violate("max=%d step %d: Size is %d, want %d", max, j, n, len(in))
		}
		if trim(); len(queue) > 0 && !m.Has(queue[0].k) {
			c.Violate("max=%d step %d: the oldest of %d entries, %d, is missing", max, j, len(in), queue[0].k)
		}
		if j%64 == 0 {
			c.Tick()
		}
	}
	st := m.GetStored()
	if len(st) != len(in) {
		c.Violate("max=%d: %d entries stored, want %d", max, len(st), len(in))
	}
	for k, h := range in {
		if v, ok := st[k]; !ok || v != h.v {
			c.Violate("max=%d: entry %d is (%d,%v), want %d", max, k, v, ok, h.v)
		}
	}
	m.Clear()
	left += len(in)
	if m.Size() != 0 || len(m.GetStored()) != 0 {
		c.Violate("max=%d: %d entries after Clear", max, m.Size())
	}
	settle(c, func() bool { return int(unloads.Load()) >= left })
	if n := int(unloads.Load()); n != left {
		c.Violate("max=%d: %d unloads of %d entries that left", max, n, left)
	}
	m.Set(1, 2)
	if v, err := m.Get(1); v != 2 || err != nil || m.Size() != 1 {
		c.Violate("max=%d: after Clear and Set(1,2): Get is %d,%v, Size %d", max, v, err, m.Size())
	}
	c.Max("entries of one map", room)
	c.Events("steps on huge maps", room)
	c.Distinct("huge", max, c.Idx)
}

// window takes snapshots of big maps while a window of keys moves through
// them: the keys of each snapshot must be neighbours.
func window(c *kit.Case) {
	n := []int{600, 1500, 5000, 12000, 40000, 70000}[c.Idx%6] + c.R.IntN(500)
	max := 0
	if n < 15000 && c.R.IntN(2) == 0 {
		max = n
	}
	m := collections.NewGuavaMap[int, int]().WithMaxCount(max).Build()
	for k := 0; k < n; k++ {
		m.Set(k, k)
	}
	var started, done, readers atomic.Int64
	const nr = 3
	readers.Store(nr)
	c.Go(nr+1, func(g int, r *rand.Rand) {
		if g == 0 {
			for i := 0; readers.Load() > 0; i++ {
				started.Store(int64(i + 1))
				switch k := n + i; r.IntN(3) {
				case 0:
					m.Set(k, k)
				case 1:
					m.HasOrCreate(k, k)
				case 2:
					m.LockForUpdate(k, func() int { return k })
				}
				if max == 0 {
					m.Delete(i)
				}
				done.Store(int64(i + 1))
				if i%64 == 0 {
					c.Tick()
					runtime.Gosched()
				}
			}
			return
		}
		defer readers.Add(-1)
		shots, moved := 4, 0
		for j := 0; j < shots; j++ {
			before := done.Load()
			st := m.GetStored()
			after := started.Load()
			ks := make([]int, 0, len(st))
			for k, v := range st {
				if k != v {
					c.Violate("entry %d is %d", k, v)
				}
				ks = append(ks, k)
			}
			slices.Sort(ks)
			for _, l := range []int{len(ks), m.Size()} {
				if l < n || l > n+1 || max > 0 && l != n {
					c.Violate("max=%d: %d keys counted, %d always there", max, l, n)
				}
			}
			if gap := ks[len(ks)-1] - ks[0] + 1 - len(ks); gap != 0 {
				c.Violate("max=%d: a snapshot of %d keys, %d to %d, misses %d between, which never were the only ones missing", max, len(ks), ks[0], ks[len(ks)-1], gap)
			}
			if int64(ks[0]) < before || int64(ks[0]) > after {
				c.Violate("max=%d: a snapshot begins with key %d; removed were %d before and at most %d after", max, ks[0], before, after)
			}
			if after > before {
				moved++
			}
			c.Tick()
		}
		c.Events("snapshots of big maps judged", shots)
		c.Events("snapshots overlapping changes", moved)
	})
	c.Max("entries in one snapshot", n)
	c.Distinct(fmt.Sprint("window", max), n, done.Load())
}
