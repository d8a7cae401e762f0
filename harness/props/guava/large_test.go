package guava

import (
	"context"
	"fmt"
	"math"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"

	"github.com/axgrid/axutils/collections"
)

var fewClears = func() []string {
	var ops []string
	for i := 0; i < 30; i++ {
		ops = append(ops, "Set", "LockForUpdate", "Has", "HasOrCreate", "Get", "Get", "Delete")
	}
	return append(ops, "Clear")
}()

// large makes a timeline of many keys and big capacities.
func large(c *kit.Case, f *config) {
	f.ops, f.steps, f.sparse = fewClears, 150+c.R.IntN(400), true
	if f.max > 0 {
		f.max = 5 + c.R.IntN(120)
	}
	f.keys = 30 + c.R.IntN(200)
	scale(c, f)
	if f.read > 0 || f.write > 0 {
		timeouts(c, f)
	}
}

// scale changes the unit of all times.
func scale(c *kit.Case, f *config) {
	f.unit = []time.Duration{20 * time.Microsecond, time.Millisecond, 70 * time.Millisecond, time.Second, 5 * time.Minute, 24 * time.Hour}[c.R.IntN(6)]
	if f.read > 0 || f.write > 0 {
		f.read, f.write = 0, 0
		timeouts(c, f)
	}
}

// massExpiry: many entries fall due at the same instant, others just after.
func massExpiry(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		n := 100 + c.R.IntN(900)
		if c.Idx%8 == 0 {
			n *= 6
		}
		ttl := time.Duration(1+c.R.IntN(1000)) * time.Millisecond
		var unloads atomic.Int64
		b := typed.NewGuavaMap(c.R).WithContext(ctx).WithUnloadFunc(func(k, v int) { unloads.Add(1) })
		byRead := c.R.IntN(2) == 0
		if byRead {
			b.WithReadTimeout(ttl)
		} else {
			b.WithWriteTimeout(ttl)
		}
		if c.R.IntN(2) == 0 {
			b.WithMaxCount(n)
		}
		m := b.Build()
		for k := 0; k < n; k++ {
			m.Set(k, k)
		}
		time.Sleep(ttl - 1)
		synctest.Wait()
		if m.Size() != n {
			c.Violate("%d of %d entries are left 1 ns before the timeout of %v", m.Size(), n, ttl)
		}
		// renew every third
		kept := 0
		for k := 0; k < n; k += 3 {
			if byRead {
				if v, err := m.Get(k); v != k || err != nil {
					c.Violate("Get(%d)=%d,%v", k, v, err)
				}
			} else {
				m.Set(k, -k)
			}
			kept++
		}
		time.Sleep(2)
		synctest.Wait()
		st := m.GetStored()
		if len(st) != kept || m.Size() != kept {
			c.Violate("%d entries are left (Size %d) after the timeout of %v, %d were renewed", len(st), m.Size(), ttl, kept)
		}
		for k := range st {
			if k%3 != 0 {
				c.Violate("entry %d is still there after its timeout", k)
			}
		}
		if u := int(unloads.Load()); u != n-kept {
			c.Violate("%d unloads after %d entries expired", u, n-kept)
		}
		time.Sleep(ttl)
		synctest.Wait()
		if m.Size() != 0 || int(unloads.Load()) != n {
			c.Violate("%d entries left, %d of %d unloaded after everything expired", m.Size(), unloads.Load(), n)
		}
		cancel()
		synctest.Wait()
		c.Events("expiries judged", n)
		c.Max("entries expiring at once", n-kept)
		c.Distinct("mass", n, ttl, byRead)
	})
}

// memory: what a bounded map holds is bounded, however much passes through.
func memory(c *kit.Case) {
	max := 1 + c.R.IntN(20)
	mode := c.R.IntN(4)
	const passes, size = 20000, 600
	b := collections.NewGuavaMap[string, []byte]().WithMaxCount(max)
	b.WithLoadFunc(func(k string) ([]byte, error) { return make([]byte, size), nil })
	m := b.Build()
	before := heap()
	for i := 0; i < passes; i++ {
		k := fmt.Sprintf("%0200d", i)
		v := make([]byte, size)
		switch mode {
		case 0:
			m.Set(k, v)
		case 1:
			m.HasOrCreate(k, v)
		case 2:
			m.LockForUpdate(k, func() []byte { return v })
		case 3:
			m.Get(k)
		}
	}
	if grown := heap() - before; grown > passes*size/3 {
		c.Violate("a map of at most %d entries of %d bytes holds %d bytes after %d entries passed through (kind %d)", max, size, grown, passes, mode)
	}
	runtime.KeepAlive(m)
	c.Events("entries passed through bounded maps", passes)
	c.Distinct("memory", max, mode)
}

func heap() int64 {
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

type key struct {
	a string
	b int8
}

// kinds runs sequential histories with other types of keys and values.
func kinds(c *kit.Case) {
	switch c.R.IntN(5) {
	case 0:
		kindOf(c, func(i int) string { return []string{"", "a", "A", " ", "ключ", "a\x00"}[i%6] + fmt.Sprint(i/6) }, func(i int) *int {
			if i%3 == 0 {
				return nil
			}
			return &i
		})
	case 1:
		kindOf(c, func(i int) any {
			switch n := i / 5; i % 5 {
			case 0:
				return n
			case 1:
				return int64(n)
			case 2:
				return fmt.Sprint(n)
			case 3:
				return float64(n)
			default:
				return key{"", int8(n)}
			}
		}, func(i int) string { return []string{"", "x"}[i%2] + fmt.Sprint(i%7) })
	case 2:
		kindOf(c, func(i int) key { return key{fmt.Sprint(i / 3), int8(i%3 - 1)} }, func(i int) bool { return i%2 == 0 })
	case 3:
		kindOf(c, func(i int) int { return []int{math.MinInt, math.MaxInt - 100, -3, 1 << 32}[i%4] + i/4 }, func(i int) [2]int { return [2]int{i, -i} })
	case 4:
		kindOf(c, func(i int) uint8 { return uint8(i) }, func(i int) struct{} { return struct{}{} })
	}
}

func kindOf[K, V comparable](c *kit.Case, kf func(int) K, vf func(int) V) {
	max := c.R.IntN(2) * (1 + c.R.IntN(30))
	loader := c.R.IntN(2) == 0
	keys := 1 + c.R.IntN(40)
	type ent struct {
		k K
		v V
	}
	var ref []ent
	var mu sync.Mutex
	unloaded := map[K]int{}
	wantUnloads := map[K]int{}
	b := collections.NewGuavaMap[K, V]().WithMaxCount(max).WithUnloadFunc(func(k K, v V) {
		mu.Lock()
		unloaded[k]++
		mu.Unlock()
	})
	seq := 0
	if loader {
		b.WithLoadFunc(func(k K) (V, error) { seq++; return vf(seq), nil }).WithLockLoad(c.R.IntN(2) == 0)
	}
	if c.R.IntN(2) == 0 {
		b.WithReadTimeout(24 * time.Hour)
	}
	m := b.Build()
	find := func(k K) int { return slices.IndexFunc(ref, func(e ent) bool { return e.k == k }) }
	remove := func(i int) {
		wantUnloads[ref[i].k]++
		ref = slices.Delete(ref, i, i+1)
	}
	put := func(k K, v V) {
		if i := find(k); i >= 0 {
			ref[i].v = v
			return
		}
		if max > 0 && len(ref) >= max {
			remove(0)
		}
		ref = append(ref, ent{k, v})
	}
	for j := 0; j < 120; j++ {
		k, v := kf(c.R.IntN(keys)), vf(c.R.IntN(1000))
		i := find(k)
		op := c.R.IntN(8)
		bad := func(got ...any) {
			c.Violate("step %d: operation %d on key %#v returned %v; entries %v", j, op, k, got, ref)
		}
		switch op {
		case 0, 1:
			m.Set(k, v)
			put(k, v)
		case 2:
			if m.Has(k) != (i >= 0) {
				bad(i < 0)
			}
		case 3:
			if m.HasOrCreate(k, v) != (i >= 0) {
				bad(i < 0)
			}
			if i < 0 {
				put(k, v)
			}
		case 4, 5:
			got, err := m.Get(k)
			var want V
			if i >= 0 {
				want = ref[i].v
			} else if loader {
				want = vf(seq)
				put(k, want)
			}
			if err != nil || !same(got, want) {
				bad(got, err)
			}
		case 6:
			if got := m.LockForUpdate(k, func() V { return v }); got != v {
				bad(got)
			}
			put(k, v)
		case 7:
			m.Delete(k)
			if i >= 0 {
				remove(i)
			}
			if c.R.IntN(30) == 0 {
				m.Clear()
				for len(ref) > 0 {
					remove(0)
				}
			}
		}
		st := m.GetStored()
		if len(st) != len(ref) || m.Size() != len(ref) {
			c.Violate("step %d op %d: %d stored, Size %d, want %d", j, op, len(st), m.Size(), len(ref))
		}
		for _, e := range ref {
			if got, ok := st[e.k]; !ok || !same(got, e.v) {
				c.Violate("step %d op %d: key %#v is stored as (%v,%v), want %v", j, op, e.k, got, ok, e.v)
			}
		}
	}
	m.Clear()
	for len(ref) > 0 {
		remove(0)
	}
	total := func() (n int) {
		mu.Lock()
		defer mu.Unlock()
		for _, x := range unloaded {
			n += x
		}
		return
	}
	want := 0
	for _, x := range wantUnloads {
		want += x
	}
	settle(c, func() bool { return total() >= want })
	mu.Lock()
	defer mu.Unlock()
	for k, n := range wantUnloads {
		if unloaded[k] != n {
			c.Violate("key %#v left %d times and was unloaded %d times", k, n, unloaded[k])
		}
	}
	if len(unloaded) != len(wantUnloads) {
		c.Violate("keys were unloaded that never left: %v, %v left", unloaded, wantUnloads)
	}
	var zero K
	c.Events("operations on other types", 120)
	c.Distinct(fmt.Sprintf("%T", zero), max, loader, keys, c.Idx)
}

// same compares values; loaded pointers are made anew each time.
func same[V comparable](a, b V) bool {
	if p, ok := any(a).(*int); ok {
		q := any(b).(*int)
		return p == q || p != nil && q != nil && *p == *q
	}
	return a == b
}
