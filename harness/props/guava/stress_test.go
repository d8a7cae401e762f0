package guava

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"
)

// capacity: observers never see more than max entries while all kinds of
// writers run, and the map is not stuck below its capacity afterwards.
func capacity(c *kit.Case) { capacityOf(c, 1+c.R.IntN(5), 6, 40) }

func capacityOf(c *kit.Case, max, workers, per int) {
	b := typed.NewGuavaMap(c.R).WithMaxCount(max)
	if c.R.IntN(2) == 0 {
		b.WithLoadFunc(func(k int) (int, error) { return k, nil }).WithLockLoad(c.R.IntN(2) == 0)
	}
	if c.R.IntN(3) == 0 {
		b.WithWriteTimeout(time.Duration(50+c.R.IntN(300)) * time.Microsecond)
	} else if c.R.IntN(2) == 0 {
		b.WithReadTimeout(time.Hour)
	}
	m := b.Build()
	keys := max + 1 + c.R.IntN(4+max/4)
	var seen atomic.Int64
	c.Go(workers, func(g int, r *rand.Rand) {
		for j := 0; j < per; j++ {
			k := r.IntN(keys)
			switch r.IntN(7) {
			case 0, 1:
				m.Set(k, j)
			case 2:
				m.HasOrCreate(k, j)
			case 3:
				m.Get(k)
			case 4:
				m.LockForUpdate(k, func() int { runtime.Gosched(); return j })
			case 5:
				m.Delete(k)
			case 6:
				if r.IntN(8) == 0 {
					m.Clear()
				}
			}
			if n := m.Size(); n > max {
				c.Violate("Size is %d with at most %d allowed", n, max)
			}
			if s := m.GetStored(); len(s) > max {
				c.Violate("GetStored has %d entries with at most %d allowed: %v", len(s), max, s)
			}
		}
		seen.Add(int64(2 * per))
	})
	c.Events("size observations", int(seen.Load()))
	// at rest: exactly the newest max keys stay
	m.Clear()
	if m.Size() != 0 {
		c.Violate("Size is %d after Clear", m.Size())
	}
	fill(c, max)
	c.Distinct(max, keys, c.Idx)
}

// fill uses a map without timeouts after a churn and checks who is evicted.
func fill(c *kit.Case, max int) {
	m := typed.NewGuavaMap(c.R).WithMaxCount(max).Build()
	c.Go(4, func(g int, r *rand.Rand) {
		for j := 0; j < 20; j++ {
			k := r.IntN(max + 2)
			switch r.IntN(4) {
			case 0:
				m.Set(k, j)
			case 1:
				m.HasOrCreate(k, j)
			case 2:
				m.LockForUpdate(k, func() int { return j })
			case 3:
				m.Delete(k)
			}
		}
	})
	add := func(k int) {
		switch c.R.IntN(3) {
		case 0:
			m.Set(k, k)
		case 1:
			if m.HasOrCreate(k, k) {
				c.Violate("HasOrCreate(%d) found a key never stored", k)
			}
		case 2:
			m.LockForUpdate(k, func() int { return k })
		}
	}
	for k := 10000; k < 10000+3*max; k++ {
		add(k)
		for q := 10000; q <= k; q++ {
			if max > 20 && q != k-max && q != k-max+1 && q != k && k < 9999+3*max {
				continue
			}
			if got, want := m.Has(q), q > k-max; got != want {
				c.Violate("capacity %d, after inserting 10000..%d: Has(%d)=%v", max, k, q, got)
			}
		}
	}
	if m.Size() != max {
		c.Violate("Size is %d after inserting %d keys into a map of %d", m.Size(), 3*max, max)
	}
	c.Events("evictions judged", 3*max)
}

// lockLoad: concurrent Gets of absent keys with WithLockLoad.
func lockLoad(c *kit.Case) { lockLoadOf(c, 1+c.R.IntN(3), 2+c.R.IntN(6), c.R.IntN(3)) }

func lockLoadOf(c *kit.Case, keys, n, fails int) {
	type kstate struct{ inside, calls, ok atomic.Int32 }
	ks := make([]kstate, keys)
	hold := c.R.IntN(3)
	errLoad := kit.AnyErr(c.R, "load failed")
	b := typed.NewGuavaMap(c.R).WithLockLoad(true).WithLoadFunc(func(k int) (int, error) {
		s := &ks[k]
		if s.inside.Add(1) != 1 {
			c.Violate("two loads of key %d run at the same time", k)
		}
		call := s.calls.Add(1)
		for i := 0; i < hold*20; i++ {
			runtime.Gosched()
		}
		defer s.inside.Add(-1)
		if int(call) <= fails {
			return 77, errLoad
		}
		if s.ok.Add(1) > 1 {
			c.Violate("key %d was loaded again although it had been loaded and stored", k)
		}
		return 100 + k, nil
	})
	if c.R.IntN(2) == 0 {
		b.WithReadTimeout(time.Hour)
	}
	if c.R.IntN(2) == 0 {
		b.WithMaxCount(keys)
	}
	m := b.Build()
	errs := make([]map[int]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		e := map[int]int{}
		for _, k := range r.Perm(keys) {
			v, err := m.Get(k)
			switch {
			case err == errLoad && v == 0:
				e[k]++
			case err == nil && v == 100+k:
			default:
				c.Violate("Get(%d) returned %d, %v", k, v, err)
			}
		}
		errs[g] = e
	})
	sig := ""
	for k := range ks {
		failed := 0
		for g := range errs {
			failed += errs[g][k]
		}
		if want := min(fails, n); failed != want {
			c.Violate("key %d: %d loads failed but %d of %d callers got the error", k, want, failed, n)
		}
		calls, want := int(ks[k].calls.Load()), min(fails+1, n)
		if calls != want {
			c.Violate("key %d: %d loads for %d callers with the first %d failing", k, calls, n, fails)
		}
		if fails < n {
			if v, err := m.Get(k); v != 100+k || err != nil || int(ks[k].calls.Load()) != want {
				c.Violate("key %d was not stored: Get returned %d, %v", k, v, err)
			}
		} else if m.Has(k) {
			c.Violate("a failing load of key %d stored something", k)
		}
		sig += fmt.Sprint(failed, calls)
	}
	m.Clear()
	c.Events("keys loaded under contention", keys)
	c.Distinct(keys, n, fails, hold, sig)
}

// loadsIndependent: while a load of one key hangs, everything else goes on. A
// map that waits deadlocks, which the watchdog reports.
func loadsIndependent(c *kit.Case) {
	lock := c.R.IntN(3) > 0
	gate := make(chan struct{})
	in := make(chan struct{}, 16)
	b := typed.NewGuavaMap(c.R).WithLockLoad(lock).WithLoadFunc(func(k int) (int, error) {
		if k == 1 {
			in <- struct{}{}
			<-gate
		}
		return 100 + k, nil
	})
	if c.R.IntN(2) == 0 {
		b.WithMaxCount(10)
	}
	m := b.Build()
	c.Logf("a load of key 1 hangs (lockLoad=%v); other keys must go on", lock)
	var wg sync.WaitGroup
	queue := c.R.IntN(3)
	for i := 0; i <= queue; i++ {
		wg.Add(1)
		go c.Guard(func() {
			defer wg.Done()
			if v, err := m.Get(1); v != 101 || err != nil {
				c.Violate("Get(1) returned %d, %v", v, err)
			}
		})
	}
	<-in
	for i := c.R.IntN(100); i > 0; i-- {
		runtime.Gosched()
	}
	k := 2 + c.R.IntN(3)
	if v, err := m.Get(k); v != 100+k || err != nil {
		c.Violate("Get(%d) returned %d, %v", k, v, err)
	}
	m.Set(7, 7)
	if v, _ := m.Get(7); v != 7 || m.Has(1) {
		c.Violate("Get(7)=%d Has(1)=%v while key 1 is being loaded", v, m.Has(1))
	}
	m.Delete(7)
	m.Size()
	close(gate)
	wg.Wait()
	if v, _ := m.Get(1); v != 101 {
		c.Violate("Get(1) is %d afterwards", v)
	}
	c.Events("operations beside a hanging load", 6)
	c.Distinct(lock, queue, k)
}

// boundary: at the very instant an entry expires somebody writes or reads it.
// Whoever wins, what a caller was told must hold until the next deadline.
func boundary(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		read, write := time.Duration(0), time.Duration(0)
		switch c.R.IntN(3) {
		case 0:
			read = time.Duration(2+c.R.IntN(5)) * time.Millisecond
		case 1:
			write = time.Duration(2+c.R.IntN(5)) * time.Millisecond
		case 2:
			read, write = time.Duration(2+c.R.IntN(5))*time.Millisecond, time.Duration(2+c.R.IntN(5))*time.Millisecond
		}
		afterWrite := write
		if write == 0 {
			afterWrite = read
		}
		b := typed.NewGuavaMap(c.R).WithContext(ctx).WithReadTimeout(read).WithWriteTimeout(write)
		if c.R.IntN(3) == 0 {
			b.WithMaxCount(16)
		}
		loader := c.R.IntN(2) == 0
		if loader {
			b.WithLoadFunc(func(k int) (int, error) { return 5000 + k, nil })
		}
		var unloads [16]atomic.Int32
		b.WithUnloadFunc(func(k, v int) { unloads[k].Add(1) })
		m := b.Build()
		n := 1 + c.R.IntN(4)
		type res struct {
			op       string
			deadline time.Time // present before it (zero: unknown)
			absent   bool      // must be absent now
			gone     time.Time // absent after it
		}
		out := make([]res, n)
		var wg sync.WaitGroup
		ops := []string{"Set", "Has", "Get", "HasOrCreate", "LockForUpdate", "DeleteSet", "Delete", "ClearlessRecreate"}
		for k := 0; k < n; k++ {
			m.Set(k, 1)
			op := ops[c.R.IntN(len(ops))]
			jitter := c.R.IntN(4)
			wg.Add(1)
			go c.Guard(func() {
				defer wg.Done()
				time.Sleep(afterWrite) // wakes at the instant of the expiry
				for i := 0; i < jitter; i++ {
					runtime.Gosched()
				}
				now := time.Now()
				r := res{op: op, gone: now.Add(max(read, write))}
				switch op {
				case "Set":
					m.Set(k, 2)
					r.deadline = now.Add(afterWrite)
				case "LockForUpdate":
					m.LockForUpdate(k, func() int { return 2 })
					r.deadline = now.Add(afterWrite)
				case "Has":
					if m.Has(k) {
						if read > 0 {
							r.deadline = now.Add(read)
						} else {
							r.gone = now // a write timeout alone is not renewed
						}
					} else {
						r.absent = true
					}
				case "Get":
					v, _ := m.Get(k)
					switch {
					case v == 1 && read > 0:
						r.deadline = now.Add(read)
					case v == 1:
						r.gone = now
					case v == 5000+k:
						r.deadline = now.Add(afterWrite)
					case v == 0:
						r.absent = true
					}
				case "HasOrCreate":
					if !m.HasOrCreate(k, 2) {
						r.deadline = now.Add(afterWrite)
					} else if read > 0 {
						r.deadline = now.Add(read)
					} else {
						r.gone = now
					}
				case "DeleteSet":
					m.Delete(k)
					m.Set(k, 2)
					r.deadline = now.Add(afterWrite)
				case "Delete":
					m.Delete(k)
					r.absent = true
				case "ClearlessRecreate":
					m.Delete(k)
					if m.HasOrCreate(k, 2) {
						c.Violate("HasOrCreate found key %d right after Delete", k)
					}
					r.deadline = now.Add(afterWrite)
				}
				out[k] = r
			})
		}
		wg.Wait()
		end := time.Now().Add(12 * time.Millisecond)
		sig := ""
		for k, r := range out {
			sig += fmt.Sprint(r.op, r.absent, r.deadline.IsZero())
			c.Logf("key %d: %s at the instant of expiry (read=%v write=%v), absent=%v", k, r.op, read, write, r.absent)
		}
		for {
			synctest.Wait()
			now := time.Now()
			st := m.GetStored()
			for k, r := range out {
				_, has := st[k]
				if !r.deadline.IsZero() && now.Before(r.deadline) && !has {
					c.Violate("key %d: %s at the instant of expiry renewed it until %v, but it is gone %v before that", k, r.op, r.deadline, r.deadline.Sub(now))
				}
				if has && (r.absent || now.After(r.gone)) {
					c.Violate("key %d: %s at the instant of expiry; still present %v after that (read=%v write=%v)", k, r.op, now.Sub(end.Add(-12*time.Millisecond)), read, write)
				}
				if has && !r.deadline.IsZero() && now.After(r.deadline) {
					c.Violate("key %d: %s renewed it until %v, still present at %v", k, r.op, r.deadline, now)
				}
			}
			if now.After(end) {
				break
			}
			time.Sleep(500*time.Microsecond + 100)
		}
		cancel()
		synctest.Wait()
		c.Events("boundary operations judged", n)
		c.Distinct(read, write, sig)
	})
}

// conserve: every insertion has a unique value; each leaves exactly once.
func conserve(c *kit.Case) { conserveOf(c, 5, 1+c.R.IntN(6), 5, 40) }

func conserveOf(c *kit.Case, maxMax, keys, n, per int) {
	max := 0
	if c.R.IntN(2) == 0 {
		max = 1 + c.R.IntN(maxMax)
	}
	var mu sync.Mutex
	log := map[[2]int]int{}
	b := typed.NewGuavaMap(c.R).WithUnloadFunc(func(k, v int) {
		mu.Lock()
		log[[2]int{k, v}]++
		mu.Unlock()
	})
	if max > 0 {
		b.WithMaxCount(max)
	}
	timed := c.R.IntN(2) == 0
	if timed {
		b.WithWriteTimeout(time.Duration(10+c.R.IntN(200)) * time.Microsecond)
		if c.R.IntN(2) == 0 {
			b.WithReadTimeout(time.Duration(10+c.R.IntN(200)) * time.Microsecond)
		}
	}
	overwrite := c.R.IntN(3) == 0
	var seq atomic.Int64
	seq.Store(1 << 20)
	if c.R.IntN(2) == 0 {
		b.WithLoadFunc(func(k int) (int, error) { return int(seq.Add(1)), nil }).WithLockLoad(c.R.IntN(2) == 0)
	}
	m := b.Build()
	ins := make([]map[[2]int]bool, n)  // certainly inserted
	over := make([]map[[2]int]bool, n) // written, perhaps in place
	c.Go(n, func(g int, r *rand.Rand) {
		in, ov := map[[2]int]bool{}, map[[2]int]bool{}
		for j := 0; j < per; j++ {
			k, v := r.IntN(keys), g*1000+j+1
			switch r.IntN(7) {
			case 0, 1, 2:
				if !m.HasOrCreate(k, v) {
					in[[2]int{k, v}] = true
				}
			case 3:
				m.Delete(k)
			case 4:
				if r.IntN(5) == 0 {
					m.Clear()
				}
			case 5:
				if v, _ := m.Get(k); v > 1<<20 {
					// loaded by this call or by another: each loaded value that
					// is returned was stored once
					in[[2]int{k, v}] = true
				}
			case 6:
				if overwrite {
					ov[[2]int{k, v}] = true
					if r.IntN(2) == 0 {
						m.Set(k, v)
					} else {
						m.LockForUpdate(k, func() int { return v })
					}
				} else {
					m.Has(k)
				}
			}
			if timed && r.IntN(8) == 0 {
				time.Sleep(time.Duration(r.IntN(150)) * time.Microsecond)
			}
		}
		ins[g], over[g] = in, ov
	})
	// everything still there leaves now
	m.Clear()
	if m.Size() != 0 {
		c.Violate("Size %d after Clear at rest", m.Size())
	}
	want, maybe := map[[2]int]bool{}, map[[2]int]bool{}
	for g := range ins {
		for x := range ins[g] {
			want[x] = true
		}
		for x := range over[g] {
			maybe[x] = true
		}
	}
	count := func() (total int) {
		mu.Lock()
		defer mu.Unlock()
		for _, n := range log {
			total += n
		}
		return
	}
	settle(c, func() bool {
		if overwrite {
			return quiet(count)
		}
		return count() >= len(want)
	})
	mu.Lock()
	defer mu.Unlock()
	for x, n := range log {
		if n != 1 {
			c.Violate("unload(%d, %d) ran %d times", x[0], x[1], n)
		}
		if !want[x] && !maybe[x] {
			c.Violate("unload(%d, %d) of an entry nobody was told is stored", x[0], x[1])
		}
	}
	if !overwrite {
		for x := range want {
			if log[x] != 1 {
				c.Violate("the entry %d=%d left the map, its unload ran %d times (%d entries, %d unloads)", x[0], x[1], log[x], len(want), len(log))
			}
		}
	}
	c.Events("entries that left judged", len(log))
	c.Distinct(max, keys, timed, overwrite, len(want), len(log))
}

// settle waits until the asynchronous callbacks are in: until done says so, or
// nothing but this goroutine can still run them. It then waits a little for
// callbacks that should not come.
func settle(c *kit.Case, done func() bool) {
	for i := 0; i < 4000; i++ {
		if done() {
			break
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(i) * time.Microsecond)
		}
	}
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
}

func quiet(count func() int) bool {
	a := count()
	for i := 0; i < 300; i++ {
		runtime.Gosched()
	}
	time.Sleep(200 * time.Microsecond)
	return count() == a
}

// unloadBlocks: an unload function that hangs, or uses the map, stops nothing.
func unloadBlocks(c *kit.Case) {
	gate := make(chan struct{})
	var ran, calls atomic.Int32
	var m typed.GuavaMap
	reentrant := c.R.IntN(2) == 0
	via := c.R.IntN(4)
	b := typed.NewGuavaMap(c.R).WithUnloadFunc(func(k, v int) {
		if reentrant && calls.Add(1) > 4 {
			// or it would go on for ever
		} else if reentrant {
			m.Has(k)
			m.GetStored()
			m.Set(50+k, v)
			m.Get(k)
			m.Delete(99)
		} else {
			<-gate
		}
		ran.Add(1)
	})
	if via == 2 {
		b.WithMaxCount(1)
	}
	if via == 3 {
		b.WithWriteTimeout(100 * time.Microsecond)
	}
	m = b.Build()
	c.Logf("an unload function that hangs until others are done (reentrant=%v, removal kind %d)", reentrant, via)
	m.Set(1, 10)
	switch via {
	case 0:
		m.Delete(1)
	case 1:
		m.Clear()
	case 2:
		m.Set(2, 20)
	case 3:
		for m.Size() > 0 && ran.Load() == 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
	m.Set(3, 30)
	m.Get(3)
	m.Size()
	m.GetStored()
	close(gate)
	for ran.Load() == 0 {
		time.Sleep(20 * time.Microsecond)
	}
	c.Events("operations beside a hanging unload", 4)
	c.Distinct(reentrant, via)
}

//go:norace
func enter(p *int32) int32 { *p++; return *p }

//go:norace
func leave(p *int32) int32 { *p--; return *p }

type cell struct {
	inside int32
	n      int // plain: a race on it means updates are not ordered
	_      [6]int64
}

// updates: read-modify-write chains through LockForUpdate lose nothing.
func updates(c *kit.Case) { updatesOf(c, 1+c.R.IntN(3), 2+c.R.IntN(6), 1+c.R.IntN(8)) }

func updatesOf(c *kit.Case, keys, n, per int) {
	b := typed.NewGuavaMap(c.R)
	switch c.R.IntN(4) {
	case 0:
		b.WithReadTimeout(time.Hour)
	case 1:
		b.WithMaxCount(keys)
	case 2:
		b.WithUnloadFunc(func(int, int) {}).WithWriteTimeout(time.Hour)
	}
	m := b.Build()
	cells := make([]cell, keys)
	counts := make([][]int, n)
	results := make([][][]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		cnt := make([]int, keys)
		res := make([][]int, keys)
		for j := 0; j < per; j++ {
			k := r.IntN(keys)
			x := &cells[k]
			calls := 0
			got := m.LockForUpdate(k, func() int {
				calls++
				if enter(&x.inside) != 1 {
					c.Violate("two updates of key %d run at the same time", k)
				}
				v, err := m.Get(k)
				if err != nil || v != x.n {
					c.Violate("an update of key %d reads %d from the map after %d updates", k, v, x.n)
				}
				for i := r.IntN(4); i > 0; i-- {
					runtime.Gosched()
				}
				x.n++
				if leave(&x.inside) != 0 {
					c.Violate("two updates of key %d ran at the same time", k)
				}
				return v + 1
			})
			if calls != 1 {
				c.Violate("an update function ran %d times", calls)
			}
			if v, _ := m.Get(k); v < got {
				c.Violate("LockForUpdate(%d) returned %d, a Get right after it %d", k, got, v)
			}
			if len(res[k]) > 0 && got <= res[k][len(res[k])-1] {
				c.Violate("LockForUpdate(%d) returned %d to a goroutine that had got %d before", k, got, res[k][len(res[k])-1])
			}
			res[k] = append(res[k], got)
			cnt[k]++
			if r.IntN(3) == 0 {
				m.Has(k)
			}
		}
		counts[g], results[g] = cnt, res
	})
	sig := ""
	for k := 0; k < keys; k++ {
		sum := 0
		seen := map[int]int{}
		for g := range counts {
			sum += counts[g][k]
			for _, v := range results[g][k] {
				if o, dup := seen[v]; dup {
					c.Violate("key %d: goroutines %d and %d both made update number %d", k, o, g, v)
				}
				seen[v] = g
			}
		}
		if v, _ := m.Get(k); v != sum || cells[k].n != sum {
			c.Violate("key %d: %d updates left %d (%d executions)", k, sum, v, cells[k].n)
		}
		for i := 1; i <= sum; i++ {
			sig += fmt.Sprint(seen[i])
		}
		sig += ";"
		c.Events("updates judged", sum)
	}
	c.Distinct(keys, n, per, sig)
	m.Clear()
}

// heldAtOnce: any number of keys are updated, or loaded under the lock, at the
// same time, and each of them alone keeps its others out.
func heldAtOnce(c *kit.Case, load bool) {
	keys := 20 + c.R.IntN(60)
	switch c.R.IntN(4) {
	case 0, 1:
		keys = 100 + c.R.IntN(900)
	case 2:
		keys = 1000 + c.R.IntN(2000)
	}
	cells := make([]cell, keys)
	var in sync.WaitGroup
	in.Add(keys)
	gate, first := make(chan struct{}), make(chan struct{}) // of the others, of the first keys
	early := keys / 4
	work := func(k int) (int, error) {
		x := &cells[k]
		gate := gate
		if k < early {
			gate = first
		}
		if enter(&x.inside) != 1 {
			c.Violate("with %d keys at work key %d is at work twice", keys, k)
		}
		if x.n == 0 {
			in.Done()
			<-gate
		}
		for i := k % 4; i > 0; i-- {
			runtime.Gosched()
		}
		x.n++
		if leave(&x.inside) != 0 {
			c.Violate("with %d keys at work key %d was at work twice", keys, k)
		}
		return x.n, nil
	}
	b := typed.NewGuavaMap(c.R)
	if load {
		b.WithLockLoad(true).WithLoadFunc(work)
	}
	if c.R.IntN(3) == 0 {
		b.WithWriteTimeout(time.Hour)
	}
	m := b.Build()
	extra := make([]int, keys) // how many more want the key meanwhile
	var wg sync.WaitGroup
	one := func(k int) {
		wg.Add(1)
		go c.Guard(func() {
			defer wg.Done()
			if load {
				if v, err := m.Get(k); v != 1 || err != nil {
					c.Violate("Get(%d) returned %d, %v", k, v, err)
				}
				return
			}
			m.LockForUpdate(k, func() int { v, _ := work(k); return v })
		})
	}
	c.Logf("%d keys are worked on at the same time (loads %v)", keys, load)
	for k := range keys {
		one(k)
	}
	in.Wait() // hangs if one of them keeps another out
	for k := range keys {
		if c.R.IntN(4) == 0 || keys < 60 {
			extra[k] = 1 + c.R.IntN(3)
			for range extra[k] {
				one(k)
			}
		}
	}
	for i := 0; i < 200; i++ {
		runtime.Gosched()
	}
	if c.R.IntN(2) == 0 {
		time.Sleep(time.Millisecond)
	}
	close(first) // some come to an end, and others come for their keys
	for range 3 {
		for k := range early {
			extra[k]++
			one(k)
		}
		runtime.Gosched()
	}
	close(gate)
	wg.Wait()
	for k := range keys {
		want := 1 + extra[k]
		if load {
			want = 1
		}
		if v, _ := m.Get(k); v != want || cells[k].n != want {
			c.Violate("key %d: %d executions left %d, not %d", k, cells[k].n, v, want)
		}
	}
	m.Clear()
	c.Events("keys worked on at the same time", keys)
	c.Max("most keys worked on at the same time", keys)
	c.Distinct(load, keys)
}

// disturbed: deletions, clearings, evictions, expiries and other writes and reads
// of the keys under update (or lock loading) let no two updates (loads) of a key overlap.
func disturbed(c *kit.Case, load bool) {
	keys := 1 + c.R.IntN(4)
	b := typed.NewGuavaMap(c.R)
	cfg := c.R.IntN(8)
	if cfg&1 > 0 {
		b.WithMaxCount(1 + c.R.IntN(keys))
	}
	if cfg&2 > 0 {
		b.WithUnloadFunc(func(int, int) {})
	}
	if cfg&4 > 0 {
		b.WithWriteTimeout(time.Duration(1+c.R.IntN(200)) * time.Microsecond)
	}
	cells := make([]cell, keys)
	var loads atomic.Int64
	if load {
		b.WithLockLoad(true).WithLoadFunc(func(k int) (int, error) {
			x := &cells[k]
			if enter(&x.inside) != 1 {
				c.Violate("two loads of key %d run at the same time beside other operations", k)
			}
			for i := (x.n + k) % 5; i > 0; i-- {
				runtime.Gosched()
			}
			x.n++
			loads.Add(1)
			if leave(&x.inside) != 0 {
				c.Violate("two loads of key %d ran at the same time beside other operations", k)
			}
			if x.n%7 == 0 {
				return 0, errors.New("load failed")
			}
			return 100*x.n + k, nil
		})
	}
	m := b.Build()
	ops := []string{"Delete", "Clear", "Set", "HasOrCreate", "Get", "GetStored"}
	do := [2]string{ops[c.R.IntN(len(ops))], ops[c.R.IntN(len(ops))]}
	n := 2 + c.R.IntN(5)
	total := make([]int, n)
	c.Go(n+2, func(g int, r *rand.Rand) {
		for j := 0; j < 12; j++ {
			k := r.IntN(keys)
			if g >= n {
				switch do[g-n] {
				case "Delete":
					m.Delete(k)
				case "Clear":
					m.Clear()
				case "Set":
					m.Set(k, -1)
				case "HasOrCreate":
					m.HasOrCreate(k, -1)
				case "Get":
					if load {
						m.Has(k)
					} else {
						m.Get(k)
					}
				case "GetStored":
					m.GetStored()
				}
				for i := r.IntN(3); i > 0; i-- {
					runtime.Gosched()
				}
				continue
			}
			x := &cells[k]
			if load {
				if v, err := m.Get(k); err == nil && v != -1 && (v%100 != k || v == k) {
					c.Violate("Get(%d) returned %d beside %v", k, v, do)
				} else if err != nil && v != 0 {
					c.Violate("Get(%d) returned %d, %v beside %v", k, v, err, do)
				}
				continue
			}
			want, calls := 1000*g+j+1, 0
			got := m.LockForUpdate(k, func() int {
				calls++
				if enter(&x.inside) != 1 {
					c.Violate("two updates of key %d run at the same time beside %v", k, do)
				}
				for i := r.IntN(6); i > 0; i-- {
					runtime.Gosched()
				}
				x.n++
				if leave(&x.inside) != 0 {
					c.Violate("two updates of key %d ran at the same time beside %v", k, do)
				}
				return want
			})
			if calls != 1 || got != want {
				c.Violate("an update of key %d returning %d ran %d times and gave %d beside %v", k, want, calls, got, do)
			}
			total[g]++
		}
	})
	sum := int(loads.Load())
	for _, v := range total {
		sum += v
	}
	for k := range cells {
		sum -= cells[k].n
	}
	if sum != 0 {
		c.Violate("%d updates did not count beside %v", sum, do)
	}
	m.Clear()
	c.Events("disturbed calls judged", 12*n)
	c.Distinct(load, keys, cfg, do, n, loads.Load())
}

// updateIndependent: beside a running update everything else goes on.
func updateIndependent(c *kit.Case) {
	gate, in := make(chan struct{}), make(chan struct{})
	b := typed.NewGuavaMap(c.R)
	if c.R.IntN(2) == 0 {
		b.WithMaxCount(8)
	}
	if c.R.IntN(2) == 0 {
		b.WithReadTimeout(time.Hour)
	}
	m := b.Build()
	before := c.R.IntN(2) == 0
	if before {
		m.Set(1, 5)
	}
	c.Logf("an update of key 1 hangs; reads and other keys must go on")
	var wg sync.WaitGroup
	wg.Add(1)
	go c.Guard(func() {
		defer wg.Done()
		if v := m.LockForUpdate(1, func() int { close(in); <-gate; return 6 }); v != 6 {
			c.Violate("LockForUpdate returned %d", v)
		}
	})
	<-in
	queue := c.R.IntN(3)
	for i := 0; i < queue; i++ {
		wg.Add(1)
		go c.Guard(func() {
			defer wg.Done()
			m.LockForUpdate(1, func() int { return 6 })
		})
	}
	for i := c.R.IntN(100); i > 0; i-- {
		runtime.Gosched()
	}
	if v := m.LockForUpdate(2, func() int { return 22 }); v != 22 {
		c.Violate("LockForUpdate(2) returned %d", v)
	}
	if m.Has(1) != before {
		c.Violate("Has(1)=%v while the update of key 1 has not returned", !before)
	}
	if v, _ := m.Get(1); before && v != 5 || !before && v != 0 {
		c.Violate("Get(1)=%d while the update of key 1 has not returned", v)
	}
	if v, _ := m.Get(2); v != 22 {
		c.Violate("Get(2)=%d", v)
	}
	m.Set(3, 3)
	m.Delete(3)
	m.GetStored()
	m.Size()
	close(gate)
	wg.Wait()
	if v, _ := m.Get(1); v != 6 {
		c.Violate("Get(1)=%d after the update returned 6", v)
	}
	m.Clear()
	c.Events("operations beside a hanging update", 8)
	c.Distinct(before, queue)
}

func with(f func(c *kit.Case, f *config)) func(c *kit.Case) {
	return func(c *kit.Case) {
		x := anyConfig(c)
		f(c, &x)
		timeline(c, x)
	}
}

func init() {
	tl := "timelines of random operations at virtual times under random configurations, everything visible compared with a reference after each step, distinct by configuration and timed operations"
	kit.Register(&kit.Prop{
		ID:   "C07",
		Rule: "random concurrent histories (2-4 clients) under random configurations, distinct by interleaving and results when operations overlap; creation races by winners; soak runs with live timers; " + tl,
		Parts: []kit.Part{
			{Name: "linearizable", N: 10000, Stress: true, Fn: func(c *kit.Case) { linearizable(c, 0) }},
			{Name: "election", N: 2400, Stress: true, Fn: election},
			{Name: "soak", N: 400, Stress: true, Fn: soak},
			{Name: "timeline", N: 640, Fn: with(func(c *kit.Case, f *config) {})},
			{Name: "large", N: 24, Fn: with(func(c *kit.Case, f *config) { large(c, f) })},
			{Name: "kinds", N: 240, Fn: kinds},
			{Name: "huge", N: 6, Fn: huge},
			{Name: "window", N: 12, Stress: true, Fn: window},
			{Name: "crowd", N: 40, Stress: true, Fn: func(c *kit.Case) { electionOf(c, 30+c.R.IntN(70), 100) }},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C08",
		Rule: tl + "; concurrent histories with a capacity, distinct by interleaving; churn with size observers by configuration and case",
		Parts: []kit.Part{
			{Name: "timeline", N: 2000, Fn: with(func(c *kit.Case, f *config) {
				f.max = 1 + c.R.IntN(5)
				f.keys = f.max + 1 + c.R.IntN(4)
				f.steps = 40
			})},
			{Name: "linearizable", N: 6000, Stress: true, Fn: func(c *kit.Case) { linearizable(c, 1) }},
			{Name: "capacity", N: 800, Stress: true, Fn: capacity},
			{Name: "large", N: 32, Fn: with(func(c *kit.Case, f *config) {
				large(c, f)
				if f.max == 0 {
					f.max = 64 + c.R.IntN(64)
				}
				f.keys = f.max + 1 + c.R.IntN(f.max)
			})},
			{Name: "large capacity", N: 24, Stress: true, Fn: func(c *kit.Case) { capacityOf(c, 10+c.R.IntN(150), 8, 100) }},
			{Name: "memory", N: 3, Fn: memory},
			{Name: "huge", N: 6, Fn: huge},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C09",
		Rule: tl + "; contended loads with some failing, by keys, callers, failures and outcome",
		Parts: []kit.Part{
			{Name: "timeline", N: 1600, Fn: with(func(c *kit.Case, f *config) {
				f.load = c.R.IntN(6) > 0
				f.ops = append([]string{"Get", "Get", "Get"}, allOps...)
			})},
			{Name: "lockload", N: 6000, Stress: true, Fn: lockLoad},
			{Name: "disturbed", N: 2000, Stress: true, Fn: func(c *kit.Case) { disturbed(c, true) }},
			{Name: "at once", N: 40, Stress: true, Fn: func(c *kit.Case) { heldAtOnce(c, true) }},
			{Name: "crowd", N: 40, Stress: true, Fn: func(c *kit.Case) { lockLoadOf(c, 1+c.R.IntN(60), 20+c.R.IntN(60), c.R.IntN(30)) }},
			{Name: "large", N: 24, Fn: with(func(c *kit.Case, f *config) {
				large(c, f)
				f.load = true
				f.ops = append([]string{"Get", "Get", "Get", "Get", "Get"}, fewClears...)
			})},
			{Name: "independent", N: 1600, Stress: true, Fn: loadsIndependent},
			{Name: "linearizable", N: 2400, Stress: true, Fn: func(c *kit.Case) { linearizable(c, 0) }},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C10",
		Rule: tl + "; operations at the very instant of an expiry, by timeouts, operations and who won",
		Parts: []kit.Part{
			{Name: "timeline", N: 2800, Fn: with(func(c *kit.Case, f *config) {
				if c.R.IntN(12) > 0 {
					timeouts(c, f)
				}
			})},
			{Name: "boundary", N: 8000, Stress: true, Fn: boundary},
			{Name: "large", N: 32, Fn: with(func(c *kit.Case, f *config) { large(c, f); timeouts(c, f) })},
			{Name: "scales", N: 600, Fn: with(func(c *kit.Case, f *config) { scale(c, f); timeouts(c, f) })},
			{Name: "fine", N: 800, Fn: with(func(c *kit.Case, f *config) { f.fine = true; scale(c, f); timeouts(c, f) })},
			{Name: "mass expiry", N: 16, Stress: true, Fn: massExpiry},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C11",
		Rule: tl + "; concurrent runs with uniquely valued insertions, by configuration and numbers of entries and unloads",
		Parts: []kit.Part{
			{Name: "timeline", N: 2000, Fn: with(func(c *kit.Case, f *config) { f.unload = true })},
			{Name: "conserve", N: 1600, Stress: true, Fn: conserve},
			{Name: "blocking", N: 1600, Stress: true, Fn: unloadBlocks},
			{Name: "large", N: 24, Fn: with(func(c *kit.Case, f *config) { large(c, f); f.unload = true })},
			{Name: "large conserve", N: 32, Stress: true, Fn: func(c *kit.Case) { conserveOf(c, 100, 1+c.R.IntN(200), 8, 150) }},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C12",
		Rule: "contended read-modify-write chains, distinct by the order in which goroutines made the updates; " + tl,
		Parts: []kit.Part{
			{Name: "updates", N: 8000, Stress: true, Fn: updates},
			{Name: "independent", N: 1600, Stress: true, Fn: updateIndependent},
			{Name: "disturbed", N: 3000, Stress: true, Fn: func(c *kit.Case) { disturbed(c, false) }},
			{Name: "at once", N: 60, Stress: true, Fn: func(c *kit.Case) { heldAtOnce(c, false) }},
			{Name: "crowd", N: 60, Stress: true, Fn: func(c *kit.Case) { updatesOf(c, 1+c.R.IntN(100), 20+c.R.IntN(60), 1+c.R.IntN(20)) }},
			{Name: "large", N: 24, Fn: with(func(c *kit.Case, f *config) {
				large(c, f)
				f.ops = append([]string{"LockForUpdate", "LockForUpdate", "LockForUpdate", "LockForUpdate"}, fewClears...)
			})},
			{Name: "timeline", N: 1200, Fn: with(func(c *kit.Case, f *config) {
				f.ops = append([]string{"LockForUpdate", "LockForUpdate", "LockForUpdate", "LockForUpdate"}, allOps...)
			})},
		},
	})
}
