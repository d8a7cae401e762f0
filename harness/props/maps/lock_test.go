package maps

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/collections"
)

// enter and leave count who is inside. They are hidden from the race detector
// and order nothing, so that the plain variables next to them still show a lock
// that does not order its holders.
//
//go:norace
func enter(p *int32) int32 { *p++; return *p }

//go:norace
func leave(p *int32) int32 { *p--; return *p }

//go:norace
func peek(p *int32) int32 { return *p }

type cell struct {
	writers, readers int32
	n                int // plain: races on it mean the lock does not order
	_                [5]int64
}

func linger(r *rand.Rand) {
	switch r.IntN(4) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := r.IntN(8); i > 0; i-- {
			runtime.Gosched()
		}
	}
}

func writeSection(c *kit.Case, x *cell, r *rand.Rand, key int) {
	if w := enter(&x.writers); w != 1 || peek(&x.readers) != 0 {
		c.Violate("key %d: a writer holds the lock together with %d writers and %d readers", key, w-1, peek(&x.readers))
	}
	n := x.n
	linger(r)
	x.n = n + 1
	if w := leave(&x.writers); w != 0 || peek(&x.readers) != 0 {
		c.Violate("key %d: while a writer held the lock %d writers and %d readers got it too", key, w, peek(&x.readers))
	}
}

func lockKeys(r *rand.Rand) int { return 1 + r.IntN(4) }

func mutexStress(c *kit.Case) {
	keys := lockKeys(c.R)
	n, per := 2+c.R.IntN(7), 1+c.R.IntN(12)
	mm := collections.NewMapMutex[int]()
	cells := make([]cell, keys)
	want := make([][]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		w := make([]int, keys)
		for j := 0; j < per; j++ {
			k := r.IntN(keys)
			mm.Lock(k)
			writeSection(c, &cells[k], r, k)
			mm.Unlock(k)
			w[k]++
		}
		want[g] = w
	})
	check(c, cells, want, n, per)
}

func check(c *kit.Case, cells []cell, want [][]int, n, per int) {
	sig := ""
	for k := range cells {
		sum := 0
		for g := range want {
			sum += want[g][k]
		}
		if cells[k].n != sum {
			c.Violate("key %d: %d increments under the lock left %d", k, sum, cells[k].n)
		}
		c.Events("write sections", sum)
		sig += fmt.Sprint(sum, ",")
	}
	c.Distinct(n, per, sig)
	c.Sample(func() string {
		return fmt.Sprintf("%d goroutines x %d sections over %d keys: %s", n, per, len(cells), sig)
	})
}

func rwStress(c *kit.Case) {
	keys := lockKeys(c.R)
	n, per := 2+c.R.IntN(7), 1+c.R.IntN(12)
	share := c.R.IntN(4) + 1
	mm := collections.NewMapRWMutex[int]()
	cells := make([]cell, keys)
	want := make([][]int, n)
	reads := make([]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		w := make([]int, keys)
		last := make([]int, keys)
		for j := 0; j < per; j++ {
			k := r.IntN(keys)
			x := &cells[k]
			if r.IntN(share+1) == 0 {
				mm.Lock(k)
				writeSection(c, x, r, k)
				mm.Unlock(k)
				w[k]++
			} else {
				mm.RLock(k)
				if w := peek(&x.writers); w != 0 {
					c.Violate("key %d: a reader got the lock while %d writers held it", k, w)
				}
				a := x.n
				linger(r)
				if b := x.n; a != b || peek(&x.writers) != 0 {
					c.Violate("key %d: a writer changed the data under a reader (%d -> %d)", k, a, b)
				}
				mm.RUnlock(k)
				if a < last[k] {
					c.Violate("key %d: a reader saw %d after %d", k, a, last[k])
				}
				last[k] = a
				reads[g]++
			}
		}
		want[g] = w
	})
	for _, x := range reads {
		c.Events("read sections", x)
	}
	check(c, cells, want, n, per)
}

// locker is one way of holding a key.
type locker struct {
	name         string
	lock, unlock func(int)
}

func lockers(r *rand.Rand) (kind string, w locker, all []locker) {
	switch r.IntN(8) {
	case 0:
		return lockersOf(r, func(i int) string { return fmt.Sprint(i) })
	case 1:
		return lockersOf(r, func(i int) any {
			if i%6 == 5 {
				return pair{fmt.Sprint(i), 0}
			}
			return anyKey(i)
		})
	case 2: // pointers to equal values are different keys
		return lockersOf(r, func(i int) *pair { return lockPtrs[i] })
	case 3:
		return lockersOf(r, func(i int) pair { return pair{fmt.Sprint(i / 100), int8(i % 100)} })
	}
	return lockersOf(r, func(i int) int { return i })
}

var lockPtrs = func() []*pair {
	ps := make([]*pair, 1<<15)
	for i := range ps {
		ps[i] = &pair{"key", 1}
	}
	return ps
}()

func lockersOf[K comparable](r *rand.Rand, key func(int) K) (kind string, w locker, all []locker) {
	on := func(f func(K)) func(int) { return func(i int) { f(key(i)) } }
	var k K
	if r.IntN(2) == 0 {
		m := collections.NewMapMutex[K]()
		w = locker{"Lock", on(m.Lock), on(m.Unlock)}
		return fmt.Sprintf("MapMutex[%T]", k), w, []locker{w}
	}
	m := collections.NewMapRWMutex[K]()
	w = locker{"Lock", on(m.Lock), on(m.Unlock)}
	return fmt.Sprintf("MapRWMutex[%T]", k), w, []locker{w, {"RLock", on(m.RLock), on(m.RUnlock)}}
}

// heldLong holds locks for seconds of real time (blocking on a sync lock cannot
// be told apart from running by a clock that is simulated): no one who waits
// gives up, or gets in.
func heldLong(c *kit.Case) {
	hold := 6 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		hold = 65 * time.Second
	}
	a, b := collections.NewMapMutex[int](), collections.NewMapRWMutex[int]()
	ls := []locker{{"MapMutex.Lock", a.Lock, a.Unlock}, {"MapRWMutex.Lock", b.Lock, b.Unlock}, {"MapRWMutex.RLock", b.RLock, b.RUnlock}}
	pairs := [][2]locker{{ls[0], ls[0]}, {ls[1], ls[1]}, {ls[1], ls[2]}, {ls[2], ls[1]}}
	var in [4]atomic.Int32
	var wg sync.WaitGroup
	for i, p := range pairs {
		p[0].lock(i)
		for range 3 {
			wg.Add(1)
			go c.Guard(func() {
				defer wg.Done()
				p[1].lock(i)
				in[i].Add(1)
				p[1].unlock(i)
			})
		}
	}
	for began := time.Now(); time.Since(began) < hold; time.Sleep(20 * time.Millisecond) {
		for i, p := range pairs {
			if n := in[i].Load(); n > 0 {
				c.Violate("%s let %d in after %v, with the key held by %s", p[1].name, n, time.Since(began), p[0].name)
			}
		}
		c.Tick()
	}
	for i, p := range pairs {
		p[0].unlock(i)
	}
	wg.Wait()
	c.Max("seconds a lock was held", int(hold/time.Second))
	c.Distinct("held long")
}

// lockAmongMany contends for few keys of a lock map that knows thousands.
func lockAmongMany(c *kit.Case) {
	kind, w, all := lockers(c.R)
	known := []int{100, 700, 1500, 5000, 12000, 30000}[c.Idx%6]
	for k := 0; k < known; k++ {
		l := all[c.R.IntN(len(all))]
		l.lock(k)
		l.unlock(k)
	}
	c.Logf("%s: few of %d known keys are contended for", kind, known)
	n, per, keys := 3+c.R.IntN(6), 250, 1+c.R.IntN(3)
	cells := make([]cell, keys)
	want := make([][]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		s := make([]int, keys)
		for j := 0; j < per; j++ {
			k := r.IntN(keys)
			if l := all[r.IntN(len(all))]; l.name == "RLock" && r.IntN(2) == 0 {
				l.lock(k)
				if x := peek(&cells[k].writers); x != 0 {
					c.Violate("%s: a reader of key %d of %d got the lock while %d writers held it", kind, k, known, x)
				}
				_ = cells[k].n
				linger(r)
				l.unlock(k)
				continue
			}
			w.lock(k)
			writeSection(c, &cells[k], r, k)
			w.unlock(k)
			s[k]++
			if j%16 == 0 {
				c.Tick()
			}
		}
		want[g] = s
	})
	c.Max("keys of one lock map", known)
	check(c, cells, want, n, per)
}

// independent: while key 1 is held, and others queue for it, keys 2.. are free.
// If they are not, the case hangs and the watchdog reports the deadlock.
func independent(c *kit.Case) {
	kind, w, all := lockers(c.R)
	hold := all[c.R.IntN(len(all))]
	if c.R.IntN(2) == 0 { // the key may be known already, or not
		w.lock(1)
		w.unlock(1)
	}
	hold.lock(1)
	var wg sync.WaitGroup
	queue := c.R.IntN(4)
	for i := 0; i < queue; i++ {
		l := all[c.R.IntN(len(all))]
		if hold.name == "RLock" {
			l = w
		}
		wg.Add(1)
		go c.Guard(func() {
			defer wg.Done()
			l.lock(1)
			l.unlock(1)
		})
	}
	for i := c.R.IntN(200); i > 0; i-- {
		runtime.Gosched()
	}
	if c.R.IntN(3) == 0 {
		time.Sleep(30 * time.Microsecond)
	}
	c.Logf("%s: key 1 held by %s with %d queued; other keys must be free", kind, hold.name, queue)
	for i := 0; i < 3; i++ {
		l := all[c.R.IntN(len(all))]
		k := 2 + c.R.IntN(3)
		l.lock(k)
		l.unlock(k)
	}
	hold.unlock(1)
	wg.Wait()
	w.lock(1)
	w.unlock(1)
	c.Events("other keys taken while one was held", 3)
	c.Distinct(kind, hold.name, queue)
}

// shared: readers hold a key together; each stays until all are in.
func shared(c *kit.Case) {
	m := collections.NewMapRWMutex[string]()
	n := 2 + c.R.IntN(5)
	if c.R.IntN(2) == 0 {
		m.Lock("k")
		m.Unlock("k")
	}
	c.Logf("%d readers of one key wait for each other while holding it", n)
	var in sync.WaitGroup
	in.Add(n)
	c.Go(n, func(g int, r *rand.Rand) {
		m.RLock("k")
		in.Done()
		in.Wait()
		m.RUnlock("k")
	})
	m.Lock("k")
	m.Unlock("k")
	c.Events("readers holding a key together", n)
	c.Distinct(n)
}

// unknown: unlocking what was never locked does nothing.
func unknown(c *kit.Case) {
	kind, w, all := lockers(c.R)
	for i := c.R.IntN(3) + 1; i > 0; i-- {
		all[c.R.IntN(len(all))].unlock(c.R.IntN(5))
	}
	// the locks still exclude
	n, keys := 2+c.R.IntN(3), 3
	cells := make([]cell, keys)
	want := make([][]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		s := make([]int, keys)
		for k := 0; k < keys; k++ {
			all[r.IntN(len(all))].unlock(100 + r.IntN(3))
			w.lock(k)
			writeSection(c, &cells[k], r, k)
			w.unlock(k)
			s[k]++
		}
		want[g] = s
	})
	c.Logf("%s", kind)
	check(c, cells, want, n, 1)
}

// relay: readers hand a key to each other so that, if a queued writer does not
// hold them up, it is never free. The writer gets it all the same. With such a
// relay a next reader only comes in before the writer is queued, so very many of
// them, for a long time, mean that writers are passed over.
func relay(c *kit.Case) {
	m := collections.NewMapRWMutex[int]()
	n := 2 + c.R.IntN(4)
	const many, long = 20000, 15 * time.Second
	var inside, waiting, got atomic.Bool
	var holders, overlaps atomic.Int64
	var since atomic.Int64
	c.Go(n+1, func(g int, r *rand.Rand) {
		if g == n {
			for i := r.IntN(50); i > 0; i-- {
				runtime.Gosched()
			}
			since.Store(kit.Now())
			waiting.Store(true)
			m.Lock(1)
			inside.Store(true)
			linger(r)
			if h := holders.Load(); h != 0 {
				c.Violate("a writer holds the lock together with %d readers", h)
			}
			inside.Store(false)
			got.Store(true)
			m.Unlock(1)
			return
		}
		for i := 0; !got.Load() || i < 20; i++ {
			m.RLock(1)
			if inside.Load() {
				c.Violate("a reader got the lock while a writer held it")
			}
			if holders.Add(1) > 1 && waiting.Load() && !got.Load() {
				if k := overlaps.Add(1); k > many && kit.Now()-since.Load() > int64(long) {
					c.Violate("%d times readers got a key others still held, and the writer that has been waiting for %v did not", k, time.Duration(kit.Now()-since.Load()))
				}
			}
			// stay until the next one is in
			for j := 0; j < 1000 && holders.Load() < 2; j++ {
				runtime.Gosched()
				if got.Load() || waiting.Load() && j > 20 && r.IntN(16) == 0 && overlaps.Load() == 0 {
					break
				}
			}
			holders.Add(-1)
			m.RUnlock(1)
			c.Tick()
		}
	})
	c.Events("writers that got in between readers in relay", 1)
	c.Max("readers that overlapped past a waiting writer", int(overlaps.Load()))
	c.Distinct(n, overlaps.Load())
}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C03",
		Rule: "random goroutines locking few fresh keys, counting holders and incrementing plain variables; distinct by shape of the workload (goroutines, sections per key); handshakes that only complete if keys are independent and readers share",
		Parts: []kit.Part{
			{Name: "mutex", N: 8000, Stress: true, Fn: mutexStress},
			{Name: "rwmutex", N: 8000, Stress: true, Fn: rwStress},
			{Name: "independent", N: 3000, Stress: true, Fn: independent},
			{Name: "shared", N: 1600, Stress: true, Fn: shared},
			{Name: "relay", N: 200, Stress: true, Fn: relay},
			{Name: "unknown", N: 1600, Stress: true, Fn: unknown},
			{Name: "held long", N: 1, Factor: 3, Stress: true, Fn: heldLong},
			{Name: "among many", N: 120, Stress: true, Fn: lockAmongMany},
			{Name: "many keys", N: 60, Stress: true, Fn: lockLarge},
			{Name: "crowd", N: 100, Stress: true, Fn: lockCrowd},
		},
	})
}
