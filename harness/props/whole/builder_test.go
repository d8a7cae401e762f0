package whole

import (
	"bytes"
	"context"
	"crypto/md5"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/crypto_fs"
	"github.com/axgrid/axutils/flow"
	"github.com/axgrid/axutils/workers"
)

const ms = time.Millisecond

// A bench sets a builder up: next gives it random options, builds instance i
// and returns what uses and judges that instance; touch gives the builder
// options that nothing is built with.
type bench struct {
	next  func(i int) func(r *rand.Rand)
	touch func()
}

// side builds several things with one builder, options changing in between,
// and uses them side by side.
func side(mk func(c *kit.Case) *bench) func(c *kit.Case) {
	return func(c *kit.Case) {
		c.Bubble(func() {
			b := mk(c)
			n := 2 + c.R.IntN(3)
			var wg sync.WaitGroup
			run := func(i int, f func(*rand.Rand)) {
				wg.Add(1)
				go c.Guard(func() { defer wg.Done(); f(c.Rand(i)) })
			}
			var late []func()
			order := ""
			for i := range n {
				f := b.next(i)
				switch c.R.IntN(3) {
				case 0:
					late = append(late, func() { run(i, f) })
					order += "l"
				case 1:
					run(i, f)
					synctest.Wait()
					order += "w"
				default:
					run(i, f)
					order += "g"
				}
				if c.R.IntN(3) == 0 {
					b.touch()
					order += "t"
				}
			}
			b.touch()
			for _, f := range late {
				f()
			}
			wg.Wait()
			synctest.Wait()
			c.Events("values built and used side by side", n)
			c.Distinct(c.Part, order, n)
		})
	}
}

type item struct{ i, n int }

func off(r *rand.Rand) time.Duration {
	return time.Duration(1+r.IntN(20))*ms + time.Duration(1+r.IntN(9))*100*time.Microsecond
}

// flow judges what comes out of one value.
type judge struct {
	c    *kit.Case
	what string
	i    int
	mu   sync.Mutex
	at   []time.Time // when item n was put in
	last map[int]int // by shard
	n    int
	done chan struct{}
	want int
}

func newJudge(c *kit.Case, what string, i, want int) *judge {
	return &judge{c: c, what: what, i: i, at: make([]time.Time, want), last: map[int]int{}, done: make(chan struct{}), want: want}
}

func (j *judge) took(shard int, items []item, size int, limit time.Duration) {
	j.mu.Lock()
	defer j.mu.Unlock()
	if len(items) == 0 || len(items) > size {
		j.c.Violate("%s: value %d, of size %d, emits a chunk of %d", j.what, j.i, size, len(items))
	}
	for _, x := range items {
		if x.i != j.i {
			j.c.Violate("%s: value %d emits item %d of value %d", j.what, j.i, x.n, x.i)
		}
		if l, ok := j.last[shard]; ok && x.n <= l {
			j.c.Violate("%s: value %d emits item %d after %d", j.what, j.i, x.n, l)
		}
		if late := time.Since(j.at[x.n]); late > limit {
			j.c.Violate("%s: value %d emits item %d after %v, its limit is %v", j.what, j.i, x.n, late, limit)
		}
		j.last[shard] = x.n
		if j.n++; j.n == j.want {
			close(j.done)
		}
	}
}

func (j *judge) put(n int) item {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.at[n] = time.Now()
	return item{j.i, n}
}

func (j *judge) wait() {
	select {
	case <-j.done:
	case <-time.After(time.Hour):
		j.c.Violate("%s: value %d: %d of %d items came out", j.what, j.i, j.n, j.want)
	}
}

func chunkBench(c *kit.Case) *bench {
	b := chans.NewChunkChan[item]()
	return &bench{func(i int) func(*rand.Rand) {
		if c.R.IntN(5) == 0 {
			b = chans.NewChunkChan[item]()
		}
		ctx, cancel := context.WithCancel(context.Background())
		j := newJudge(c, "ChunkChan", i, 1+c.R.IntN(40))
		size, limit := 1+c.R.IntN(8), off(c.R)
		b.WithContext(ctx).WithChunkSize(size).WithChunkTimeout(limit).WithIncomingBufferSize(c.R.IntN(4)).WithOutgoingBufferSize(c.R.IntN(4))
		useFn := c.R.IntN(2) == 0
		b.WithChunkFunc(nil)
		if useFn {
			b.WithChunkFunc(func(x []item) { j.took(0, x, size, limit) })
		}
		b.WithIncomingChan(nil)
		if c.R.IntN(4) == 0 {
			b.WithIncomingChan(make(chan item, c.R.IntN(3)))
		}
		ck := b.Build()
		return func(r *rand.Rand) {
			defer cancel()
			if !useFn {
				go c.Guard(func() {
					for {
						select {
						case x := <-ck.C():
							j.took(0, x, size, limit)
						case <-ctx.Done():
							return
						}
					}
				})
			}
			for n := range j.want {
				time.Sleep(time.Duration(r.IntN(3)) * ms)
				if x := j.put(n); r.IntN(2) == 0 {
					ck.Add(x)
				} else {
					ck.Incoming() <- x
				}
			}
			j.wait()
		}
	}, func() {
		b.WithChunkSize(1 + c.R.IntN(8)).WithChunkTimeout(off(c.R)).WithContext(context.Background()).WithChunkFunc(func(x []item) { c.Violate("ChunkChan: a function nothing was built with gets %v", x) }).WithIncomingBufferSize(5).WithOutgoingBufferSize(5)
	}}
}

func shardBench(c *kit.Case) *bench {
	b := chans.NewShardChan[item]()
	return &bench{func(i int) func(*rand.Rand) {
		if c.R.IntN(5) == 0 {
			b = chans.NewShardChan[item]()
		}
		ctx, cancel := context.WithCancel(context.Background())
		j := newJudge(c, "ShardChan", i, 1+c.R.IntN(40))
		count, mult := 1+c.R.IntN(6), 1+c.R.IntN(5)
		b.WithContext(ctx).WithShardCount(count).WithIncomingBufferSize(c.R.IntN(4)).WithOutgoingBufferSize(c.R.IntN(4)).WithShardFunc(func(x item) int {
			if x.i != i {
				c.Violate("ShardChan: shard function %d is asked about an item of %d", i, x.i)
			}
			return x.n * mult
		})
		got := func(k int, x item) {
			if k != x.n*mult%count {
				c.Violate("ShardChan: value %d of %d shards puts item %d times %d into shard %d", i, count, x.n, mult, k)
			}
			j.took(k, []item{x}, 1, 0)
		}
		b.WithWorkerFunc(nil)
		useFn := c.R.IntN(2) == 0
		if useFn {
			b.WithWorkerFunc(got)
		}
		b.WithIncomingChan(nil)
		if c.R.IntN(4) == 0 {
			b.WithIncomingChan(make(chan item, c.R.IntN(3)))
		}
		s, err := b.Build()
		if err != nil {
			c.Violate("ShardChan: Build returned %v", err)
		}
		return func(r *rand.Rand) {
			defer cancel()
			if s.ShardCount() != count || s.C(count) != nil || len(s.Sizes()) != count {
				c.Violate("ShardChan: value %d has %d shards, not %d", i, s.ShardCount(), count)
			}
			for k := range count {
				if useFn {
					break
				}
				go c.Guard(func() {
					for {
						select {
						case x := <-s.C(k):
							got(k, x)
						case <-ctx.Done():
							return
						}
					}
				})
			}
			for n := range j.want {
				time.Sleep(time.Duration(r.IntN(3)) * ms)
				if err := s.Add(j.put(n)); err != nil {
					c.Violate("ShardChan: Add to value %d returned %v", i, err)
				}
			}
			j.wait()
		}
	}, func() {
		b.WithContext(context.Background()).WithShardCount(1 + c.R.IntN(9)).WithIncomingBufferSize(5).WithOutgoingBufferSize(5)
		b.WithShardFunc(func(x item) int { c.Violate("ShardChan: a function nothing was built with gets %v", x); return 0 })
		b.WithWorkerFunc(func(_ int, x item) { c.Violate("ShardChan: a worker nothing was built with gets %v", x) })
	}}
}

func shardChunkBench(c *kit.Case) *bench {
	b := chans.NewShardChunk[item]()
	return &bench{func(i int) func(*rand.Rand) {
		if c.R.IntN(5) == 0 {
			b = chans.NewShardChunk[item]()
		}
		ctx, cancel := context.WithCancel(context.Background())
		j := newJudge(c, "ShardChunk", i, 1+c.R.IntN(40))
		count, mult, size, limit := 1+c.R.IntN(5), 1+c.R.IntN(5), 1+c.R.IntN(6), off(c.R)
		in := make(chan item, c.R.IntN(3))
		got := func(k int, x []item) {
			for _, x := range x {
				if k != x.n*mult%count {
					c.Violate("ShardChunk: value %d of %d shards puts item %d times %d into shard %d", i, count, x.n, mult, k)
				}
			}
			j.took(k, x, size, limit)
		}
		useFn := c.R.IntN(2) == 0
		b.WithContext(ctx).WithShardCount(count).WithChunkSize(size).WithChunkTimeout(limit).WithIncomingBufferSize(c.R.IntN(20)).WithOutgoingBufferSize(c.R.IntN(4)).WithIncomingChan(in).WithShardFunc(func(x item) int {
			if x.i != i {
				c.Violate("ShardChunk: shard function %d is asked about an item of %d", i, x.i)
			}
			return x.n * mult
		}).WithShardWorker(nil)
		if useFn {
			b.WithShardWorker(got)
		}
		s, err := b.Build()
		if err != nil {
			c.Violate("ShardChunk: Build returned %v", err)
		}
		return func(r *rand.Rand) {
			defer cancel()
			if s.ShardCount() != count || s.C(count) != nil {
				c.Violate("ShardChunk: value %d has %d shards, not %d", i, s.ShardCount(), count)
			}
			for k := range count {
				if useFn {
					break
				}
				go c.Guard(func() {
					for {
						select {
						case x := <-s.C(k):
							got(k, x)
						case <-ctx.Done():
							return
						}
					}
				})
			}
			for n := range j.want {
				time.Sleep(time.Duration(r.IntN(3)) * ms)
				in <- j.put(n)
			}
			j.wait()
		}
	}, func() {
		b.WithContext(context.Background()).WithShardCount(1 + c.R.IntN(9)).WithChunkSize(1 + c.R.IntN(5)).WithChunkTimeout(off(c.R)).WithIncomingBufferSize(5).WithOutgoingBufferSize(5)
		b.WithShardFunc(func(x item) int { c.Violate("ShardChunk: a function nothing was built with gets %v", x); return 0 })
		b.WithShardWorker(func(_ int, x []item) { c.Violate("ShardChunk: a worker nothing was built with gets %v", x) })
	}}
}

func guavaBench(c *kit.Case) *bench {
	b := collections.NewGuavaMap[int, int]()
	return &bench{func(i int) func(*rand.Rand) {
		if c.R.IntN(5) == 0 {
			b = collections.NewGuavaMap[int, int]()
		}
		ctx, cancel := context.WithCancel(context.Background())
		limit := 1 + c.R.IntN(6)
		if c.R.IntN(3) == 0 {
			limit = 0
		}
		var write, read time.Duration
		if c.R.IntN(2) == 0 {
			write = off(c.R)
		}
		if c.R.IntN(2) == 0 {
			read = off(c.R)
		}
		var loads, unloads, inside, most atomic.Int32
		lock := c.R.IntN(2) == 0
		b.WithContext(ctx).WithMaxCount(limit).WithWriteTimeout(write).WithReadTimeout(read).WithLockLoad(lock)
		b.WithLoadFunc(func(k int) (int, error) {
			loads.Add(1)
			kit.Raise(&most, inside.Add(1))
			if lock { // a bubble's time stands still while a mutex is waited for
				runtime.Gosched()
			} else {
				time.Sleep(ms / 100)
			}
			inside.Add(-1)
			return 1000*(i+1) + k, nil
		})
		b.WithUnloadFunc(func(k, v int) {
			if v != 1000*(i+1)+k {
				c.Violate("GuavaMap: unload function %d gets %d of key %d", i, v, k)
			}
			unloads.Add(1)
		})
		m := b.Build()
		return func(r *rand.Rand) {
			defer cancel()
			keys := 1 + r.IntN(10)
			if m.Size() != 0 {
				c.Violate("GuavaMap: value %d is built with %d entries", i, m.Size())
			}
			for k := range keys {
				switch r.IntN(3) {
				case 0:
					m.Set(k, 1000*(i+1)+k)
				case 1:
					m.LockForUpdate(k, func() int { return 1000*(i+1) + k })
				default:
					if v, err := m.Get(k); v != 1000*(i+1)+k || err != nil {
						c.Violate("GuavaMap: Get(%d) of value %d is %d, %v", k, i, v, err)
					}
				}
				want := k + 1
				if limit > 0 {
					want = min(want, limit)
				}
				if read == 0 && write == 0 && m.Size() != want {
					c.Violate("GuavaMap: value %d of at most %d has %d of %d entries", i, limit, m.Size(), k+1)
				}
			}
			var wg sync.WaitGroup
			for range 3 {
				wg.Add(1)
				go c.Guard(func() {
					defer wg.Done()
					if v, err := m.Get(50); v != 1000*(i+1)+50 || err != nil {
						c.Violate("GuavaMap: Get(50) of value %d is %d, %v", i, v, err)
					}
				})
			}
			wg.Wait()
			if lock && most.Load() > 1 {
				c.Violate("GuavaMap: value %d loads under the lock, and loads %d at once", i, most.Load())
			}
			time.Sleep(45 * ms) // longer than any timeout
			want := 0
			if read == 0 && write == 0 {
				want = keys + 1
				if limit > 0 {
					want = min(want, limit)
				}
			}
			if m.Size() != want {
				c.Violate("GuavaMap: value %d (at most %d, timeouts %v %v) has %d entries, want %d", i, limit, write, read, m.Size(), want)
			}
			for k, v := range m.GetStored() {
				if v != 1000*(i+1)+k {
					c.Violate("GuavaMap: value %d stores %d for %d", i, v, k)
				}
			}
			m.Clear()
			time.Sleep(ms)
			if int(unloads.Load()) < keys+1 {
				c.Violate("GuavaMap: value %d unloaded %d of %d entries", i, unloads.Load(), keys+1)
			}
		}
	}, func() {
		b.WithContext(context.Background()).WithMaxCount(1 + c.R.IntN(3)).WithWriteTimeout(off(c.R)).WithReadTimeout(off(c.R)).WithLockLoad(c.R.IntN(2) == 0)
		b.WithLoadFunc(func(k int) (int, error) {
			c.Violate("GuavaMap: a function nothing was built with loads %d", k)
			return 0, nil
		})
		b.WithUnloadFunc(func(k, v int) { c.Violate("GuavaMap: a function nothing was built with unloads %d", k) })
	}}
}

func plainBench(c *kit.Case) *bench {
	if c.R.IntN(2) == 0 {
		b := collections.NewHashSet[int]()
		return &bench{func(i int) func(*rand.Rand) {
			limit := c.R.IntN(6)
			s := b.WithMaxCount(limit).Build()
			return func(r *rand.Rand) {
				for k := range 12 {
					if s.Has(k) {
						c.Violate("HashSet: value %d has %d before it is added", i, k)
					}
					s.Add(k)
					want := k + 1
					if limit > 0 {
						want = min(want, limit)
					}
					if s.Count() != want || !s.Has(k) {
						c.Violate("HashSet: value %d of at most %d has %d keys after %d", i, limit, s.Count(), k+1)
					}
				}
				if r.IntN(2) == 0 {
					s.Clear()
				}
			}
		}, func() { b.WithMaxCount(1 + c.R.IntN(9)) }}
	}
	b := collections.NewShardMap[int, int]()
	return &bench{func(i int) func(*rand.Rand) {
		count := 1 + c.R.IntN(9)
		var calls atomic.Int32
		m := b.WithShardsCount(count).WithShardsFunc(func(k int) int { calls.Add(1); return k % count }).Build()
		return func(r *rand.Rand) {
			for k := range 20 {
				if m.Size() != k || m.Has(k) {
					c.Violate("ShardMap: value %d has %d entries, not %d", i, m.Size(), k)
				}
				m.Set(k, 100*i+k)
			}
			for k := range 20 {
				if v, ok := m.Get(k); v != 100*i+k || !ok {
					c.Violate("ShardMap: value %d: Get(%d) is %d, %v", i, k, v, ok)
				}
			}
			if calls.Load() < 20 {
				c.Violate("ShardMap: value %d of %d shards asked its shard function %d times", i, count, calls.Load())
			}
			m.Clear()
		}
	}, func() {
		b.WithShardsCount(1 + c.R.IntN(9)).WithShardsFunc(func(k int) int { c.Violate("ShardMap: a function nothing was built with is called"); return 0 })
	}}
}

func waitBench(c *kit.Case) *bench {
	switch c.R.IntN(3) {
	case 0:
		b := collections.NewWaitMap[int, int]()
		return &bench{func(i int) func(*rand.Rand) {
			ctx, cancel := context.WithCancel(context.Background())
			timeout, ttl := off(c.R), off(c.R)
			m := b.WithContext(ctx).WithRequestTimeout(timeout).WithResponseTtl(ttl).Build()
			return func(r *rand.Rand) {
				defer cancel()
				at := time.Now()
				if v := m.Wait(1); v != 0 || time.Since(at) != timeout {
					c.Violate("WaitMap: value %d: Wait returned %d after %v, its timeout is %v", i, v, time.Since(at), timeout)
				}
				at = time.Now()
				m.Set(2, i+1)
				if v := m.Wait(2); v != i+1 || m.Count() != 2 {
					c.Violate("WaitMap: value %d: Wait returned %d, Count %d", i, v, m.Count())
				}
				time.Sleep(ttl - ms/100)
				if m.Count() != 2 {
					c.Violate("WaitMap: value %d: Count %d just before the TTL %v", i, m.Count(), ttl)
				}
				time.Sleep(ms / 50)
				if m.Count() != 0 {
					c.Violate("WaitMap: value %d: Count %d after the TTL %v", i, m.Count(), ttl)
				}
			}
		}, func() { b.WithContext(canceled()).WithRequestTimeout(off(c.R)).WithResponseTtl(off(c.R)) }}
	case 1:
		ctx, cancel := context.WithCancel(context.Background())
		left := atomic.Int32{}
		b := collections.NewResponseMap[int, int](ctx)
		return &bench{func(i int) func(*rand.Rand) {
			timeout, clear := off(c.R), off(c.R)+25*ms
			left.Add(1)
			m := b.WithResponseTimeout(timeout).WithClearTimeout(clear).Build()
			return func(r *rand.Rand) {
				at := time.Now()
				if v := m.Wait(1); v != 0 || time.Since(at) > timeout {
					c.Violate("ResponseMap: value %d: Wait returned %d after %v, its timeout is %v", i, v, time.Since(at), timeout)
				}
				m.Set(2, i+1)
				if v := m.Wait(2); v != i+1 {
					c.Violate("ResponseMap: value %d: Wait returned %d", i, v)
				}
				time.Sleep(clear / 2)
				if v := m.Wait(2); v != i+1 {
					c.Violate("ResponseMap: value %d: Wait returned %d after half of the clear timeout %v", i, v, clear)
				}
				time.Sleep(2 * clear)
				if v := m.Wait(2); v != 0 {
					c.Violate("ResponseMap: value %d: Wait returned %d after more than twice the clear timeout %v", i, v, clear)
				}
				// a builder of this kind has one context for all
				time.Sleep(time.Second)
				if left.Add(-1) == 0 {
					cancel()
				}
			}
		}, func() { b.WithResponseTimeout(off(c.R)).WithClearTimeout(off(c.R)) }}
	}
	b := collections.NewHolderMap[int, int]()
	return &bench{func(i int) func(*rand.Rand) {
		ctx, cancel := context.WithCancel(context.Background())
		timeout, ttl := off(c.R), off(c.R)
		m := b.WithContext(ctx).WithTimeout(timeout).WithTTL(ttl).Build()
		return func(r *rand.Rand) {
			defer cancel()
			at := time.Now()
			if err := m.Wait(1, i); err == nil || time.Since(at) != timeout || m.Count() != 1 {
				c.Violate("HolderMap: value %d: Wait returned %v after %v, its timeout is %v, Count %d", i, err, time.Since(at), timeout, m.Count())
			}
			if v, _ := m.Get(1); v != i {
				c.Violate("HolderMap: value %d holds %d", i, v)
			}
			time.Sleep(ttl - ms/100)
			if m.Count() != 1 {
				c.Violate("HolderMap: value %d: Count %d just before the TTL %v", i, m.Count(), ttl)
			}
			time.Sleep(ms / 50)
			if m.Count() != 0 {
				c.Violate("HolderMap: value %d: Count %d after the TTL %v", i, m.Count(), ttl)
			}
		}
	}, func() { b.WithContext(canceled()).WithTimeout(off(c.R)).WithTTL(off(c.R)) }}
}

func canceled() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}

func uniqBench(c *kit.Case) *bench {
	b := collections.NewStructUniqSet[int]()
	return &bench{func(i int) func(*rand.Rand) {
		ctx, cancel := context.WithCancel(context.Background())
		ttl, check := off(c.R), off(c.R)
		mod := 1 + c.R.IntN(5)
		s := b.WithContext(ctx).WithElementTtl(ttl).WithCheckInterval(check).WithBuildFunc(func(v int, _ ...any) ([16]byte, error) {
			return md5.Sum([]byte{byte(v % mod)}), nil
		}).Build()
		return func(r *rand.Rand) {
			defer cancel()
			for v := range 10 {
				if ok, err := s.Add(v); ok != (v < mod) || err != nil {
					c.Violate("StructUniqSet: value %d, equal modulo %d: Add(%d) is %v, %v", i, mod, v, ok, err)
				}
			}
			time.Sleep(ttl - ms/100)
			if s.Count() != mod {
				c.Violate("StructUniqSet: value %d: Count %d just before the TTL %v, want %d", i, s.Count(), ttl, mod)
			}
			time.Sleep(check + ms/50)
			if s.Count() != 0 {
				c.Violate("StructUniqSet: value %d: Count %d after the TTL %v and the interval %v", i, s.Count(), ttl, check)
			}
		}
	}, func() {
		b.WithContext(canceled()).WithElementTtl(off(c.R)).WithCheckInterval(off(c.R)).WithBuildFunc(func(v int, _ ...any) ([16]byte, error) {
			c.Violate("StructUniqSet: a function nothing was built with is called")
			return [16]byte{}, nil
		})
	}}
}

type ctxKey struct{}

func runnerBench(c *kit.Case) *bench {
	b := workers.NewRunner()
	return &bench{func(i int) func(*rand.Rand) {
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, i))
		count := 1 + c.R.IntN(6)
		w := b.WithContext(ctx).WithWorkerCount(count).Build()
		return func(r *rand.Rand) {
			defer cancel()
			var ran, inside, most atomic.Int32
			n := 5 + r.IntN(20)
			start := time.Now()
			do := func() {
				kit.Raise(&most, inside.Add(1))
				time.Sleep(ms)
				inside.Add(-1)
				ran.Add(1)
			}
			for range n {
				if r.IntN(2) == 0 {
					w.Run(do)
				} else {
					w.RunWithContext(func(x context.Context) {
						if x.Value(ctxKey{}) != i {
							c.Violate("Runner: value %d runs a function with the context of %v", i, x.Value(ctxKey{}))
						}
						do()
					})
				}
			}
			time.Sleep(time.Duration(n+1) * ms)
			want := min(n, count)
			if int(ran.Load()) != n || int(most.Load()) != want {
				c.Violate("Runner: value %d of %d workers ran %d of %d functions, %d at once, want %d, in %v", i, count, ran.Load(), n, most.Load(), want, time.Since(start))
			}
		}
	}, func() { b.WithContext(canceled()).WithWorkerCount(1 + c.R.IntN(9)) }}
}

type event struct{ log []int }

func processorBench(c *kit.Case) *bench {
	b := flow.NewProcessor[*event, int]()
	steps := 0
	add := func(i int) {
		for range c.R.IntN(3) {
			s := steps
			steps++
			do := func(e *event, state int) error {
				e.log = append(e.log, s)
				if state < s {
					return errors.New("enough")
				}
				return nil
			}
			if c.R.IntN(2) == 0 {
				b.Route(func(r *flow.ProcessorRouterBuilder[*event, int]) { r.Do(do) })
			} else {
				b.RouteOn(func(*event) bool { return true }, do)
			}
		}
	}
	return &bench{func(i int) func(*rand.Rand) {
		if c.R.IntN(5) == 0 {
			b, steps = flow.NewProcessor[*event, int](), 0
		}
		add(i)
		n, f := steps, b.Build()
		return func(r *rand.Rand) {
			for range 5 {
				e, state := &event{}, r.IntN(n+1)
				err := f(e, state)
				time.Sleep(ms)
				want := min(n, state+2)
				if len(e.log) != want || (err != nil) != (want > 0 && e.log[want-1] > state) {
					c.Violate("Processor: value %d with %d steps ran %v with state %d, and returned %v", i, n, e.log, state, err)
				}
				for k, s := range e.log {
					if s != k {
						c.Violate("Processor: value %d with %d steps ran %v", i, n, e.log)
					}
				}
			}
		}
	}, func() { add(-1) }}
}

func fsBench(c *kit.Case) *bench {
	dir, err := os.MkdirTemp("", "whole")
	if err != nil {
		c.Fatal("%v", err)
	}
	c.T.Cleanup(func() { os.RemoveAll(dir) })
	b := crypto_fs.NewCryptoFSBuilder()
	files := map[string]string{}
	num := 0
	var last []byte
	add := func() {
		for range c.R.IntN(3) {
			p, text := filepath.Join(dir, fmt.Sprint("f", c.R.IntN(6))), fmt.Sprint("content ", num)
			if c.R.IntN(10) == 0 {
				text = strings.Repeat(text+" ", 1+c.R.IntN(10000))
			}
			num++
			if err := os.WriteFile(p, []byte(text), 0600); err != nil {
				c.Fatal("%v", err)
			}
			b.AddFile(p)
			files[p] = text
		}
	}
	return &bench{func(i int) func(*rand.Rand) {
		add()
		to := filepath.Join(dir, fmt.Sprint("archive", i))
		if c.R.IntN(5) == 0 {
			b, files, last = crypto_fs.NewCryptoFSBuilder(), map[string]string{}, nil
			add()
		}
		key := last
		if c.R.IntN(2) == 0 {
			key = nil
			if c.R.IntN(3) > 0 {
				key = make([]byte, 16)
				key[c.R.IntN(16)] = byte(i + 1)
			}
			b.WithAES(key)
			last = key
		}
		if err := b.WithSavePath(to).Save(); err != nil {
			c.Violate("CryptoFS: Save returned %v", err)
		}
		want := maps.Clone(files)
		return func(r *rand.Rand) {
			if key != nil {
				raw, err := os.ReadFile(to)
				if err != nil || bytes.Contains(raw, []byte("content ")) {
					c.Violate("CryptoFS: archive %d, saved with a key, can be read without one, %v", i, err)
				}
			}
			f, err := crypto_fs.CryptoFSFromFile(to, key)
			if err != nil {
				c.Violate("CryptoFS: archive %d cannot be loaded: %v", i, err)
			}
			for k := range 6 {
				p := filepath.Join(dir, fmt.Sprint("f", k))
				x, err := f.Open(p)
				text, has := want[p]
				if !has {
					if !errors.Is(err, fs.ErrNotExist) {
						c.Violate("CryptoFS: archive %d has %s, which was not added: %v", i, p, err)
					}
					continue
				}
				if err != nil {
					c.Violate("CryptoFS: archive %d: Open(%s): %v", i, p, err)
				}
				got, err := io.ReadAll(x)
				if string(got) != text || err != nil {
					c.Violate("CryptoFS: archive %d: %s is %q, %v, want %q", i, p, got, err, text)
				}
			}
		}
	}, func() { add(); b.WithSavePath("/nowhere/at/all").WithAES([]byte("short")).WithAES(last) }}
}

func init() {
	part := func(name string, n int, mk func(*kit.Case) *bench) kit.Part {
		return kit.Part{Name: name, N: n, Fn: side(mk)}
	}
	kit.Register(&kit.Prop{ID: "C44",
		Rule: "builders used several times, by kind, options and the order of builds and uses",
		Parts: []kit.Part{
			part("chunks", 600, chunkBench),
			part("shards", 600, shardBench),
			part("shard chunks", 400, shardChunkBench),
			part("guava", 600, guavaBench),
			part("plain", 400, plainBench),
			part("waits", 600, waitBench),
			part("uniq", 200, uniqBench),
			part("runner", 400, runnerBench),
			part("processor", 400, processorBench),
			part("archives", 200, fsBench),
			{Name: "apart", N: 3000, Fn: apart},
		}})
}
