package chansp

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/chans"
)

// bigSize is a chunk size, default 100.
func bigSize(c *kit.Case, def int) int {
	return []int{def, 1, 31, 64, 65, 127, 128, 255, 256, 500, 512, 1000, 1024, 4096, 10000}[c.R.IntN(15)]
}

// bigTimes is a timeout of any scale.
func bigTimeout(c *kit.Case) time.Duration {
	u := []time.Duration{10 * time.Microsecond, ms, 10 * ms, time.Second, time.Minute, time.Hour}[c.R.IntN(6)]
	return time.Duration(1+c.R.IntN(30)) * u
}

// bursts has producers send bursts of items around the chunk size.
func bursts(c *kit.Case, wg *sync.WaitGroup, sent [][]item, count, size int, tmo time.Duration, start time.Time, put func(r *rand.Rand, it item)) {
	for p := range sent {
		r := c.Rand(1000 + p)
		wg.Add(1)
		go c.Guard(func() {
			defer wg.Done()
			n := 0
			for n < 2500/len(sent)+3 {
				burst := []int{1, 2, size - 1, size, size + 1, 2*size + 1, r.IntN(300)}[r.IntN(7)]
				burst = min(burst, 10001/len(sent)+1)
				s := r.IntN(count)
				for range burst {
					it := item{p: p, n: n, shard: s, at: time.Since(start)}
					put(r, it)
					sent[p] = append(sent[p], it)
					if r.IntN(3) == 0 {
						s = r.IntN(count)
					}
					n++
				}
				if r.IntN(2) == 0 {
					time.Sleep([]time.Duration{1, tmo / 3, tmo - 1, tmo, tmo + 1, 3 * tmo, time.Duration(r.Int64N(int64(tmo)))}[r.IntN(7)])
				}
			}
		})
	}
}

func prompt(c *kit.Case, what string, outs []got, size int, tmo time.Duration, one bool) {
	for i, g := range outs {
		last := g.items[len(g.items)-1]
		if one && len(g.items) == size && g.at != last.at {
			c.Violate("%s: full chunk %d was complete at %v and came at %v", what, i, last.at, g.at)
		}
		for _, it := range g.items {
			if g.at-it.at > tmo {
				c.Violate("%s: item %v of %v came out at %v, in chunk %d of %d items", what, it, it.at, g.at, i, len(g.items))
			}
		}
	}
	c.Events("items judged by time", len(outs))
}

// spaced: a chunk that is not full comes when a timeout ends, or is the last.
func spaced(c *kit.Case, what string, outs []got, size int, tmo time.Duration) {
	before := -1
	for i, g := range outs[:max(len(outs)-1, 0)] {
		if len(g.items) == size {
			continue
		}
		if before >= 0 && g.at-outs[before].at < tmo {
			c.Violate("%s: chunks %d and %d of %d and %d items came at %v and %v, no timeout ended between them", what, before, i, len(outs[before].items), len(g.items), outs[before].at, g.at)
		}
		before = i
	}
}

// ckLarge: chunks of up to 10000 items, timeouts up to hours, the defaults.
func ckLarge(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer func() { cancel(); synctest.Wait() }()
		start := time.Now()
		size, tmo := bigSize(c, 100), bigTimeout(c)
		b := chans.NewChunkChan[item]().WithContext(ctx)
		if c.R.IntN(4) == 0 {
			size, tmo = 100, 50*ms // the defaults
		} else {
			b.WithChunkSize(size).WithChunkTimeout(tmo)
			if c.R.IntN(2) == 0 {
				b.WithIncomingBufferSize(c.R.IntN(5000)).WithOutgoingBufferSize(c.R.IntN(300))
			}
		}
		fn := c.R.IntN(2) == 0
		var mu sync.Mutex
		var outs []got
		recv := func(ch []item) {
			mu.Lock()
			defer mu.Unlock()
			outs = append(outs, take(0, ch, time.Since(start)))
		}
		if fn {
			b.WithChunkFunc(recv)
		}
		ck := b.Build()
		if !fn {
			go c.Guard(func() {
				for {
					select {
					case ch, ok := <-ck.C():
						if !ok {
							return
						}
						recv(ch)
					case <-ctx.Done():
						return
					}
				}
			})
		}
		producers := []int{1, 1, 3, 40, 200}[c.R.IntN(5)]
		what := fmt.Sprintf("size=%d timeout=%v func=%v producers=%d", size, tmo, fn, producers)
		sent := make([][]item, producers)
		var wg sync.WaitGroup
		bursts(c, &wg, sent, 1, size, tmo, start, func(r *rand.Rand, it item) {
			if r.IntN(2) == 0 {
				ck.Add(it)
			} else {
				ck.Incoming() <- it
			}
		})
		wg.Wait()
		if c.R.IntN(2) == 0 {
			close(ck.Incoming())
		}
		time.Sleep(tmo + ms)
		synctest.Wait()
		judge(c, what, size, outs, sent, -1, false)
		unmodified(c, what, outs)
		prompt(c, what, outs, size, tmo, producers == 1)
		spaced(c, what, outs, size, tmo)
		if a, b := ck.Sizes(); a != 0 || b != 0 {
			c.Violate("%s: Sizes %d, %d with everything taken", what, a, b)
		}
		c.Max("largest chunk size", size)
		c.Distinct(what, sizes(outs))
	})
}

// anyKey is a shard function result and the shard it leads to.
func anyKey(r *rand.Rand, shard, count int) (int, int) {
	if r.IntN(20) == 0 {
		k := []int{math.MinInt, math.MaxInt, math.MinInt + 1, -1, 0, math.MinInt32, math.MaxInt32, math.MaxUint32, -count, count - 1}[r.IntN(10)]
		return k, (k%count + count) % count
	}
	return shardValue(r, shard, count), shard
}

// shardLarge: hundreds of shards, thousands of items, the defaults.
func shardLarge(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	count := []int{4, 7, 16, 64, 100, 257, 1000}[c.R.IntN(7)]
	b := chans.NewShardChan[routed]().WithContext(ctx)
	if count != 4 { // the default
		b.WithShardCount(count)
	}
	if c.R.IntN(2) == 0 {
		b.WithIncomingBufferSize(c.R.IntN(3000)).WithOutgoingBufferSize(c.R.IntN(300))
	}
	worker := c.R.IntN(2) == 0
	producers, each := 1+c.R.IntN(40), 0
	each = (2000 + c.R.IntN(4000)) / producers
	what := fmt.Sprintf("shards=%d worker=%v producers=%d", count, worker, producers)
	ps := newPerShard(count)
	if worker {
		b.WithWorkerFunc(func(k int, x routed) {
			ps.enter(c, what, k)
			ps.add(k, []item{x.item}, 0)
			ps.leave(k)
		})
	}
	s, err := b.WithShardFunc(func(x routed) int { return x.key }).Build()
	if err != nil {
		c.Violate("Build returned %v", err)
	}
	outside(c, what, count, s.ShardCount(), s.C)
	if !worker {
		for k := range count {
			go c.Guard(func() {
				for {
					select {
					case x := <-s.C(k):
						ps.add(k, []item{x.item}, 0)
					case <-ctx.Done():
						return
					}
				}
			})
		}
	}
	sent := make([][]item, producers)
	c.Go(producers, func(g int, r *rand.Rand) {
		for n := range each {
			key, shard := anyKey(r, r.IntN(count), count)
			x := routed{item{p: g, n: n, shard: shard}, key}
			sent[g] = append(sent[g], x.item)
			if err := s.Add(x); err != nil {
				c.Violate("%s: Add returned %v", what, err)
			}
		}
	})
	for int(ps.n.Load()) < producers*each {
		runtime.Gosched()
	}
	ps.mu.Lock()
	defer ps.mu.Unlock()
	for k := range count {
		judge(c, fmt.Sprint(what, " shard ", k), 1, ps.outs[k], sent, k, false)
	}
	c.Max("shards at once", count)
	c.Distinct(what, each, c.Idx)
}

// scLarge: a ShardChunk of many shards and large chunks, the defaults.
func scLarge(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer func() { cancel(); synctest.Wait() }()
		start := time.Now()
		count, size, tmo := []int{1, 2, 8, 50, 200}[c.R.IntN(5)], bigSize(c, 500), bigTimeout(c)
		mine := make(chan item, c.R.IntN(2)*1000)
		b := chans.NewShardChunk[item]().WithContext(ctx).WithIncomingChan(mine)
		if c.R.IntN(4) == 0 {
			count, size, tmo = 4, 500, 50*ms // the defaults
		} else {
			b.WithShardCount(count).WithChunkSize(size).WithChunkTimeout(tmo)
			if c.R.IntN(2) == 0 {
				b.WithIncomingBufferSize(c.R.IntN(5000)).WithOutgoingBufferSize(c.R.IntN(300))
			}
		}
		worker := c.R.IntN(2) == 0
		producers := []int{1, 1, 3, 40, 200}[c.R.IntN(5)]
		what := fmt.Sprintf("shards=%d size=%d timeout=%v worker=%v producers=%d", count, size, tmo, worker, producers)
		ps := newPerShard(count)
		recv := func(k int, ch []item) { ps.add(k, ch, time.Since(start)) }
		if worker {
			b.WithShardWorker(func(k int, ch []item) {
				ps.enter(c, what, k)
				recv(k, ch)
				ps.leave(k)
			})
		}
		s, err := b.WithShardFunc(func(x item) int { return x.shard + count*(x.n%5-2) }).Build()
		if err != nil {
			c.Violate("Build returned %v", err)
		}
		outside(c, what, count, s.ShardCount(), s.C)
		if !worker {
			for k := range count {
				go c.Guard(func() {
					for {
						select {
						case ch, ok := <-s.C(k):
							if !ok {
								return
							}
							recv(k, ch)
						case <-ctx.Done():
							return
						}
					}
				})
			}
		}
		sent := make([][]item, producers)
		var wg sync.WaitGroup
		bursts(c, &wg, sent, count, size, tmo, start, func(r *rand.Rand, it item) { mine <- it })
		wg.Wait()
		if c.R.IntN(2) == 0 {
			close(mine)
		}
		time.Sleep(tmo + ms)
		synctest.Wait()
		for k := range count {
			what := fmt.Sprint(what, " shard ", k)
			judge(c, what, size, ps.outs[k], sent, k, false)
			unmodified(c, what, ps.outs[k])
			prompt(c, what, ps.outs[k], size, tmo, producers == 1)
			spaced(c, what, ps.outs[k], size, tmo)
		}
		if a, b, d := s.Sizes(); len(a) != count || b != 0 || d != 0 {
			c.Violate("%s: Sizes %v %d %d with everything taken", what, a, b, d)
		}
		c.Max("shards at once", count)
		c.Distinct(what, sizes(ps.outs[0]))
	})
}

// cancelMass cancels with full buffers and very many callers waiting.
func cancelMass(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		count, size := 1+c.R.IntN(100), 1+c.R.IntN(500)
		in, out := c.R.IntN(2000), c.R.IntN(200)
		callers := 100 + c.R.IntN(300)
		kind := c.R.IntN(3)
		worker := c.R.IntN(2) == 0
		what := fmt.Sprintf("kind=%d shards=%d size=%d in=%d out=%d worker=%v callers=%d", kind, count, size, in, out, worker, callers)
		var add func(x int) error
		hold := func() { <-ctx.Done() } // workers are stuck till the end
		switch kind {
		case 0:
			b := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(size).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
			if worker {
				b.WithChunkFunc(func([]int) { hold() })
			}
			ck := b.Build()
			add = func(x int) error { ck.Add(x); return ctx.Err() }
		case 1:
			b := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(count).WithIncomingBufferSize(in).WithOutgoingBufferSize(out).
				WithShardFunc(func(x int) int { return x })
			if worker {
				b.WithWorkerFunc(func(int, int) { hold() })
			}
			s, err := b.Build()
			if err != nil {
				c.Violate("Build returned %v", err)
			}
			add = s.Add
		case 2:
			ch := make(chan int, in)
			b := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(count).WithChunkSize(size).WithIncomingChan(ch).
				WithIncomingBufferSize(in).WithOutgoingBufferSize(out).WithShardFunc(func(x int) int { return x })
			if worker {
				b.WithShardWorker(func(int, []int) { hold() })
			}
			if _, err := b.Build(); err != nil {
				c.Violate("Build returned %v", err)
			}
			add = func(x int) error {
				select {
				case ch <- x:
					return nil
				case <-ctx.Done():
					return ctx.Err()
				}
			}
		}
		var back, accepted atomic.Int32
		for g := range callers {
			go c.Guard(func() {
				for range 40 {
					if add(g) != nil {
						break
					}
					accepted.Add(1)
				}
				back.Add(1)
			})
		}
		time.Sleep(time.Duration(c.R.IntN(100)) * ms)
		synctest.Wait()
		waiting := callers - int(back.Load())
		cancel()
		synctest.Wait()
		if int(back.Load()) != callers {
			c.Violate("%s: %d of %d callers of Add hang after the cancellation", what, callers-int(back.Load()), callers)
		}
		c.Events("callers of Add judged", callers)
		c.Max("callers waiting when cancelled", waiting)
		c.Distinct(what, accepted.Load())
		// the bubble only ends when no goroutine is left
	})
}

// runLarge: many workers, thousands of functions.
func runLarge(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
	defer cancel()
	p := newPoolOf(c, ctx, []int{1, 2, 8, 33, 100, 500}[c.R.IntN(6)])
	n, each := 1+c.R.IntN(60), 0
	each = (2000 + c.R.IntN(3000)) / n
	tasks := make([][]task, n)
	var left atomic.Int32
	left.Store(int32(n * each))
	c.Go(n, func(g int, r *rand.Rand) {
		tasks[g] = make([]task, each)
		for j := range each {
			p.submit(r, &tasks[g][j], func() {
				if j%8 == 0 {
					runtime.Gosched()
				}
				left.Add(-1)
			})
		}
	})
	for left.Load() > 0 {
		runtime.Gosched()
	}
	var in atomic.Int32
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for i := range p.w {
		wg.Add(1)
		r := c.Rand(5000 + i)
		go p.submit(r, &task{}, func() { in.Add(1); <-gate; wg.Done() })
	}
	for in.Load() < int32(p.w) {
		runtime.Gosched()
	}
	close(gate)
	wg.Wait()
	for g := range tasks {
		for j := range tasks[g] {
			if k := atomic.LoadInt32(&tasks[g][j].runs); k != 1 {
				c.Violate("%s: a function ran %d times", p.what, k)
			}
		}
	}
	c.Events("functions judged", n*each+p.w)
	c.Max("most functions at once", int(p.peak.Load()))
	c.Distinct(p.what, n, each)
}

// runMass: virtual time, functions of every length, hundreds of workers.
func runMass(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
		defer func() { cancel(); synctest.Wait() }()
		p := newPoolOf(c, ctx, []int{1, 3, 20, 64, 65, 300}[c.R.IntN(6)])
		var accepted, finished atomic.Int32
		check := func() {
			synctest.Wait()
			open := int(accepted.Load() - finished.Load())
			if got := int(p.running.Load()); got != min(p.w, open) {
				c.Violate("%s: %d functions run with %d tasks unfinished", p.what, got, open)
			}
			c.Events("states judged", 1)
		}
		total := 0
		for j := range 12 {
			n := []int{1, p.w, p.w + 1, 100, 101, 500}[c.R.IntN(6)]
			total += n
			u := []time.Duration{time.Microsecond, ms, time.Second, time.Hour}[c.R.IntN(4)]
			for i := range n {
				r := c.Rand(j*10000 + i)
				accepted.Add(1)
				go c.Guard(func() {
					p.submit(r, &task{}, func() {
						time.Sleep(time.Duration(r.IntN(10)) * u)
						finished.Add(1)
					})
				})
			}
			check()
			for range c.R.IntN(8) {
				time.Sleep(u)
				check()
			}
		}
		for range 60 {
			time.Sleep(time.Hour * time.Duration(total/p.w) / 5)
			check()
		}
		if int(finished.Load()) != total {
			c.Violate("%s: %d of %d functions finished", p.what, finished.Load(), total)
		}
		c.Max("functions waiting", total)
		c.Max("most functions at once", int(p.peak.Load()))
		c.Distinct("mass", p.what, total)
	})
}

// runCancelMass cancels with hundreds of workers busy and callers waiting.
func runCancelMass(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
		defer cancel()
		p := newPoolOf(c, ctx, []int{1, 20, 64, 65, 300}[c.R.IntN(5)])
		callers := 200 + c.R.IntN(600)
		var started, finished, returned atomic.Int32
		for g := range callers {
			r := c.Rand(g)
			go c.Guard(func() {
				p.submit(r, &task{}, func() { started.Add(1); time.Sleep(time.Hour); finished.Add(1) })
				returned.Add(1)
			})
		}
		time.Sleep(ms)
		synctest.Wait()
		before := int(started.Load())
		if before != min(p.w, callers) {
			c.Violate("%s: %d functions run with %d tasks unfinished", p.what, before, callers)
		}
		cancel()
		synctest.Wait()
		if int(returned.Load()) != callers {
			c.Violate("%s: %d of %d callers of Run hang after the cancellation", p.what, callers-int(returned.Load()), callers)
		}
		time.Sleep(1000 * time.Hour)
		synctest.Wait()
		if started.Load() != finished.Load() {
			c.Violate("%s: %d functions started, %d finished", p.what, started.Load(), finished.Load())
		}
		c.Events("callers of Run judged", callers)
		c.Max("callers of Run at once", callers)
		c.Distinct("mass", p.what, callers, started.Load())
	})
}
