package chansp

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/chans"
)

// shardValue is a shard function result that must lead to the shard.
func shardValue(r *rand.Rand, shard, count int) int {
	switch r.IntN(6) {
	case 0:
		return shard
	case 1:
		return shard - count
	case 2:
		return shard + count*r.IntN(1000)
	case 3:
		return shard - count*(1+r.IntN(1000))
	case 4:
		return (math.MaxInt/count-1)*count + shard
	}
	return (math.MinInt/count+1)*count + shard
}

type routed struct {
	item
	key int
}

// pump is what ShardChan and ShardChunk workloads share: producers of routed
// items with a record of what was accepted.
type pump struct {
	count, producers, each int
	sent                   [][]item
}

func (p *pump) send(c *kit.Case, wg *sync.WaitGroup, gap func(r *rand.Rand), put func(r *rand.Rand, x routed), clock func() time.Duration) {
	p.sent = make([][]item, p.producers)
	for g := range p.producers {
		r := c.Rand(g)
		wg.Add(1)
		go c.Guard(func() {
			defer wg.Done()
			only := -1
			if r.IntN(4) == 0 {
				only = r.IntN(p.count)
			}
			for n := range p.each {
				gap(r)
				s := r.IntN(p.count)
				if only >= 0 {
					s = only
				}
				x := routed{item{p: g, n: n, shard: s, at: clock()}, shardValue(r, s, p.count)}
				p.sent[g] = append(p.sent[g], x.item)
				put(r, x)
			}
		})
	}
}

// outside checks C(k) and the shard count.
func outside[T any](c *kit.Case, what string, count, got int, ch func(int) chan T) {
	if got != count {
		c.Violate("%s: ShardCount %d", what, got)
	}
	seen := map[chan T]bool{}
	for k := range count {
		x := ch(k)
		if x == nil || seen[x] || x != ch(k) {
			c.Violate("%s: C(%d) is nil, not the same twice, or that of another shard", what, k)
		}
		seen[x] = true
	}
	for _, k := range []int{-1, count, count + 1, -count, math.MaxInt, math.MinInt, 1 << 20} {
		if ch(k) != nil {
			c.Violate("%s: C(%d) is not nil", what, k)
		}
	}
}

// perShard collects what each shard emits.
type perShard struct {
	mu   sync.Mutex
	outs [][]got
	busy []atomic.Int32
	n    atomic.Int64
}

func newPerShard(count int) *perShard {
	return &perShard{outs: make([][]got, count), busy: make([]atomic.Int32, count)}
}

// enter and leave bracket a worker call.
func (s *perShard) enter(c *kit.Case, what string, k int) {
	if k < 0 || k >= len(s.busy) {
		c.Violate("%s: worker called with shard %d", what, k)
	}
	if s.busy[k].Add(1) != 1 {
		c.Violate("%s: two workers of shard %d at once", what, k)
	}
}
func (s *perShard) leave(k int) { s.busy[k].Add(-1) }

func (s *perShard) add(k int, chunk []item, at time.Duration) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := take(k, chunk, at)
	s.outs[k] = append(s.outs[k], g)
	s.n.Add(int64(len(chunk)))
	return len(s.outs[k])
}

func shardSteps(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		start := time.Now()
		count := 1 + c.R.IntN(5)
		in, out := []int{0, 1, 5, 1000}[c.R.IntN(4)], []int{0, 1, 3, 100}[c.R.IntN(4)]
		worker, own := c.R.IntN(2) == 0, c.R.IntN(2) == 0
		slow := c.R.IntN(2) == 0
		what := fmt.Sprintf("shards=%d in=%d out=%d worker=%v ownChan=%v slow=%v", count, in, out, worker, own, slow)
		c.Logf("%s", what)
		ps := newPerShard(count)
		recv := func(k int, x routed) {
			n := ps.add(k, []item{x.item}, time.Since(start))
			if slow {
				time.Sleep(time.Duration((n*7+k*3)%11) * ms)
			}
		}
		b := chans.NewShardChan[routed]().WithContext(ctx).WithShardCount(count).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
		mine := make(chan routed, in)
		if own {
			b.WithIncomingChan(mine)
		}
		if worker {
			b.WithWorkerFunc(func(k int, x routed) {
				ps.enter(c, what, k)
				recv(k, x)
				ps.leave(k)
			})
		}
		if _, err := b.Build(); err != chans.ErrShardFuncIsNil {
			c.Violate("Build without a shard function returned %v", err)
		}
		s, err := b.WithShardFunc(func(x routed) int { return x.key }).Build()
		if err != nil {
			c.Violate("Build returned %v", err)
		}
		outside(c, what, count, s.ShardCount(), s.C)
		if !worker {
			for k := range count {
				go c.Guard(func() {
					for {
						select {
						case x, ok := <-s.C(k):
							if !ok {
								return
							}
							recv(k, x)
						case <-ctx.Done():
							return
						}
					}
				})
			}
		}
		p := &pump{count: count, producers: 1 + c.R.IntN(3), each: 30}
		var wg sync.WaitGroup
		p.send(c, &wg, func(r *rand.Rand) {
			if r.IntN(5) == 0 {
				time.Sleep(time.Duration(r.IntN(20)) * ms)
			}
		}, func(r *rand.Rand, x routed) {
			if own && r.IntN(2) == 0 {
				mine <- x
			} else if err := s.Add(x); err != nil {
				c.Violate("%s: Add returned %v", what, err)
			}
		}, func() time.Duration { return 0 })
		wg.Wait()
		if own && c.R.IntN(2) == 0 {
			close(mine)
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		for k := range count {
			judge(c, fmt.Sprint(what, " shard ", k), 1, ps.outs[k], p.sent, k, false)
		}
		if got := s.Sizes(); len(got) != count {
			c.Violate("%s: Sizes %v", what, got)
		}
		c.Distinct(what, show(ps.outs[0]))
		c.Sample(func() string { return what + ": shard 0 " + show(ps.outs[0]) })
		cancel()
	})
}

func shardStress(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	count := 1 + c.R.IntN(4)
	worker := c.R.IntN(2) == 0
	what := fmt.Sprintf("shards=%d worker=%v", count, worker)
	ps := newPerShard(count)
	b := chans.NewShardChan[routed]().WithContext(ctx).WithShardCount(count).WithIncomingBufferSize(c.R.IntN(3)).WithOutgoingBufferSize(c.R.IntN(3)).
		WithShardFunc(func(x routed) int { return x.key })
	if worker {
		b.WithWorkerFunc(func(k int, x routed) {
			ps.enter(c, what, k)
			runtime.Gosched()
			ps.add(k, []item{x.item}, 0)
			ps.leave(k)
		})
	}
	s, err := b.Build()
	if err != nil {
		c.Violate("Build returned %v", err)
	}
	if !worker {
		for k := range count {
			go c.Guard(func() {
				for {
					select {
					case x := <-s.C(k):
						ps.add(k, []item{x.item}, 0)
					case <-ctx.Done():
						return
					}
				}
			})
		}
	}
	p := &pump{count: count, producers: 1 + c.R.IntN(4), each: 10 + c.R.IntN(30)}
	var wg sync.WaitGroup
	p.send(c, &wg, func(r *rand.Rand) {}, func(r *rand.Rand, x routed) {
		if err := s.Add(x); err != nil {
			c.Violate("%s: Add returned %v", what, err)
		}
	}, func() time.Duration { return 0 })
	wg.Wait()
	for int(ps.n.Load()) < p.producers*p.each {
		runtime.Gosched()
	}
	ps.mu.Lock()
	defer ps.mu.Unlock()
	for k := range count {
		judge(c, fmt.Sprint(what, " shard ", k), 1, ps.outs[k], p.sent, k, false)
		c.Distinct(what, k, show(ps.outs[k]))
	}
}

// scSteps drives a ShardChunk: shards, chunks and flush times.
func scSteps(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		start := time.Now()
		count, size := 1+c.R.IntN(4), []int{1, 2, 3, 5, 100}[c.R.IntN(5)]
		tmo := time.Duration(1+c.R.IntN(12))*ms + []time.Duration{0, 300 * time.Microsecond}[c.R.IntN(2)]
		in, out := []int{0, 1, 5, 1000}[c.R.IntN(4)], []int{0, 1, 3, 100}[c.R.IntN(4)]
		worker, own := c.R.IntN(2) == 0, c.R.IntN(4) > 0
		slow := c.R.IntN(3) == 0
		what := fmt.Sprintf("shards=%d size=%d timeout=%v in=%d out=%d worker=%v slow=%v", count, size, tmo, in, out, worker, slow)
		c.Logf("%s", what)
		ps := newPerShard(count)
		recv := func(k int, chunk []item) {
			n := ps.add(k, chunk, time.Since(start))
			if slow {
				time.Sleep(time.Duration((n*7+k*3)%11) * ms)
			}
		}
		mine := make(chan item, in)
		var mu sync.Mutex
		keys := map[item]int{}
		b := chans.NewShardChunk[item]().WithContext(ctx).WithShardCount(count).WithChunkSize(size).WithChunkTimeout(tmo).
			WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
		_ = own
		b.WithIncomingChan(mine)
		if worker {
			b.WithShardWorker(func(k int, chunk []item) {
				ps.enter(c, what, k)
				recv(k, chunk)
				ps.leave(k)
			})
		}
		if _, err := b.Build(); err != chans.ErrShardFuncIsNil {
			c.Violate("Build without a shard function returned %v", err)
		}
		s, err := b.WithShardFunc(func(x item) int {
			mu.Lock()
			defer mu.Unlock()
			return keys[x]
		}).Build()
		if err != nil {
			c.Violate("Build returned %v", err)
		}
		outside(c, what, count, s.ShardCount(), s.C)
		if !worker {
			for k := range count {
				go c.Guard(func() {
					for {
						select {
						case x, ok := <-s.C(k):
							if !ok {
								return
							}
							recv(k, x)
						case <-ctx.Done():
							return
						}
					}
				})
			}
		}
		p := &pump{count: count, producers: 1 + c.R.IntN(3), each: 30}
		var wg sync.WaitGroup
		pace := c.R.IntN(3)
		p.send(c, &wg, func(r *rand.Rand) {
			switch pace {
			case 0:
				if r.IntN(5) == 0 {
					time.Sleep(time.Duration(r.IntN(20)) * ms)
				}
			case 1:
				time.Sleep(time.Duration(r.Int64N(int64(tmo))))
			case 2:
				time.Sleep([]time.Duration{0, tmo, tmo / 2, tmo - 1, 2 * tmo}[r.IntN(5)])
			}
		}, func(r *rand.Rand, x routed) {
			mu.Lock()
			keys[x.item] = x.key
			mu.Unlock()
			mine <- x.item
		}, func() time.Duration { return time.Since(start) })
		wg.Wait()
		closing := c.R.IntN(2) == 0
		if closing {
			close(mine)
		}
		time.Sleep(tmo + 3*time.Second)
		synctest.Wait()
		for k := range count {
			judge(c, fmt.Sprint(what, " shard ", k), size, ps.outs[k], p.sent, k, false)
			unmodified(c, what, ps.outs[k])
			if slow {
				continue
			}
			spaced(c, fmt.Sprint(what, " shard ", k), ps.outs[k], size, tmo)
			for _, g := range ps.outs[k] {
				if last := g.items[len(g.items)-1]; len(g.items) == size && g.at != last.at && p.producers == 1 {
					c.Violate("%s: a full chunk of shard %d was complete at %v and came at %v", what, k, last.at, g.at)
				}
				for _, it := range g.items {
					if g.at-it.at > tmo {
						c.Violate("%s: item %v of %v came out of shard %d at %v", what, it, it.at, k, g.at)
					}
				}
			}
		}
		if a, b, d := s.Sizes(); len(a) != count || b != 0 || d != 0 {
			c.Violate("%s: Sizes %v %d %d with everything taken", what, a, b, d)
		}
		c.Distinct(what, pace, closing, sizes(ps.outs[0]), len(ps.outs))
		c.Sample(func() string { return what + ": shard 0 " + show(ps.outs[0]) })
		cancel()
	})
}

func scStress(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	count, size := 1+c.R.IntN(4), 1+c.R.IntN(6)
	worker := c.R.IntN(2) == 0
	what := fmt.Sprintf("shards=%d size=%d worker=%v", count, size, worker)
	ps := newPerShard(count)
	mine := make(chan routed, c.R.IntN(3))
	mark := routed{item: owned}
	var lives [][]routed // what was handed out, with what its receiver wrote and appended
	var mu sync.Mutex
	add := func(k int, ch []routed) {
		xs := make([]item, len(ch))
		for i := range ch {
			xs[i] = ch[i].item
			ch[i] = mark
		}
		for range min(4, cap(ch)-len(ch)) {
			ch = append(ch, mark)
		}
		mu.Lock()
		lives = append(lives, ch)
		mu.Unlock()
		ps.add(k, xs, 0)
	}
	b := chans.NewShardChunk[routed]().WithContext(ctx).WithShardCount(count).WithChunkSize(size).
		WithChunkTimeout(time.Duration(1+c.R.IntN(200)) * time.Microsecond).WithIncomingChan(mine).
		WithIncomingBufferSize(c.R.IntN(4)).WithOutgoingBufferSize(c.R.IntN(3)).
		WithShardFunc(func(x routed) int { return x.key })
	if worker {
		b.WithShardWorker(func(k int, ch []routed) {
			ps.enter(c, what, k)
			runtime.Gosched()
			add(k, ch)
			ps.leave(k)
		})
	}
	s, err := b.Build()
	if err != nil {
		c.Violate("Build returned %v", err)
	}
	if !worker {
		for k := range count {
			go c.Guard(func() {
				for {
					select {
					case x := <-s.C(k):
						add(k, x)
					case <-ctx.Done():
						return
					}
				}
			})
		}
	}
	p := &pump{count: count, producers: 1 + c.R.IntN(4), each: 10 + c.R.IntN(30)}
	var wg sync.WaitGroup
	p.send(c, &wg, func(r *rand.Rand) {}, func(r *rand.Rand, x routed) { mine <- x }, func() time.Duration { return 0 })
	wg.Wait()
	for int(ps.n.Load()) < p.producers*p.each {
		runtime.Gosched()
	}
	ps.mu.Lock()
	defer ps.mu.Unlock()
	mu.Lock()
	defer mu.Unlock()
	for _, ch := range lives {
		for _, x := range ch {
			if x != mark {
				c.Violate("%s: what the receiver of a chunk wrote to it became %v", what, x.item)
			}
		}
	}
	for k := range count {
		judge(c, fmt.Sprint(what, " shard ", k), size, ps.outs[k], p.sent, k, false)
		c.Distinct(what, k, show(ps.outs[k]))
	}
}

// cancelled cancels a chunker, sharder or both with channels in any state and
// checks that callers return and nothing keeps running.
func cancelled(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		kind := c.R.IntN(3)
		worker := c.R.IntN(3) == 0
		size, count := 1+c.R.IntN(4), 1+c.R.IntN(4)
		in, out := c.R.IntN(4), c.R.IntN(3)
		tmo := time.Duration(1+c.R.IntN(5)) * ms
		if c.R.IntN(3) == 0 {
			tmo = time.Hour
		}
		consume := c.R.IntN(3) == 0
		work := func() { time.Sleep(time.Duration(c.Idx%7) * ms) }
		early := c.R.IntN(6) == 0
		if early {
			cancel()
		}
		own := make(chan item, in)
		var add func(it item) error
		var take []func() []item // one read of an output, nil if there is nothing
		switch kind {
		case 0:
			b := chans.NewChunkChan[item]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(tmo).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
			if worker {
				b.WithChunkFunc(func([]item) { work() })
			}
			ck := b.Build()
			add = func(it item) error { ck.Add(it); return ctx.Err() }
			take = append(take, func() []item {
				select {
				case x := <-ck.C():
					return x
				default:
					return nil
				}
			})
		case 1:
			b := chans.NewShardChan[item]().WithContext(ctx).WithShardCount(count).WithIncomingBufferSize(in).WithOutgoingBufferSize(out).
				WithShardFunc(func(it item) int { return it.n - 5 })
			if worker {
				b.WithWorkerFunc(func(int, item) { work() })
			}
			s, err := b.Build()
			if err != nil {
				c.Violate("Build returned %v", err)
			}
			add = s.Add
			for k := range count {
				take = append(take, func() []item {
					select {
					case x, ok := <-s.C(k):
						if !ok {
							return nil
						}
						return []item{x}
					default:
						return nil
					}
				})
			}
		case 2:
			b := chans.NewShardChunk[item]().WithContext(ctx).WithShardCount(count).WithChunkSize(size).WithChunkTimeout(tmo).
				WithIncomingBufferSize(in).WithOutgoingBufferSize(out).WithIncomingChan(own).WithShardFunc(func(it item) int { return it.n - 5 })
			if worker {
				b.WithShardWorker(func(int, []item) { work() })
			}
			s, err := b.Build()
			if err != nil {
				c.Violate("Build returned %v", err)
			}
			add = func(it item) error {
				select {
				case own <- it:
					return nil
				case <-ctx.Done():
					return ctx.Err()
				}
			}
			for k := range count {
				take = append(take, func() []item {
					select {
					case x := <-s.C(k):
						return x
					default:
						return nil
					}
				})
			}
		}
		producers := c.R.IntN(4)
		var returned atomic.Int32
		burst := c.R.IntN(60)
		for g := range producers {
			r := c.Rand(g)
			go c.Guard(func() {
				for n := range burst {
					if r.IntN(4) == 0 {
						time.Sleep(time.Duration(r.IntN(4)) * ms)
					}
					was := ctx.Err() != nil
					err := add(item{p: g, n: n})
					if err != nil && (ctx.Err() == nil || err != ctx.Err()) {
						c.Violate("Add returned %v, the context's error is %v", err, ctx.Err())
					}
					_ = was
					if err != nil {
						break
					}
				}
				returned.Add(1)
			})
		}
		var out1 []item
		seen := map[item]bool{}
		collect := func() {
			for _, f := range take {
				for x := f(); x != nil; x = f() {
					for _, it := range x {
						if seen[it] || it.p < 0 || it.p >= producers || it.n >= burst {
							c.Violate("item %v came out twice or from nowhere", it)
						}
						seen[it] = true
					}
					out1 = append(out1, x...)
					if len(x) == 0 || len(x) > max(size, 1) && kind != 1 {
						c.Violate("a chunk of %d items came out", len(x))
					}
				}
			}
		}
		for range c.R.IntN(30) {
			time.Sleep(ms)
			if consume {
				collect()
			}
		}
		if c.R.IntN(2) == 0 {
			synctest.Wait()
		}
		at := time.Now()
		cancel()
		// later callers
		later := 3
		var back atomic.Int32
		for range later {
			go c.Guard(func() {
				for n := range in + out*count + size + 10 {
					if err := add(item{p: producers, n: n}); err != nil && err != ctx.Err() {
						c.Violate("Add after the cancellation returned %v", err)
					}
				}
				back.Add(1)
			})
		}
		synctest.Wait()
		if int(back.Load()) != later {
			c.Violate("kind %d: %d of %d later callers of Add hang after the cancellation", kind, later-int(back.Load()), later)
		}
		time.Sleep(300 * ms) // sleeping producers and workers end
		synctest.Wait()
		if int(returned.Load()) != producers {
			c.Violate("kind %d: %d of %d callers of Add hang after the cancellation", kind, producers-int(returned.Load()), producers)
		}
		// nobody takes items any more: what the buffer has no room for is refused
		if kind != 0 {
			ok := 0
			for range in + 5 {
				if add(item{p: producers, n: 0}) == nil {
					ok++
				}
			}
			if ok > in {
				c.Violate("kind %d: Add accepted %d items after the cancellation, the buffer holds %d", kind, ok, in)
			}
		}
		c.Events("cancellations judged", 1)
		c.Events("callers of Add judged", producers+later)
		c.Distinct(kind, worker, size, count, in, out, tmo, consume, early, producers, len(out1), at.UnixNano()/1e6)
		c.Sample(func() string {
			return fmt.Sprintf("kind=%d worker=%v size=%d shards=%d in=%d out=%d timeout=%v producers=%d taken=%d", kind, worker, size, count, in, out, tmo, producers, len(out1))
		})
		// the bubble only ends when no goroutine is left
	})
}

// cancelAfter checks what still comes out after the cancellation.
func cancelAfter(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		size := 2 + c.R.IntN(4)
		tmo := time.Duration(1+c.R.IntN(5)) * ms
		sharded := c.R.IntN(2) == 0
		n := c.R.IntN(25)
		ins := make(chan int, 100)
		var outs []chan []int
		if sharded {
			s, err := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(2).WithChunkSize(size).WithChunkTimeout(tmo).
				WithOutgoingBufferSize(c.R.IntN(40)).WithIncomingChan(ins).WithShardFunc(func(x int) int { return x }).Build()
			if err != nil {
				c.Violate("Build returned %v", err)
			}
			outs = append(outs, s.C(0), s.C(1))
		} else {
			ck := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(tmo).WithOutgoingBufferSize(c.R.IntN(40)).WithIncomingChan(ins).Build()
			outs = append(outs, ck.C())
		}
		for i := range n {
			ins <- i + 1
		}
		time.Sleep(time.Duration(c.R.IntN(3)) * tmo / 2)
		cancel()
		if c.R.IntN(2) == 0 {
			for i := range 10 {
				ins <- 1000 + i
			}
		}
		synctest.Wait()
		time.Sleep(time.Minute)
		synctest.Wait()
		total := 0
		for k, ch := range outs {
			prev := 0
			for more := true; more; {
				select {
				case x, ok := <-ch:
					if !ok { // a closed output is as good as a silent one
						more = false
						break
					}
					if len(x) == 0 || len(x) > size {
						c.Violate("a chunk of %d items came out after the cancellation, the size is %d", len(x), size)
					}
					for _, v := range x {
						if v <= prev || v > n && v < 1000 || sharded && v%2 != k {
							c.Violate("item %d came out of %d after %d; 1..%d were put in", v, k, prev, n)
						}
						prev = v
						total++
					}
				default:
					more = false
				}
			}
		}
		c.Events("items emitted around a cancellation", total)
		c.Distinct(size, tmo, sharded, n, total)
	})
}

// cancelHonest: what ShardChan.Add refused it did not take, around and after a cancellation.
func cancelHonest(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		own := make(chan int, c.R.IntN(30))
		count := 1 + c.R.IntN(4)
		s, err := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(count).WithOutgoingBufferSize(c.R.IntN(20)).
			WithIncomingChan(own).WithShardFunc(func(x int) int { return x }).Build()
		if err != nil {
			c.Violate("Build returned %v", err)
		}
		producers := 1 + c.R.IntN(5)
		refused := make([][]int, producers)
		taken := make([]int, producers)
		var wg sync.WaitGroup
		for g := range producers {
			wg.Add(1)
			gap := time.Duration(c.R.IntN(3)) * ms
			go c.Guard(func() {
				defer wg.Done()
				for i := range 25 {
					if err := s.Add(1000*g + i); err != nil {
						refused[g] = append(refused[g], 1000*g+i)
						if err != ctx.Err() {
							c.Violate("Add returned %v, the context's error is %v", err, ctx.Err())
						}
					} else {
						taken[g]++
					}
					time.Sleep(gap)
				}
			})
		}
		time.Sleep(time.Duration(c.R.IntN(30)) * ms)
		cancel()
		wg.Wait()
		synctest.Wait()
		found := map[int]string{}
		for more := true; more; {
			select {
			case x, ok := <-own:
				if more = ok; ok {
					found[x] = "in the incoming channel"
				}
			default:
				more = false
			}
		}
		for k := range count {
			for more := true; more; {
				select {
				case x, ok := <-s.C(k):
					if more = ok; ok {
						found[x] = "put out"
					}
				default:
					more = false
				}
			}
		}
		total := 0
		for g := range producers {
			total += taken[g]
			for _, x := range refused[g] {
				if at, ok := found[x]; ok {
					c.Violate("Add(%d) returned an error, but the item is %s", x, at)
				}
			}
		}
		c.Events("items refused judged", 25*producers-total)
		c.Distinct(producers, count, cap(own), total, len(found))
	})
}

// cancelRace cancels in real time with everything under way.
func cancelRace(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	var n atomic.Int32
	ck := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(2).WithChunkTimeout(20 * time.Microsecond).WithIncomingBufferSize(1).WithOutgoingBufferSize(c.R.IntN(2)).
		WithChunkFunc(func([]int) { n.Add(1) }).Build()
	s, err := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(2).WithIncomingBufferSize(1).WithOutgoingBufferSize(c.R.IntN(2)).
		WithShardFunc(func(x int) int { return x }).WithWorkerFunc(func(int, int) { n.Add(1) }).Build()
	if err != nil {
		c.Violate("Build returned %v", err)
	}
	when := c.R.IntN(40)
	c.Go(4, func(g int, r *rand.Rand) {
		for j := range 40 {
			if g == 0 && j == when {
				cancel()
			}
			ck.Add(j)
			if err := s.Add(j); err != nil && err != ctx.Err() {
				c.Violate("Add returned %v", err)
			}
		}
	})
	c.Events("callers of Add judged", 4)
	c.Distinct(when, n.Load())
}

func init() {
	kit.Register(&kit.Prop{ID: "C25",
		Rule: "a distinct shape is a configuration with the order of items that came out of a shard, judged against the items put in",
		Parts: []kit.Part{
			{Name: "content", N: 1500, Stress: true, Fn: shardSteps},
			{Name: "stress", N: 800, Stress: true, Fn: shardStress},
			{Name: "large", N: 40, Stress: true, Fn: shardLarge},
			{Name: "stalled", N: 300, Fn: stalled(1)},
			ofTypes(shardTypes),
		}})
	kit.Register(&kit.Prop{ID: "C26",
		Rule: "a distinct shape is a configuration with the chunks that came out of a shard, judged against the items put in and their virtual times",
		Parts: []kit.Part{
			{Name: "content", N: 1500, Fn: scSteps},
			{Name: "stress", N: 600, Stress: true, Fn: scStress},
			{Name: "large", N: 40, Fn: scLarge},
			{Name: "stalled", N: 300, Fn: stalled(2)},
			{Name: "due", N: 600, Fn: due(true)},
			ofTypes(bothTypes),
		}})
	kit.Register(&kit.Prop{ID: "C27",
		Rule: "a distinct shape is a configuration, the moment of the cancellation and what had come out by then",
		Parts: []kit.Part{
			{Name: "cancel", N: 2500, Stress: true, Fn: cancelled},
			{Name: "after", N: 800, Stress: true, Fn: cancelAfter},
			{Name: "honest", N: 600, Fn: cancelHonest},
			{Name: "race", N: 300, Stress: true, Fn: cancelRace},
			{Name: "mass", N: 60, Fn: cancelMass},
		}})
}
