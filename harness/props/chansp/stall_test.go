package chansp

import (
	"context"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/chans"
)

// stalled: consumers that stay away for seconds to months, again and again,
// while producers wait to hand over their items: nobody gives up, nothing is
// lost. What a chunker held back must come at the latest when a timeout has
// ended after its consumer is back for good.
func stalled(kind int) func(c *kit.Case) {
	return func(c *kit.Case) {
		c.Bubble(func() {
			ctx, cancel := kit.Ctx(c.R, context.Background())
			defer func() { cancel(); synctest.Wait() }()
			start := time.Now()
			away := []time.Duration{2 * time.Second, 11 * time.Second, 61 * time.Second, 11 * time.Minute, 2 * time.Hour, 25 * time.Hour, 40 * 24 * time.Hour}[c.R.IntN(7)]
			tmo := away / time.Duration(1+c.R.IntN(500))
			size, count := []int{1, 2, 5, 40}[c.R.IntN(4)], 1+c.R.IntN(5)
			in, out := []int{0, 1, 4, 50}[c.R.IntN(4)], []int{0, 1, 3}[c.R.IntN(3)]
			fn := c.R.IntN(2) == 0
			what := fmt.Sprintf("%s shards=%d size=%d timeout=%v in=%d out=%d func=%v consumers away for %v", []string{"ChunkChan", "ShardChan", "ShardChunk"}[kind], count, size, tmo, in, out, fn, away)
			c.Logf("%s", what)
			var mu sync.Mutex
			outs := make([][]got, count)
			awake := false // consumers are back for good
			stays := 0
			rs := c.Rand(77)
			// every consumer takes a break now and then, in the end none
			rest := func() {
				mu.Lock()
				pause := !awake && rs.IntN(4) == 0
				d := away/2 + time.Duration(rs.Int64N(int64(away)))
				if pause {
					stays++
				}
				mu.Unlock()
				if pause {
					time.Sleep(d)
				}
			}
			recv := func(k int, ch []item) {
				mu.Lock()
				outs[k] = append(outs[k], take(k, ch, time.Since(start)))
				mu.Unlock()
				rest()
			}
			consume := func(k int, ch <-chan []item) {
				time.Sleep(away)
				for {
					select {
					case x, ok := <-ch:
						if !ok {
							return
						}
						recv(k, x)
					case <-ctx.Done():
						return
					}
				}
			}
			mine := make(chan item, in)
			given := c.R.IntN(2) == 0
			var add func(it item)
			switch kind {
			case 0:
				count = 1
				b := chans.NewChunkChan[item]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(tmo).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
				if given {
					b.WithIncomingChan(mine)
				}
				if fn {
					b.WithChunkFunc(func(ch []item) { recv(0, ch) })
				}
				ck := b.Build()
				if !fn {
					go c.Guard(func() { consume(0, ck.C()) })
				}
				add = ck.Add
			case 1:
				size = 1
				b := chans.NewShardChan[item]().WithContext(ctx).WithShardCount(count).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
				b.WithShardFunc(func(it item) int { return it.shard })
				if given {
					b.WithIncomingChan(mine)
				}
				if fn {
					b.WithWorkerFunc(func(k int, it item) { recv(k, []item{it}) })
				}
				s, err := b.Build()
				if err != nil {
					c.Violate("%s: Build returned %v", what, err)
				}
				if !fn {
					for k := range count {
						ch := make(chan []item)
						go c.Guard(func() {
							time.Sleep(away)
							for {
								select {
								case it := <-s.C(k):
									recv(k, []item{it})
								case <-ctx.Done():
									close(ch)
									return
								}
							}
						})
					}
				}
				add = func(it item) {
					if err := s.Add(it); err != nil {
						c.Violate("%s: Add of %v returned %v at %v, nothing was cancelled", what, it, err, time.Since(start))
					}
				}
			case 2:
				given = true
				b := chans.NewShardChunk[item]().WithContext(ctx).WithShardCount(count).WithChunkSize(size).WithChunkTimeout(tmo)
				b.WithIncomingBufferSize(in).WithOutgoingBufferSize(out).WithIncomingChan(mine).WithShardFunc(func(it item) int { return it.shard })
				if fn {
					b.WithShardWorker(func(k int, ch []item) { recv(k, ch) })
				}
				s, err := b.Build()
				if err != nil {
					c.Violate("%s: Build returned %v", what, err)
				}
				if !fn {
					for k := range count {
						go c.Guard(func() { consume(k, s.C(k)) })
					}
				}
				add = func(it item) { mine <- it }
			}
			producers := 1 + c.R.IntN(4)
			each := (60 + size*count) / producers
			sent := make([][]item, producers)
			var wg sync.WaitGroup
			for p := range producers {
				r := c.Rand(100 + p)
				wg.Add(1)
				go c.Guard(func() {
					defer wg.Done()
					for n := range each {
						it := item{p: p, n: n, shard: r.IntN(count), at: time.Since(start)}
						if given && r.IntN(2) == 0 {
							mine <- it
						} else {
							add(it)
						}
						sent[p] = append(sent[p], it)
						if r.IntN(8) == 0 {
							time.Sleep(time.Duration(r.Int64N(int64(away) / 3)))
						}
					}
				})
			}
			wg.Wait()
			closed := given && c.R.IntN(2) == 0
			if closed { // what is left waits for the consumers
				what += " closed"
				close(mine)
				time.Sleep(away + time.Duration(c.R.Int64N(int64(away))))
			}
			mu.Lock()
			awake = true
			mu.Unlock()
			time.Sleep(2*away + tmo + ms)
			synctest.Wait()
			for k := range count {
				judge(c, fmt.Sprint(what, " shard ", k), size, outs[k], sent, k, false)
			}
			c.Events("absences of consumers", stays)
			c.Distinct(what, sizes(outs[0]))
		})
	}
}

// due: a consumer that looks in now and then, at any time. When the oldest
// item it has not got was taken in, and the consumer was there last, at least
// a timeout ago, there must be a chunk for it on the spot.
func due(sharded bool) func(c *kit.Case) {
	return func(c *kit.Case) {
		c.Bubble(func() {
			ctx, cancel := kit.Ctx(c.R, context.Background())
			defer func() { cancel(); synctest.Wait() }()
			start := time.Now()
			u := []time.Duration{20 * time.Microsecond, ms, time.Second, time.Hour}[c.R.IntN(4)]
			tmo := time.Duration(2+c.R.IntN(30)) * u
			size, in, out := []int{1, 2, 5, 100}[c.R.IntN(4)], c.R.IntN(4), c.R.IntN(3)
			what := fmt.Sprintf("sharded=%v size=%d timeout=%v in=%d out=%d", sharded, size, tmo, in, out)
			c.Logf("%s", what)
			var ch <-chan []item
			mine := make(chan item, in)
			if sharded {
				s, err := chans.NewShardChunk[item]().WithContext(ctx).WithShardCount(3).WithChunkSize(size).WithChunkTimeout(tmo).
					WithIncomingChan(mine).WithIncomingBufferSize(in).WithOutgoingBufferSize(out).WithShardFunc(func(item) int { return 1 }).Build()
				if err != nil {
					c.Violate("%s: Build returned %v", what, err)
				}
				ch = s.C(1)
			} else {
				ch = chans.NewChunkChan[item]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(tmo).WithIncomingChan(mine).WithOutgoingBufferSize(out).Build().C()
			}
			sent := [][]item{nil}
			var outs []got
			next, visits, owed := 0, 0, 0
			last := time.Duration(0)
			visit := func() {
				synctest.Wait()
				now := time.Since(start)
				visits++
				must := next < len(sent[0]) && now-sent[0][next].at > tmo && now-last > tmo
				select {
				case x := <-ch:
					outs = append(outs, take(0, x, now))
					next += len(x)
					last = now
					if must {
						owed++
					}
				default:
					if must {
						c.Violate("%s: at %v the consumer, last there at %v, finds no chunk, though item %v was taken in at %v", what, now, last, sent[0][next], sent[0][next].at)
					}
				}
			}
			for j := 0; j < 60; j++ {
				time.Sleep([]time.Duration{0, 0, u, tmo / 3, tmo - 1, tmo, tmo + 1, time.Duration(c.R.Int64N(int64(2 * tmo)))}[c.R.IntN(8)])
				if c.R.IntN(3) > 0 {
					synctest.Wait()
					it := item{n: len(sent[0]), at: time.Since(start)}
					select {
					case mine <- it:
						sent[0] = append(sent[0], it)
					default:
					}
				} else {
					visit()
				}
			}
			for j := 0; next < len(sent[0]); j++ {
				time.Sleep(tmo + 1)
				visit()
			}
			judge(c, what, size, outs, sent, -1, false)
			c.Events("visits judged", visits)
			c.Events("visits that had to find a chunk", owed)
			c.Distinct(what, sizes(outs))
		})
	}
}
