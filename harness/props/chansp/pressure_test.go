package chansp

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/chans"
)

// held follows what producers got rid of while nobody, or a slow consumer,
// takes it.
type held struct {
	accepted atomic.Int64
	waiting  atomic.Int64 // producers inside a send
}

// buf is a buffer size: one of some, or now and then a large one.
func buf(c *kit.Case, some ...int) int {
	if c.R.IntN(12) == 0 {
		return []int{99, 100, 101, 255, 256, 999, 1000, 1001, 3000}[c.R.IntN(9)]
	}
	return some[c.R.IntN(len(some))]
}

// pressChunk fills a ChunkChan until its producers wait, then makes room.
func pressChunk(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer func() { cancel(); synctest.Wait() }()
		size := []int{1, 2, 7, 1, 2, 7, 1, 2, 7, 100, 500}[c.R.IntN(11)]
		in, out := buf(c, 0, 1, 5, 40), buf(c, 0, 1, 3, 20)
		if in+out*size > 6000 {
			size = 7
		}
		own, direct := c.R.IntN(2) == 0, c.R.IntN(3) == 0
		producers := []int{1, 2, 3, 1, 2, 3, 1, 2, 3, 60}[c.R.IntN(10)]
		fn := c.R.IntN(3) == 0
		what := fmt.Sprintf("ChunkChan size=%d in=%d out=%d ownChan=%v func=%v producers=%d", size, in, out, own, fn, producers)
		b := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(10000 * time.Hour).
			WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
		if own {
			b.WithIncomingChan(make(chan int, in))
		}
		step := make(chan struct{})
		var calls, items atomic.Int64
		if fn {
			b.WithChunkFunc(func(ch []int) {
				calls.Add(1)
				items.Add(int64(len(ch)))
				select {
				case <-step:
				case <-ctx.Done():
				}
			})
		}
		ck := b.Build()
		var h held
		for range producers {
			go c.Guard(func() {
				for {
					if direct {
						select {
						case ck.Incoming() <- 1:
						case <-ctx.Done():
							return
						}
					} else {
						ck.Add(1)
						if ctx.Err() != nil {
							return
						}
					}
					h.accepted.Add(1)
				}
			})
		}
		// with nobody consuming (a chunk function takes one chunk into its hands)
		hand := int64(0)
		if fn {
			hand = int64(size)
		}
		check := func(taken int64) {
			synctest.Wait()
			n := h.accepted.Load()
			lo := taken + int64(in+out*size)
			hi := taken + int64(in+(out+2)*size)
			if n < lo {
				c.Violate("%s: producers wait after %d items although %d were taken and the buffers hold %d more", what, n, taken, in+out*size)
			}
			if n > hi {
				c.Violate("%s: %d items were accepted, %d of them taken; the buffers hold %d and one chunk", what, n, taken, in+out*size)
			}
			a, o := ck.Sizes()
			if a != in || o != out {
				c.Violate("%s: producers wait but Sizes says %d items and %d chunks; the buffers hold %d and %d", what, a, o, in, out)
			}
			c.Events("fills judged", 1)
		}
		taken := hand
		check(taken)
		for range 6 {
			before := h.accepted.Load()
			if fn {
				step <- struct{}{}
				synctest.Wait()
				taken = items.Load()
			} else {
				taken += int64(len(<-ck.C()))
			}
			check(taken)
			if got := h.accepted.Load() - before; got == 0 {
				c.Violate("%s: a chunk was taken but no producer goes on", what)
			}
		}
		c.Max("items accepted unread", int(h.accepted.Load()-taken))
		c.Distinct(what, h.accepted.Load())
		c.Sample(func() string { return fmt.Sprintf("%s: %d accepted, %d taken", what, h.accepted.Load(), taken) })
	})
}

// pressShard does it to a ShardChan, one shard at a time.
func pressShard(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer func() { cancel(); synctest.Wait() }()
		count := 1 + c.R.IntN(5)
		in, out := buf(c, 0, 1, 5, 40), buf(c, 0, 1, 3, 20)
		own := c.R.IntN(2) == 0
		target := c.R.IntN(count)
		what := fmt.Sprintf("ShardChan shards=%d in=%d out=%d ownChan=%v target=%d", count, in, out, own, target)
		b := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(count).WithShardFunc(func(x int) int { return x }).
			WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
		var mine chan int
		if own {
			mine = make(chan int, in)
			b.WithIncomingChan(mine)
		}
		s, err := b.Build()
		if err != nil {
			c.Violate("%s: Build: %v", what, err)
		}
		// the other shards first take their share, up to their buffers
		fill := make([]int, count)
		total := 0
		for k := range count {
			if k != target {
				fill[k] = c.R.IntN(out + 1)
				for range fill[k] {
					if err := s.Add(k); err != nil {
						c.Violate("%s: Add: %v", what, err)
					}
					total++
				}
			}
		}
		synctest.Wait()
		sizes := func(full bool) {
			got := s.Sizes()
			if len(got) != count {
				c.Violate("%s: Sizes lists %d shards", what, len(got))
			}
			for k, n := range got {
				want := fill[k]
				if k == target {
					want = 0
					if full {
						want = out
					}
				}
				if n != want {
					c.Violate("%s: Sizes says %v; shard %d holds %d", what, got, k, want)
				}
			}
		}
		sizes(false)
		var h held
		go c.Guard(func() {
			for {
				if own && c.Idx%2 == 0 {
					select {
					case mine <- target:
					case <-ctx.Done():
						return
					}
				} else if s.Add(target) != nil {
					return
				}
				h.accepted.Add(1)
			}
		})
		for taken := int64(0); taken < 8; taken++ {
			synctest.Wait()
			n := h.accepted.Load()
			if n < taken+int64(in+out) {
				c.Violate("%s: a producer waits after %d items although %d were taken and the buffers hold %d more", what, n, taken, in+out)
			}
			if n > taken+int64(in+out)+2 {
				c.Violate("%s: %d items were accepted, %d of them taken; the buffers hold %d", what, n, taken, in+out)
			}
			sizes(true)
			c.Events("fills judged", 1)
			if x := <-s.C(target); x != target {
				c.Violate("%s: shard %d brings %d", what, target, x)
			}
		}
		c.Distinct(what, h.accepted.Load(), fill)
	})
}

// pressShardChunk does it to a ShardChunk.
func pressShardChunk(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer func() { cancel(); synctest.Wait() }()
		count := 1 + c.R.IntN(4)
		size := []int{1, 2, 7, 1, 2, 7, 1, 2, 7, 100, 500}[c.R.IntN(11)]
		own, in, out := buf(c, 0, 1, 10), buf(c, 0, 1, 8, 40), buf(c, 0, 1, 3, 20)
		if in+out*size > 6000 {
			size = 7
		}
		target := c.R.IntN(count)
		what := fmt.Sprintf("ShardChunk shards=%d size=%d chan=%d in=%d out=%d target=%d", count, size, own, in, out, target)
		ch := make(chan int, own)
		s, err := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(count).WithShardFunc(func(x int) int { return x }).
			WithChunkSize(size).WithChunkTimeout(10000 * time.Hour).WithIncomingChan(ch).
			WithIncomingBufferSize(in).WithOutgoingBufferSize(out).Build()
		if err != nil {
			c.Violate("%s: Build: %v", what, err)
		}
		var h held
		go c.Guard(func() {
			for {
				select {
				case ch <- target:
				case <-ctx.Done():
					return
				}
				h.accepted.Add(1)
			}
		})
		for taken := int64(0); taken < int64(8*size); {
			synctest.Wait()
			n := h.accepted.Load()
			if n < taken+int64(own+out*size) {
				c.Violate("%s: the producer waits after %d items although %d were taken and the buffers hold at least %d more", what, n, taken, own+out*size)
			}
			if n > taken+int64(own+in+2000+(out+2)*size) {
				c.Violate("%s: %d items were accepted and only %d taken", what, n, taken)
			}
			shards, _, chunks := s.Sizes()
			if len(shards) != count || chunks != out {
				c.Violate("%s: the producer waits but Sizes says %v, %d chunks; the outgoing buffer holds %d", what, shards, chunks, out)
			}
			for k, x := range shards {
				if k != target && x != 0 || x < 0 || x > in+1 {
					c.Violate("%s: Sizes says %v", what, shards)
				}
			}
			c.Events("fills judged", 1)
			x := <-s.C(target)
			if len(x) != size {
				c.Violate("%s: %d items in a chunk though many wait", what, len(x))
			}
			taken += int64(len(x))
		}
		c.Max("items accepted unread", int(h.accepted.Load()))
		c.Distinct(what, h.accepted.Load())
	})
}

// pressIndependent: a shard whose chunks nobody takes leaves the others going
// as long as its buffers have room.
func pressIndependent(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer func() { cancel(); synctest.Wait() }()
		count := 2 + c.R.IntN(4)
		out := 1 + c.R.IntN(20)
		s, err := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(count).WithShardFunc(func(x int) int { return x }).
			WithIncomingBufferSize(c.R.IntN(3)).WithOutgoingBufferSize(out).Build()
		if err != nil {
			c.Violate("Build: %v", err)
		}
		stuck := c.R.IntN(count)
		left := out
		for range 100 {
			k := c.R.IntN(count)
			if k == stuck {
				if left == 0 {
					continue
				}
				left--
			}
			if err := s.Add(k); err != nil {
				c.Violate("Add: %v", err)
			}
			if k != stuck {
				if x := <-s.C(k); x != k {
					c.Violate("shard %d brings %d", k, x)
				}
			}
		}
		synctest.Wait()
		if n := s.Sizes()[stuck]; n != out-left {
			c.Violate("shard %d holds %d items, Sizes says %d", stuck, out-left, n)
		}
		c.Events("items past a full shard", 100)
		c.Distinct("independent", count, out, stuck)
	})
}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C42",
		Rule: "a distinct shape is a configuration with the number of items its producers got rid of before they waited",
		Parts: []kit.Part{
			{Name: "chunks", N: 800, Stress: true, Fn: pressChunk},
			{Name: "shards", N: 800, Stress: true, Fn: pressShard},
			{Name: "both", N: 400, Stress: true, Fn: pressShardChunk},
			{Name: "independent", N: 400, Stress: true, Fn: pressIndependent},
			{Name: "sizes", N: 600, Stress: true, Fn: looks},
		},
	})
}

// looks: Sizes while items flow, from several goroutines at once. What it says
// is within the buffers, and is the caller's to write to.
func looks(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	count, in, out := 1+c.R.IntN(5), c.R.IntN(6), 1+c.R.IntN(6)
	size := 1 + c.R.IntN(3)
	const total = 60
	var what string
	var put func(int)
	var sizes func() (list []int, most int, rest []int, mosts []int)
	var drain func()
	key := func(x int) int { return x }
	switch c.R.IntN(3) {
	case 0:
		what = "ChunkChan"
		var n atomic.Int64
		ck := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(50 * time.Microsecond).
			WithIncomingBufferSize(in).WithOutgoingBufferSize(out).Build()
		put = func(x int) { ck.Add(x) }
		sizes = func() ([]int, int, []int, []int) {
			a, b := ck.Sizes()
			return nil, 0, []int{a, b}, []int{in, out}
		}
		drain = func() {
			for n.Load() < total {
				n.Add(int64(len(<-ck.C())))
			}
		}
	case 1:
		what = "ShardChan"
		s, err := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(count).WithShardFunc(key).
			WithIncomingBufferSize(in).WithOutgoingBufferSize(out).Build()
		if err != nil {
			c.Violate("Build: %v", err)
		}
		put = func(x int) { s.Add(x) }
		sizes = func() ([]int, int, []int, []int) { return s.Sizes(), out, nil, nil }
		drain = func() {
			for i := range total {
				<-s.C(i % count)
			}
		}
	case 2:
		what = "ShardChunk"
		ch := make(chan int, c.R.IntN(3))
		s, err := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(count).WithShardFunc(key).WithIncomingChan(ch).
			WithChunkSize(size).WithChunkTimeout(50 * time.Microsecond).WithIncomingBufferSize(in).WithOutgoingBufferSize(out).Build()
		if err != nil {
			c.Violate("Build: %v", err)
		}
		put = func(x int) { ch <- x }
		sizes = func() ([]int, int, []int, []int) {
			a, x, y := s.Sizes()
			return a, -1, []int{x, y}, []int{-1, -1}
		}
		drain = func() {
			var wg sync.WaitGroup
			for k := range count {
				wg.Add(1)
				go c.Guard(func() {
					defer wg.Done()
					for n := k; n < total; {
						n += count * len(<-s.C(k))
					}
				})
			}
			wg.Wait()
		}
	}
	watchers := 2 + c.R.IntN(3)
	var over atomic.Bool
	var first atomic.Int32
	c.Go(watchers+2, func(g int, r *rand.Rand) {
		switch g {
		case 0:
			for first.Load() == 0 && r.IntN(2) == 0 { // the first look may come before the first item
				runtime.Gosched()
			}
			for i := range total {
				put(i % count)
			}
		case 1:
			drain()
			over.Store(true)
		default:
			for i := 0; i < 5 || !over.Load(); i++ {
				list, most, rest, mosts := sizes()
				first.Store(1)
				if list != nil && len(list) != count {
					c.Violate("%s of %d shards: Sizes lists %d", what, count, len(list))
				}
				for k, x := range list {
					if x < 0 || most >= 0 && x > most {
						c.Violate("%s: Sizes says shard %d holds %d items, its buffer is %d", what, k, x, most)
					}
					list[k] = -1 - g
				}
				for k, x := range rest {
					if x < 0 || mosts[k] >= 0 && x > mosts[k] {
						c.Violate("%s: Sizes says %v, the buffers are %v", what, rest, mosts)
					}
				}
				runtime.Gosched()
				for k, x := range list {
					if x != -1-g {
						c.Violate("%s: a list Sizes gave had %d written to entry %d and has %d a moment later", what, -1-g, k, x)
					}
				}
				c.Events("looks at the sizes while items flow", 1)
				c.Tick()
			}
		}
	})
	list, _, rest, _ := sizes()
	for _, x := range append(list, rest...) {
		if x != 0 {
			c.Violate("%s: everything was taken and Sizes says %v %v", what, list, rest)
		}
	}
	c.Distinct(what, count, in, out, watchers)
}
