package chansp

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"

	"github.com/axgrid/axutils/chans"
)

// series is what a producer sends: numbers, nothing among them.
func series(c *kit.Case) []int {
	n := 1 + c.R.IntN(60)
	out := make([]int, n)
	few := c.R.IntN(2) == 0
	for i := range out {
		switch {
		case c.R.IntN(4) == 0: // the zero value is an item like any other
		case few:
			out[i] = 1 + c.R.IntN(3)
		default:
			out[i] = i + 1
		}
	}
	return out
}

// same compares what came out of a shard with what was sent to it.
func same[T any](c *kit.Case, code typed.Code[T], what string, got []T, want []int) {
	var back []int
	for _, x := range got {
		back = append(back, code.From(x))
	}
	if !slices.Equal(back, want) {
		c.Violate("%s of %s: %v came out, %v was sent (0 is the zero value)", what, code.Name, back, want)
	}
	c.Events("items judged", len(got))
	c.Distinct(what, code.Name, fmt.Sprint(want))
}

func chunkOf[T any](code typed.Code[T]) func(c *kit.Case) {
	return func(c *kit.Case) {
		c.Bubble(func() {
			ctx, cancel := kit.Ctx(c.R, context.Background())
			defer func() { cancel(); synctest.Wait() }()
			size := 1 + c.R.IntN(7)
			b := chans.NewChunkChan[T]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(10 * ms).WithIncomingBufferSize(c.R.IntN(5)).WithOutgoingBufferSize(c.R.IntN(3))
			var got []T
			recv := func(ch []T) {
				if len(ch) == 0 || len(ch) > size {
					c.Violate("chunk of %d %s, the size is %d", len(ch), code.Name, size)
				}
				got = append(got, ch...)
			}
			fn := c.R.IntN(2) == 0
			if fn {
				b.WithChunkFunc(recv)
			}
			ck := b.Build()
			if !fn {
				go c.Guard(func() {
					for {
						select {
						case ch := <-ck.C():
							if len(ch) == 0 {
								return
							}
							recv(ch)
						case <-ctx.Done():
							return
						}
					}
				})
			}
			sent := series(c)
			for i, n := range sent {
				if i%2 == 0 {
					ck.Add(code.To(n))
				} else {
					ck.Incoming() <- code.To(n)
				}
				if c.R.IntN(10) == 0 {
					time.Sleep(15 * ms)
				}
			}
			if c.R.IntN(2) == 0 {
				close(ck.Incoming())
			}
			time.Sleep(time.Second)
			synctest.Wait()
			same(c, code, "chunks", got, sent)
		})
	}
}

// keys makes the shard function of a code.
func keys[T any](code typed.Code[T], count int) func(T) int {
	return func(x T) int { return code.From(x)*7 - 3*count }
}

func byShard(sent []int, k, count int) []int {
	var out []int
	for _, n := range sent {
		if ((n*7-3*count)%count+count)%count == k {
			out = append(out, n)
		}
	}
	return out
}

func shardOf[T any](code typed.Code[T]) func(c *kit.Case) {
	return func(c *kit.Case) {
		c.Bubble(func() {
			ctx, cancel := kit.Ctx(c.R, context.Background())
			defer func() { cancel(); synctest.Wait() }()
			count := 1 + c.R.IntN(5)
			b := chans.NewShardChan[T]().WithContext(ctx).WithShardCount(count).WithShardFunc(keys(code, count)).WithIncomingBufferSize(c.R.IntN(4)).WithOutgoingBufferSize(c.R.IntN(3))
			var mu sync.Mutex
			got := make([][]T, count)
			recv := func(k int, x T) { mu.Lock(); got[k] = append(got[k], x); mu.Unlock() }
			own := make(chan T, c.R.IntN(4))
			if c.R.IntN(2) == 0 {
				own = nil
			} else {
				b.WithIncomingChan(own)
			}
			worker := c.R.IntN(2) == 0
			if worker {
				b.WithWorkerFunc(recv)
			}
			s, err := b.Build()
			if err != nil {
				c.Violate("Build returned %v", err)
			}
			for k := range count {
				if worker {
					break
				}
				go c.Guard(func() {
					for {
						select {
						case x, ok := <-s.C(k):
							if !ok {
								return
							}
							recv(k, x)
						case <-ctx.Done():
							return
						}
					}
				})
			}
			sent := series(c)
			for i, n := range sent {
				if own != nil && i%2 == 0 {
					own <- code.To(n)
				} else if err := s.Add(code.To(n)); err != nil {
					c.Violate("Add of a %s returned %v", code.Name, err)
				}
			}
			time.Sleep(time.Second)
			synctest.Wait()
			for k := range count {
				same(c, code, fmt.Sprint("shard ", k), got[k], byShard(sent, k, count))
			}
		})
	}
}

func shardChunkOf[T any](code typed.Code[T]) func(c *kit.Case) {
	return func(c *kit.Case) {
		c.Bubble(func() {
			ctx, cancel := kit.Ctx(c.R, context.Background())
			defer func() { cancel(); synctest.Wait() }()
			count, size := 1+c.R.IntN(4), 1+c.R.IntN(7)
			in := make(chan T, c.R.IntN(4))
			b := chans.NewShardChunk[T]().WithContext(ctx).WithShardCount(count).WithChunkSize(size).WithChunkTimeout(10 * ms).WithShardFunc(keys(code, count)).WithIncomingChan(in)
			var mu sync.Mutex
			got := make([][]T, count)
			recv := func(k int, ch []T) {
				if len(ch) == 0 || len(ch) > size {
					c.Violate("chunk of %d %s, the size is %d", len(ch), code.Name, size)
				}
				mu.Lock()
				got[k] = append(got[k], ch...)
				mu.Unlock()
			}
			worker := c.R.IntN(2) == 0
			if worker {
				b.WithShardWorker(recv)
			}
			s, err := b.Build()
			if err != nil {
				c.Violate("Build returned %v", err)
			}
			for k := range count {
				if worker {
					break
				}
				go c.Guard(func() {
					for {
						select {
						case ch := <-s.C(k):
							if len(ch) == 0 {
								return
							}
							recv(k, ch)
						case <-ctx.Done():
							return
						}
					}
				})
			}
			sent := series(c)
			for _, n := range sent {
				in <- code.To(n)
				if c.R.IntN(10) == 0 {
					time.Sleep(15 * ms)
				}
			}
			if c.R.IntN(2) == 0 {
				close(in)
			}
			time.Sleep(time.Second)
			synctest.Wait()
			for k := range count {
				same(c, code, fmt.Sprint("chunks of shard ", k), got[k], byShard(sent, k, count))
			}
		})
	}
}

var (
	chunkTypes = []func(*kit.Case){chunkOf(typed.Mixed), chunkOf(typed.Ptr), chunkOf(typed.Err), chunkOf(typed.Bytes), chunkOf(typed.Func), chunkOf(typed.Struct), chunkOf(typed.String), chunkOf(typed.Dict), chunkOf(typed.Block)}
	shardTypes = []func(*kit.Case){shardOf(typed.Mixed), shardOf(typed.Ptr), shardOf(typed.Err), shardOf(typed.Bytes), shardOf(typed.Func), shardOf(typed.Struct), shardOf(typed.String), shardOf(typed.Dict), shardOf(typed.Block)}
	bothTypes  = []func(*kit.Case){shardChunkOf(typed.Mixed), shardChunkOf(typed.Ptr), shardChunkOf(typed.Err), shardChunkOf(typed.Bytes), shardChunkOf(typed.Func), shardChunkOf(typed.Struct), shardChunkOf(typed.String), shardChunkOf(typed.Dict), shardChunkOf(typed.Block)}
)

func ofTypes(fs []func(*kit.Case)) kit.Part {
	return kit.Part{Name: "types", N: 360, Fn: func(c *kit.Case) { fs[c.Idx%len(fs)](c) }}
}
