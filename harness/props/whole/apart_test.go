package whole

import (
	"context"
	"crypto/md5"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/flow"
	"github.com/axgrid/axutils/workers"
)

// A thing is one value: hold is a call on it that does not return (in blocks
// until the end, or end ends it), use are calls on it that do.
type thing struct {
	hold func(in func())
	use  func(r *rand.Rand)
	end  func()
}

// same lets all functions of the user be the same one, or each one's own.
func things(c *kit.Case, ctx context.Context) (string, func() thing) {
	timeout := time.Hour
	switch k := c.R.IntN(17); k {
	case 0:
		return "SimpleMap", func() thing {
			m := collections.NewSimpleMap[int, int]()
			return thing{hold: func(in func()) { m.SetIfNotExistsWithFunc(1, func() int { in(); return 1 }) }, use: func(r *rand.Rand) { useMap(r, m) }}
		}
	case 1:
		b := collections.NewShardMap[int, int]().WithShardsCount(1 + c.R.IntN(4))
		b.WithShardsFunc(func(int) int { return 0 })
		return "ShardMap", func() thing {
			m := b.Build()
			return thing{hold: func(in func()) { m.SetIfNotExistsWithFunc(1, func() int { in(); return 1 }) }, use: func(r *rand.Rand) { useMap(r, m); m.Clear() }}
		}
	case 2, 3, 4:
		var armed atomic.Pointer[func()]
		b := collections.NewGuavaMap[int, int]().WithContext(ctx).WithLockLoad(k != 2).WithMaxCount(c.R.IntN(3)).WithLoadFunc(func(key int) (int, error) {
			if in := armed.Swap(nil); in != nil {
				(*in)()
			}
			return key, nil
		})
		if c.R.IntN(2) == 0 {
			b.WithReadTimeout(timeout).WithUnloadFunc(func(int, int) {})
		}
		return fmt.Sprint("GuavaMap ", k), func() thing {
			m := b.Build()
			hold := func(in func()) {
				armed.Store(&in)
				m.Get(1)
			}
			if k == 4 {
				hold = func(in func()) { m.LockForUpdate(1, func() int { in(); return 1 }) }
			}
			return thing{hold: hold, use: func(r *rand.Rand) {
				for range 3 {
					m.Get(r.IntN(3))
					m.LockForUpdate(r.IntN(3), func() int { return 1 })
					m.Set(r.IntN(3), 1)
					m.HasOrCreate(r.IntN(3), 1)
					m.Has(1)
					m.Delete(1)
					m.GetStored()
					m.Size()
				}
				m.Clear()
			}}
		}
	case 5:
		var armed atomic.Pointer[func()]
		b := collections.NewStructUniqSet[int]().WithContext(ctx).WithBuildFunc(func(v int, _ ...any) ([16]byte, error) {
			if in := armed.Swap(nil); in != nil {
				(*in)()
			}
			return md5.Sum([]byte{byte(v)}), nil
		})
		return "StructUniqSet", func() thing {
			s := b.Build()
			return thing{hold: func(in func()) {
				armed.Store(&in)
				s.Add(1)
			}, use: func(r *rand.Rand) {
				s.Add(1)
				s.Has(1)
				s.Remove(1)
				s.Count()
			}}
		}
	case 6:
		b := workers.NewRunner().WithContext(ctx).WithWorkerCount(1)
		return "Runner", func() thing {
			w := b.Build()
			return thing{hold: func(in func()) { w.Run(in); w.Run(in) }, use: func(r *rand.Rand) {
				done := make(chan int)
				w.Run(func() { done <- 1 })
				<-done
				w.RunWithContext(func(context.Context) { done <- 1 })
				<-done
			}}
		}
	case 7:
		type ev struct{ in func() }
		b := flow.NewProcessor[ev, int]()
		b.RouteOn(func(e ev) bool { return true }, func(e ev, _ int) error {
			if e.in != nil {
				e.in()
			}
			return nil
		})
		b.Route(func(r *flow.ProcessorRouterBuilder[ev, int]) { r.Do(func(ev, int) error { return nil }) })
		return "Processor", func() thing {
			f := b.Build()
			return thing{hold: func(in func()) { f(ev{in}, 1) }, use: func(*rand.Rand) { f(ev{}, 1) }}
		}
	case 8:
		// a chunk function that does not return
		b := chans.NewChunkChan[func()]().WithContext(ctx).WithChunkSize(1).WithIncomingBufferSize(c.R.IntN(3)).WithOutgoingBufferSize(c.R.IntN(3))
		b.WithChunkTimeout(timeout).WithChunkFunc(func(x []func()) { x[0]() })
		return "ChunkChan", func() thing {
			ck := b.Build()
			return thing{hold: func(in func()) { ck.Add(in) }, use: func(*rand.Rand) {
				done := make(chan int)
				ck.Add(func() { done <- 1 })
				<-done
			}}
		}
	case 9:
		b := chans.NewShardChan[func()]().WithContext(ctx).WithShardCount(1 + c.R.IntN(3)).WithIncomingBufferSize(c.R.IntN(3)).WithOutgoingBufferSize(c.R.IntN(3))
		b.WithShardFunc(func(func()) int { return 0 }).WithWorkerFunc(func(_ int, f func()) { f() })
		return "ShardChan", func() thing {
			s, err := b.Build()
			if err != nil {
				c.Violate("ShardChan: %v", err)
			}
			return thing{hold: func(in func()) { s.Add(in) }, use: func(*rand.Rand) {
				done := make(chan int)
				s.Add(func() { done <- 1 })
				<-done
			}}
		}
	case 10:
		b := chans.NewShardChunk[func()]().WithContext(ctx).WithShardCount(1 + c.R.IntN(3)).WithChunkSize(1).WithIncomingBufferSize(3 + c.R.IntN(3)).WithOutgoingBufferSize(c.R.IntN(3))
		b.WithChunkTimeout(timeout).WithShardFunc(func(func()) int { return 0 }).WithShardWorker(func(_ int, f []func()) { f[0]() })
		return "ShardChunk", func() thing {
			ch := make(chan func(), 3)
			s, err := b.WithIncomingChan(ch).Build()
			if err != nil {
				c.Violate("ShardChunk: %v", err)
			}
			_ = s
			return thing{hold: func(in func()) { ch <- in }, use: func(*rand.Rand) {
				done := make(chan int)
				ch <- func() { done <- 1 }
				<-done
			}}
		}
	case 11:
		return "RequestMap", func() thing {
			m := collections.NewRequestMap[int, int](ctx, timeout)
			return thing{hold: func(in func()) { m.GetOrCreate(1, func(int) int { in(); return 1 }) }, use: func(*rand.Rand) {
				m.GetOrCreate(1, func(int) int { return 2 })
				m.GetOrCreate(1, func(int) int { return 2 })
			}}
		}
	case 12:
		b := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(timeout).WithResponseTtl(timeout)
		return "WaitMap", func() thing {
			m := b.Build()
			return thing{hold: func(func()) { m.Wait(1) }, use: func(*rand.Rand) {
				m.Set(1, 1)
				m.Wait(1)
				m.Count()
			}, end: func() { m.Set(1, 2) }}
		}
	case 13:
		b := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(timeout).WithClearTimeout(timeout)
		return "ResponseMap", func() thing {
			m := b.Build()
			return thing{hold: func(func()) { m.Wait(1) }, use: func(*rand.Rand) {
				m.Set(1, 1)
				m.Wait(1)
			}, end: func() { m.Set(1, 2) }}
		}
	case 14:
		b := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(timeout).WithTTL(time.Millisecond)
		return "HolderMap", func() thing {
			m := b.Build()
			return thing{hold: func(func()) { m.Wait(1, 1) }, use: func(*rand.Rand) {
				go func() {
					for m.Count() == 0 {
						time.Sleep(10 * time.Microsecond)
					}
					m.Release(1)
				}()
				m.Wait(1, 2)
				m.Get(1)
			}, end: func() {
				for m.Count() == 0 {
					time.Sleep(10 * time.Microsecond)
				}
				m.Release(1)
			}}
		}
	case 15:
		return "MapMutex", func() thing {
			m := collections.NewMapMutex[int]()
			return thing{hold: func(in func()) { m.Lock(1); in(); m.Unlock(1) }, use: func(*rand.Rand) { m.Lock(1); m.Unlock(1) }}
		}
	}
	return "MapRWMutex", func() thing {
		m := collections.NewMapRWMutex[int]()
		return thing{hold: func(in func()) { m.Lock(1); in(); m.Unlock(1) }, use: func(*rand.Rand) { m.RLock(1); m.RUnlock(1); m.Lock(1); m.Unlock(1) }}
	}
}

func useMap(r *rand.Rand, m collections.Map[int, int]) {
	for range 3 {
		k := r.IntN(3)
		m.SetIfNotExistsWithFunc(k, func() int { return 1 })
		m.SetIfNotExists(k, 2)
		m.Set(k, 1)
		m.Get(k)
		m.Has(k)
		m.Size()
		m.Delete(k)
	}
}

// apart: while some values are in the middle of a call that does not return,
// others made the same way go on. A deadlock is what the kit reports.
func apart(c *kit.Case) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	name, mk := things(c, ctx)
	nh, nu := 1+c.R.IntN(3), 1+c.R.IntN(3)
	var holders, users []thing
	for i := range nh + nu {
		if t := mk(); i%2 == 0 && len(holders) < nh || len(users) == nu {
			holders = append(holders, t)
		} else {
			users = append(users, t)
		}
	}
	free := make(chan struct{})
	var wg sync.WaitGroup
	for _, h := range holders {
		at := make(chan int, 2)
		wg.Add(1)
		go c.Guard(func() {
			defer wg.Done()
			if h.end != nil {
				at <- 1
			}
			h.hold(func() { at <- 1; <-free })
		})
		<-at
	}
	c.Go(nu, func(g int, r *rand.Rand) { users[g].use(r) })
	for _, h := range holders {
		if h.end != nil {
			h.end()
		}
	}
	close(free)
	wg.Wait()
	// and the ones held go on as well
	for _, h := range holders {
		if name != "HolderMap" {
			h.use(c.R)
		}
	}
	c.Events("values used while others are held up", nu)
	c.Distinct(name, nh, nu)
}
