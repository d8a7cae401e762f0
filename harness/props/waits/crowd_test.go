package waits

import (
	"context"
	"slices"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"
)

// crowd has hundreds of waiters of one key arrive over the whole of a round,
// round after round: the round ends when its first waiter's timeout is over, or
// at the Set, Release or Error, however many have come since.
func crowd(kind string) func(c *kit.Case) {
	return func(c *kit.Case) {
		c.Bubble(func() {
			ctx, cancel := kit.Ctx(c.R, context.Background())
			defer cancel()
			tmo := time.Duration(1+c.R.IntN(5000)) * ms
			ttl := time.Duration(1+c.R.IntN(5000)) * ms
			var wait func(k int) (int, error)
			var set func(k, v int)
			fail := kit.AnyErr(c.R, "failure")
			switch kind {
			case "wait":
				m := typed.NewWaitMap(c.R).WithRequestTimeout(tmo).WithResponseTtl(ttl).WithContext(ctx).Build()
				wait, set = func(k int) (int, error) { return m.Wait(k), nil }, m.Set
			case "response":
				m := typed.NewResponseMap(c.R, ctx).WithResponseTimeout(tmo).WithClearTimeout(1000 * time.Hour).Build()
				wait, set = func(k int) (int, error) { return m.Wait(k), nil }, m.Set
				time.Sleep(ms)
			case "holder":
				m := typed.NewHolderMap(c.R).WithTimeout(tmo).WithTTL(ttl).WithContext(ctx).Build()
				wait = func(k int) (int, error) { return 0, m.Wait(k, k) }
				set = func(k, v int) {
					var err error
					if v%2 == 0 {
						err = m.Release(k)
					} else {
						err = m.Error(k, fail)
					}
					if err != nil {
						c.Violate("Release or Error of key %d returned %v", k, err)
					}
				}
			}
			rounds := 1 + c.R.IntN(4)
			for r := 0; r < rounds; r++ {
				n := 60 + c.R.IntN(900)
				if c.R.IntN(8) == 0 {
					n = 1000 + c.R.IntN(3000)
				}
				last := r == rounds-1 && c.R.IntN(2) == 0
				end, want, v := tmo, 0, 0
				if last {
					end = 1 + time.Duration(c.R.Int64N(int64(tmo)-1))
					v = 5 + c.R.IntN(2)
					want = v
				}
				at := []time.Duration{0}
				for i := 1; i < n; i++ {
					at = append(at, time.Duration(c.R.Int64N(int64(end))))
				}
				slices.Sort(at)
				start := time.Now()
				var as []*answer
				for _, t := range at {
					time.Sleep(time.Until(start.Add(t)))
					a := &answer{k: 1}
					as = append(as, a)
					go c.Guard(func() {
						a.v, a.err = wait(1)
						a.at = time.Now()
						a.done.Store(true)
					})
					if t == 0 {
						synctest.Wait()
					}
				}
				synctest.Wait()
				for i, a := range as {
					if a.done.Load() {
						c.Violate("%s timeout %v round %d: waiter %d of %d, come at %v, returned %d %v at %v", kind, tmo, r, i, n, at[i], a.v, a.err, a.at.Sub(start))
					}
				}
				time.Sleep(time.Until(start.Add(end)))
				if last {
					set(1, v)
				}
				synctest.Wait()
				for i, a := range as {
					ok := a.done.Load() && a.at.Sub(start) == end
					if ok {
						switch {
						case kind != "holder":
							ok = a.v == want
						case !last:
							ok = hmKind(ctx, "timeout", nil, a.err)
						case v%2 == 0:
							ok = a.err == nil
						default:
							ok = a.err == fail
						}
					}
					if !ok {
						c.Violate("%s timeout %v round %d: waiter %d of %d, come at %v, has returned=%v %d %v at %v; the round ended at %v, set=%v", kind, tmo, r, i, n, at[i], a.done.Load(), a.v, a.err, a.at.Sub(start), end, last)
					}
				}
				c.Events("waiters of crowds judged", n)
				c.Max("waiters of one round", n)
				if kind != "response" {
					time.Sleep(ttl)
				}
				time.Sleep(ms)
				synctest.Wait()
			}
			c.Distinct("crowd", kind, tmo, ttl, rounds)
			cancel()
		})
	}
}
