package waits

import (
	"context"
	"fmt"
	"math/rand/v2"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"
)

// deliverMany: hundreds of keys, each with waiters before and after its Sets.
func deliverMany(mk maker) func(c *kit.Case) {
	return func(c *kit.Case) {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		m := mk(c, ctx)
		keys, n := 100+c.R.IntN(400), 4+c.R.IntN(8)
		got := make([]map[int]int, n)
		gap := c.R.IntN(keys)
		c.Go(2*n, func(g int, r *rand.Rand) {
			if g >= n { // every setter sets every key
				for j := 0; j < keys; j++ {
					k := (j + gap*(g%2)) % keys
					m.Set(k, k*100+g)
				}
				return
			}
			a := map[int]int{}
			off := r.IntN(keys)
			for j := 0; j < keys; j++ {
				k := (j + off) % keys
				a[k] = m.Wait(k)
			}
			got[g] = a
		})
		for k := 0; k < keys; k++ {
			want := m.Wait(k)
			if want/100 != k || want%100 < n || want%100 >= 2*n {
				c.Violate("Wait(%d) returned %d, which was not set for it (%d keys)", k, want, keys)
			}
			for g := range got {
				if got[g][k] != want {
					c.Violate("key %d of %d: waiter %d got %d, another %d", k, keys, g, got[g][k], want)
				}
			}
		}
		c.Events("answers judged", keys*n)
		c.Max("keys of one map", keys)
		c.Distinct("many", keys, n, c.Idx)
	}
}

// wmMass: hundreds of keys waited for, answered and expiring at the same times.
func wmMass(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		keys, per := 50+c.R.IntN(500), 1+c.R.IntN(3)
		if c.Idx%8 == 5 {
			keys, per = 1100+c.R.IntN(5000), 1
		} else if c.R.IntN(4) == 0 {
			keys, per = 1+c.R.IntN(3), 200+c.R.IntN(900)
		}
		req, ttl := time.Duration(2+c.R.IntN(5000))*ms, time.Duration(2+c.R.IntN(5000))*ms
		m := typed.NewWaitMap(c.R).WithRequestTimeout(req).WithResponseTtl(ttl).WithContext(ctx).Build()
		var as []*answer
		for i := 0; i < keys*per; i++ {
			as = append(as, waitFor(c, m, i%keys))
		}
		synctest.Wait()
		start := time.Now()
		if n := m.Count(); n != keys {
			c.Violate("Count %d with %d keys being waited for", n, keys)
		}
		time.Sleep(req - ms)
		for k := 0; k < keys; k += 2 {
			m.Set(k, k+1)
		}
		synctest.Wait()
		for _, a := range as {
			if a.done.Load() != (a.k%2 == 0) || a.done.Load() && (a.v != a.k+1 || a.at.Sub(start) != req-ms) {
				c.Violate("%d keys, every second one set 1 ms before the timeout of %v: Wait(%d) answered=%v %d", keys, req, a.k, a.done.Load(), a.v)
			}
		}
		stop := c.R.IntN(3) == 0
		if stop {
			cancel()
		}
		time.Sleep(ms)
		synctest.Wait()
		want := req
		if stop {
			want = req - ms
		}
		for _, a := range as {
			if !a.done.Load() || a.k%2 == 1 && (a.v != 0 || a.at.Sub(start) != want) {
				c.Violate("Wait(%d), one of %d not set, answered=%v %d at %v; timeout %v, cancelled %v", a.k, keys, a.done.Load(), a.v, a.at.Sub(start), req, stop)
			}
		}
		if n := m.Count(); !stop && n != keys || stop && n != 0 {
			c.Violate("Count %d with %d responses stored, cancelled: %v", n, keys, stop)
		}
		if !stop {
			time.Sleep(ttl - ms - ms/2)
			synctest.Wait()
			for k := 0; k < keys; k++ {
				if v := m.Wait(k); v != 0 && v != k+1 || v == 0 && k%2 == 0 {
					c.Violate("stored response of key %d is %d", k, v)
				}
			}
			time.Sleep(ms)
			synctest.Wait()
			if n := m.Count(); n != keys/2 {
				c.Violate("Count %d when the %d keys that timed out are stored", n, keys/2)
			}
			time.Sleep(ms)
			synctest.Wait()
			if n := m.Count(); n != 0 {
				c.Violate("Count %d after everything expired", n)
			}
		}
		c.Events("answers judged", len(as))
		c.Max("keys at once", keys)
		c.Distinct("mass", keys, per, req, ttl, stop)
	})
}

// rmMass does the same to a ResponseMap.
func rmMass(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		keys, per := 50+c.R.IntN(500), 1+c.R.IntN(3)
		if c.Idx%8 == 5 {
			keys, per = 1100+c.R.IntN(5000), 1
		} else if c.R.IntN(4) == 0 {
			keys, per = 1+c.R.IntN(3), 200+c.R.IntN(900)
		}
		resp := time.Duration(2+c.R.IntN(5000)) * ms
		clr := time.Duration(10000+c.R.IntN(5000)) * ms
		m := typed.NewResponseMap(c.R, ctx).WithResponseTimeout(resp).WithClearTimeout(clr).Build()
		begin := time.Now()
		time.Sleep(ms)
		var as []*answer
		for i := 0; i < keys*per; i++ {
			as = append(as, waitFor(c, m, i%keys))
		}
		synctest.Wait()
		start := time.Now()
		time.Sleep(resp - ms)
		for k := 0; k < keys; k += 2 {
			m.Set(k, k+1)
		}
		synctest.Wait()
		for _, a := range as {
			if a.done.Load() != (a.k%2 == 0) || a.done.Load() && (a.v != a.k+1 || a.at.Sub(start) != resp-ms) {
				c.Violate("%d keys, every second one set 1 ms before the timeout of %v: Wait(%d) answered=%v %d", keys, resp, a.k, a.done.Load(), a.v)
			}
		}
		time.Sleep(ms)
		synctest.Wait()
		for _, a := range as {
			if !a.done.Load() || a.k%2 == 1 && (a.v != 0 || a.at.Sub(start) != resp) {
				c.Violate("Wait(%d), one of %d not set, answered=%v %d at %v; timeout %v", a.k, keys, a.done.Load(), a.v, a.at.Sub(start), resp)
			}
		}
		// until cleared, every key that was set keeps its value, whatever comes
		for k := range c.R.IntN(5) {
			m.Set(-k-1, 1)
		}
		time.Sleep(time.Until(begin.Add(2*clr - ms)))
		synctest.Wait()
		for k := 0; k < keys; k += 2 {
			if v := m.Wait(k); v != k+1 {
				c.Violate("Wait(%d) returned %d before any clearing run, want %d", k, v, k+1)
			}
		}
		// at the second run all are older than the clear timeout
		time.Sleep(2 * ms)
		synctest.Wait()
		for k := 0; k < keys; k++ {
			m.Set(k, -k-1)
		}
		for k := 0; k < keys; k++ {
			if v := m.Wait(k); v != -k-1 {
				c.Violate("Wait(%d) returned %d after a clearing run and a Set of %d: the key was not forgotten", k, v, -k-1)
			}
		}
		c.Events("answers judged", len(as)+2*keys)
		c.Max("keys at once", keys)
		c.Distinct("mass", keys, per, resp, clr)
		cancel()
	})
}

// hmMass does the same to a HolderMap.
func hmMass(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		keys, per := 50+c.R.IntN(500), 1+c.R.IntN(3)
		if c.Idx%8 == 5 {
			keys, per = 1100+c.R.IntN(5000), 1
		} else if c.R.IntN(4) == 0 {
			keys, per = 1+c.R.IntN(3), 200+c.R.IntN(800)
		}
		tmo, ttl := time.Duration(4+c.R.IntN(5000))*ms, time.Duration(4+c.R.IntN(5000))*ms
		m := typed.NewHolderMap(c.R).WithTimeout(tmo).WithTTL(ttl).WithContext(ctx).Build()
		var as []*answer
		for i := 0; i < keys*per; i++ {
			a := &answer{k: i % keys}
			as = append(as, a)
			go c.Guard(func() {
				a.err = m.Wait(a.k, a.k+1)
				a.at = time.Now()
				a.done.Store(true)
			})
		}
		synctest.Wait()
		start := time.Now()
		if n := m.Count(); n != keys {
			c.Violate("Count %d, want %d", n, keys)
		}
		failure := kit.AnyErr(c.R, "failure")
		time.Sleep(tmo - ms)
		for k := 0; k < keys; k++ {
			var err error
			switch k % 3 {
			case 0:
				err = m.Release(k)
			case 1:
				err = m.Error(k, failure)
			}
			if err != nil {
				c.Violate("Release or Error of key %d returned %v", k, err)
			}
		}
		synctest.Wait()
		stop := c.R.IntN(3) == 0
		if stop {
			cancel()
		}
		time.Sleep(ms)
		synctest.Wait()
		judge := func(k int, err error) bool {
			switch {
			case k%3 == 0:
				return err == nil
			case k%3 == 1:
				return err == failure
			case stop:
				return hmKind(ctx, "cancel", nil, err)
			}
			return hmKind(ctx, "timeout", nil, err)
		}
		for _, a := range as {
			at := tmo - ms
			if a.k%3 == 2 && !stop {
				at = tmo
			}
			if !a.done.Load() || !judge(a.k, a.err) || a.at.Sub(start) != at {
				c.Violate("Wait(%d), one of %d keys with %d waiters each: returned=%v %v at %v, due at %v", a.k, keys, per, a.done.Load(), a.err, a.at.Sub(start), at)
			}
		}
		time.Sleep(ttl - ms - ms/2)
		synctest.Wait()
		for k := 0; k < keys; k++ {
			if obj, err := m.Get(k); obj != k+1 || !judge(k, err) {
				c.Violate("Get(%d) returned %d, %v within the TTL", k, obj, err)
			}
			if err := m.Wait(k, 99); !judge(k, err) {
				c.Violate("Wait(%d) returned %v within the TTL", k, err)
			}
		}
		if n := m.Count(); n != keys {
			c.Violate("Count %d, want %d", n, keys)
		}
		time.Sleep(2 * ms)
		synctest.Wait()
		if n := m.Count(); n != 0 {
			c.Violate("Count %d after every TTL", n)
		}
		c.Events("outcomes judged", len(as)+2*keys)
		c.Max("keys at once", keys)
		c.Distinct("mass", keys, per, tmo, ttl, fmt.Sprint(stop))
	})
}
