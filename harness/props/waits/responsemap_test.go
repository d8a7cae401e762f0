package waits

import (
	"context"
	"fmt"
	"math/rand/v2"
	"slices"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"
)

// rmHolder is a known key: since when, its value if it has one, and the round
// of waiters with its deadline.
type rmHolder struct {
	since    time.Time
	has      bool
	v        int
	deadline time.Time
	ws       []*answer
}

// rmTimeline compares results and return times with the reference, step by
// step in virtual time, like wmTimeline.
func rmTimeline(c *kit.Case) { rmTimelineOf(c, small(c, 35)) }

func rmTimelineOf(c *kit.Case, x scale) {
	ms := x.unit
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		// .37 keeps clearing runs off the response timeouts and the operations
		resp := timeout(c.R, ms, 8*x.long)
		clr := time.Duration(1+c.R.IntN(10*x.long))*ms + ms/100*37
		if c.R.IntN(3) == 0 {
			resp = off(c.R, ms, 30*x.long)
		}
		m := typed.NewResponseMap(c.R, ctx).WithResponseTimeout(resp).WithClearTimeout(clr).Build()
		start := time.Now()
		next := start.Add(clr)
		hs := map[int]*rmHolder{}
		cfg := fmt.Sprintf("responseTimeout=%v clearTimeout=%v", resp, clr)
		sig := cfg
		when := func() string { return fmt.Sprint("t=", time.Since(start)) }
		expect := func(a *answer, v int, at time.Time) {
			if !a.done.Load() {
				c.Violate("%s %s: Wait(%d) is not answered, want %d at %v", cfg, when(), a.k, v, at.Sub(start))
			}
			if a.v != v || !a.at.Equal(at) {
				c.Violate("%s %s: Wait(%d) returned %d at %v, want %d at %v", cfg, when(), a.k, a.v, a.at.Sub(start), v, at.Sub(start))
			}
			c.Events("answers judged", 1)
		}
		settle := func(what string) {
			synctest.Wait()
			for k, h := range hs {
				for _, a := range h.ws {
					if a.done.Load() {
						c.Violate("%s %s after %s: Wait(%d) returned %d at %v without timeout, clearing or Set", cfg, when(), what, k, a.v, a.at.Sub(start))
					}
				}
			}
		}
		pass := func() {
			for now := time.Now(); ; {
				// the next thing due
				due := next
				key := -1
				for k, h := range hs {
					if len(h.ws) > 0 && h.deadline.Before(due) {
						due, key = h.deadline, k
					}
				}
				if now.Before(due) {
					return
				}
				if key >= 0 {
					for _, a := range hs[key].ws {
						expect(a, 0, due)
					}
					hs[key].ws = nil
					c.Events("timeouts judged", 1)
					continue
				}
				for k, h := range hs {
					if due.After(h.since.Add(clr)) {
						for _, a := range h.ws {
							expect(a, 0, due)
						}
						delete(hs, k)
						c.Events("clearings judged", 1)
					}
				}
				next = next.Add(clr)
			}
		}
		get := func(k int) *rmHolder {
			if hs[k] == nil {
				hs[k] = &rmHolder{since: time.Now()}
			}
			return hs[k]
		}
		keys, steps := x.keys, x.steps
		setOdds := []int{2, 8}[c.R.IntN(2)]
		for j := 0; j < steps; j++ {
			gap := x.gap(c.R, []int{0, 0, 0, 1, 1, 2, 3, 6})
			if j == 0 {
				gap = 1 // nothing is created at the moment the map is
			}
			for ; gap > 0; gap-- {
				time.Sleep(ms)
				synctest.Wait()
				pass()
				settle("a pause")
			}
			k := c.R.IntN(keys)
			now := time.Now()
			if c.R.IntN(setOdds) > 0 {
				c.Logf("%s Wait(%d)", when(), k)
				a := waitFor(c, m, k)
				synctest.Wait()
				h := get(k)
				if h.has {
					expect(a, h.v, now)
				} else {
					if len(h.ws) == 0 {
						h.deadline = after(now, resp)
					}
					h.ws = append(h.ws, a)
				}
				sig += fmt.Sprint("w", k, now.Sub(start))
			} else {
				v := j + 1
				if c.R.IntN(8) == 0 {
					v = 0
				}
				c.Logf("%s Set(%d,%d)", when(), k, v)
				m.Set(k, v)
				synctest.Wait()
				if h := get(k); !h.has {
					h.has, h.v = true, v
					for _, a := range h.ws {
						expect(a, v, now)
					}
					h.ws = nil
				}
				sig += fmt.Sprint("s", k, now.Sub(start))
			}
			pass()
			settle("step")
		}
		if c.R.IntN(2) == 0 {
			for j := 0; j < 60*x.long && len(hs) > 0; j++ {
				time.Sleep(ms)
				synctest.Wait()
				pass()
				settle("the end")
			}
		}
		now := time.Now()
		c.Logf("%s cancel", when())
		cancel()
		synctest.Wait()
		for _, h := range hs {
			for _, a := range h.ws {
				expect(a, 0, now)
			}
			h.ws = nil
		}
		for j := 0; j < 4; j++ {
			k := c.R.IntN(keys + 1)
			had, v := false, 0
			if h := hs[k]; h != nil && h.has {
				had, v = true, h.v
			}
			nv := 0
			if c.R.IntN(3) == 0 {
				nv = 500 + j
				m.Set(k, nv)
				if !had { // whether it counts is not said
					hs[k] = &rmHolder{has: true, v: nv}
				}
			}
			a := waitFor(c, m, k)
			synctest.Wait()
			if !a.done.Load() || !a.at.Equal(time.Now()) || (a.v != 0 && a.v != v && a.v != nv) {
				c.Violate("%s: after the cancellation Wait(%d) is answered=%v %d", cfg, k, a.done.Load(), a.v)
			}
		}
		c.Events("timeline steps judged", steps)
		c.Distinct(sig)
		c.Sample(func() string { return sig })
		// the bubble only ends when the map left no goroutine behind
	})
}

// rmInstant lets sets, timeouts, clearing runs and the cancellation fall on the
// same instant.
func rmInstant(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		resp := time.Duration(1+c.R.IntN(5)) * ms
		clr := time.Duration(1+c.R.IntN(8)) * ms
		m := typed.NewResponseMap(c.R, ctx).WithResponseTimeout(resp).WithClearTimeout(clr).Build()
		start := time.Now()
		type ev struct {
			k, v   int
			t0, t1 time.Duration
			done   bool
		}
		n := 10 + c.R.IntN(30)
		waits, sets := make([]ev, n), make([]ev, n)
		for i := range n {
			at := time.Duration(c.R.IntN(20)) * ms
			k := c.R.IntN(2)
			go c.Guard(func() {
				time.Sleep(at)
				if i%4 == 0 {
					sets[i] = ev{k: k, v: i + 1, t0: time.Since(start)}
					m.Set(k, i+1)
					sets[i].t1 = time.Since(start)
					sets[i].done = true
					return
				}
				waits[i] = ev{k: k, t0: time.Since(start)}
				v := m.Wait(k)
				waits[i].v, waits[i].t1, waits[i].done = v, time.Since(start), true
			})
		}
		stop := time.Hour
		if c.R.IntN(2) == 0 {
			stop = time.Duration(c.R.IntN(20)) * ms
			time.Sleep(stop)
			cancel()
		}
		time.Sleep(20*ms + resp)
		synctest.Wait()
		nn := 0
		for i, w := range waits {
			if i%4 == 0 {
				if s := sets[i]; !s.done || s.t0 != s.t1 {
					c.Violate("Set(%d,%d) did not return at once", s.k, s.v)
				}
				continue
			}
			nn++
			if !w.done {
				c.Violate("Wait(%d) of %v is not answered, response timeout %v", w.k, w.t0, resp)
			}
			if w.t1-w.t0 > resp || w.t1 > max(stop, w.t0) {
				c.Violate("Wait(%d) of %v returned only at %v; response timeout %v, cancelled at %v", w.k, w.t0, w.t1, resp, stop)
			}
			if w.v == 0 {
				continue
			}
			s := sets[w.v-1]
			if s.k != w.k || s.t0 > w.t1 {
				c.Violate("Wait(%d) of %v returned %d at %v, which was set for %d at %v", w.k, w.t0, w.v, w.t1, s.k, s.t0)
			}
			// a key is gone at the latest at the second run after it was made
			if stop == time.Hour && w.t0-s.t0 > 2*clr {
				c.Violate("Wait(%d) of %v returned %d of %v, clear timeout %v", w.k, w.t0, w.v, s.t0, clr)
			}
		}
		c.Events("waits judged at the edge", nn)
		c.Distinct(resp, clr, stop, fmt.Sprint(waits))
		cancel()
	})
}

// rmChurn races rounds that time out, are answered, cleared and cancelled.
func rmChurn(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	us := time.Microsecond
	m := typed.NewResponseMap(c.R, ctx).WithResponseTimeout(time.Duration(1+c.R.IntN(300)) * us).WithClearTimeout(time.Duration(20+c.R.IntN(200)) * us).Build()
	n, keys := 2+c.R.IntN(6), 1+c.R.IntN(3)
	end := c.R.IntN(3) == 0
	type seen struct {
		k, v int
		at   int64
	}
	waits, sets := make([][]seen, n), make([][]seen, n)
	c.Go(n, func(g int, r *rand.Rand) {
		for j := 0; j < 15; j++ {
			k := r.IntN(keys)
			if r.IntN(3) == 0 {
				v := g*100 + j + 1
				sets[g] = append(sets[g], seen{k, v, kit.Now()})
				m.Set(k, v)
			} else {
				v := m.Wait(k)
				waits[g] = append(waits[g], seen{k, v, kit.Now()})
			}
			if end && g == 0 && j == 10 {
				cancel()
			}
		}
	})
	for _, w := range slices.Concat(waits...) {
		if w.v == 0 {
			continue
		}
		ok := slices.ContainsFunc(slices.Concat(sets...), func(s seen) bool { return s.k == w.k && s.v == w.v && s.at <= w.at })
		if !ok {
			c.Violate("Wait(%d) returned %d, which was not set for it", w.k, w.v)
		}
	}
	c.Events("churned waits judged", len(slices.Concat(waits...)))
	c.Distinct(waits)
}

func init() {
	kit.Register(&kit.Prop{ID: "C16",
		Rule: "a distinct shape is a timeline (configuration and operations with their virtual times) judged step by step, or the outcome of events falling on one instant",
		Parts: []kit.Part{
			{Name: "timeline", N: 1500, Fn: rmTimeline},
			{Name: "scales", N: 400, Fn: func(c *kit.Case) { rmTimelineOf(c, scaled(c, 35)) }},
			{Name: "large", N: 60, Fn: func(c *kit.Case) { rmTimelineOf(c, large(c)) }},
			{Name: "mass", N: 24, Stress: true, Fn: rmMass},
			{Name: "crowd", N: 60, Fn: crowd("response")},
			{Name: "instant", N: 1500, Stress: true, Fn: rmInstant},
			{Name: "churn", N: 600, Stress: true, Fn: rmChurn},
		}})
}
