package waits

import (
	"context"
	"fmt"
	"math/rand/v2"
	"slices"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"
)

const ms = time.Millisecond

// off is a duration off the grid of units on which operations happen.
func off(r *rand.Rand, unit time.Duration, n int) time.Duration {
	return time.Duration(r.IntN(n))*unit + unit/10*3
}

// timeout is off the grid as well, but for one time in eight, when it is nothing
// or less: what would wait then does not.
func timeout(r *rand.Rand, unit time.Duration, n int) time.Duration {
	switch r.IntN(16) {
	case 0:
		return 0
	case 1:
		return -time.Duration(r.IntN(n)+1) * unit
	}
	return off(r, unit, n)
}

// after is the moment d later, or now.
func after(t time.Time, d time.Duration) time.Time { return t.Add(max(d, 0)) }

// scale says how big a timeline is.
type scale struct {
	keys, steps int
	unit        time.Duration
	long        int // factor of the timeouts
	gaps        []int
}

func small(c *kit.Case, steps int) scale {
	return scale{1 + c.R.IntN(3), steps, ms, 1, nil}
}

// large makes timelines of many keys, seldom pausing, in all units of time.
func large(c *kit.Case) scale {
	return scale{5 + c.R.IntN(60), 100 + c.R.IntN(150), units[c.R.IntN(len(units))], 1 + c.R.IntN(3), []int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 5}}
}

// scaled makes small timelines in all units of time.
func scaled(c *kit.Case, steps int) scale {
	x := small(c, steps)
	x.unit = units[c.R.IntN(len(units))]
	return x
}

var units = []time.Duration{20 * time.Microsecond, ms, 70 * ms, time.Second, 5 * time.Minute, 24 * time.Hour}

func (x scale) gap(r *rand.Rand, small []int) int {
	if x.gaps != nil {
		small = x.gaps
	}
	return small[r.IntN(len(small))]
}

// wmRound is a key being waited for, wmStored a response being kept.
type wmRound struct {
	deadline time.Time
	ws       []*answer
}
type wmStored struct {
	v   int
	end time.Time
}

// wmTimeline runs operations at virtual times on a 1 ms grid, with timeouts off
// the grid, and compares results, return times and Count with the reference.
func wmTimeline(c *kit.Case) { wmTimelineOf(c, small(c, 35)) }

func wmTimelineOf(c *kit.Case, x scale) {
	ms := x.unit
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		req, ttl := timeout(c.R, ms, 8*x.long), timeout(c.R, ms, 12*x.long)
		m := typed.NewWaitMap(c.R).WithRequestTimeout(req).WithResponseTtl(ttl).WithContext(ctx).Build()
		start := time.Now()
		rounds, stored := map[int]*wmRound{}, map[int]*wmStored{}
		cfg := fmt.Sprintf("requestTimeout=%v ttl=%v", req, ttl)
		sig := cfg
		when := func() string { return fmt.Sprint("t=", time.Since(start)) }
		expect := func(a *answer, v int, at time.Time) {
			if !a.done.Load() {
				c.Violate("%s %s: Wait(%d) is not answered, want %d at %v", cfg, when(), a.k, v, at.Sub(start))
			}
			if a.v != v || !a.at.Equal(at) {
				c.Violate("%s %s: Wait(%d) returned %d at %v, want %d at %v", cfg, when(), a.k, a.v, a.at.Sub(start), v, at.Sub(start))
			}
			c.Events("answers judged", 1)
		}
		settle := func(what string) {
			synctest.Wait()
			for k, r := range rounds {
				for _, a := range r.ws {
					if a.done.Load() {
						c.Violate("%s %s after %s: Wait(%d) returned %d at %v, before its timeout and without a Set", cfg, when(), what, k, a.v, a.at.Sub(start))
					}
				}
			}
			if n := m.Count(); n != len(rounds)+len(stored) {
				c.Violate("%s %s after %s: Count %d, want %d waited for and %d stored", cfg, when(), what, n, len(rounds), len(stored))
			}
		}
		pass := func() { // what happened by now
			for again := true; again; {
				again = false
				now := time.Now()
				for k, r := range rounds {
					if !now.Before(r.deadline) {
						for _, a := range r.ws {
							expect(a, 0, r.deadline)
						}
						stored[k] = &wmStored{0, after(r.deadline, ttl)}
						delete(rounds, k)
						again = true
						c.Events("timeouts judged", 1)
					}
				}
				for k, s := range stored {
					if !now.Before(s.end) {
						delete(stored, k)
						c.Events("expiries judged", 1)
					}
				}
			}
		}
		keys, steps := x.keys, x.steps
		stop := 10000
		if c.R.IntN(3) == 0 {
			stop = c.R.IntN(steps)
		}
		for j := 0; j < steps && j < stop; j++ {
			for gap := x.gap(c.R, []int{0, 0, 0, 1, 1, 2, 3, 6}); gap > 0; gap-- {
				time.Sleep(ms)
				synctest.Wait()
				pass()
				settle("a pause")
			}
			k := c.R.IntN(keys)
			now := time.Now()
			if c.R.IntN(5) < 3 {
				c.Logf("%s Wait(%d)", when(), k)
				a := waitFor(c, m, k)
				synctest.Wait()
				if s := stored[k]; s != nil {
					expect(a, s.v, now)
				} else {
					if rounds[k] == nil {
						rounds[k] = &wmRound{deadline: after(now, req)}
					}
					rounds[k].ws = append(rounds[k].ws, a)
				}
				pass()
				settle("Wait")
				sig += fmt.Sprint("w", k, now.Sub(start))
			} else {
				v := j + 1
				if c.R.IntN(8) == 0 {
					v = 0
				}
				c.Logf("%s Set(%d,%d)", when(), k, v)
				m.Set(k, v)
				synctest.Wait()
				if stored[k] == nil {
					stored[k] = &wmStored{v, after(now, ttl)}
					if r := rounds[k]; r != nil {
						for _, a := range r.ws {
							expect(a, v, now)
						}
						delete(rounds, k)
					}
				}
				pass()
				settle("Set")
				sig += fmt.Sprint("s", k, now.Sub(start))
			}
		}
		if stop == 10000 {
			for j := 0; j < 60*x.long && len(rounds)+len(stored) > 0; j++ {
				time.Sleep(ms)
				synctest.Wait()
				pass()
				settle("the end")
			}
			time.Sleep(10000 * ms)
			settle("long")
		}
		// cancellation answers at once and forgets
		now := time.Now()
		c.Logf("%s cancel", when())
		cancel()
		synctest.Wait()
		for _, r := range rounds {
			for _, a := range r.ws {
				expect(a, 0, now)
			}
		}
		clear(rounds)
		clear(stored)
		settle("cancel")
		for j := 0; j < 4; j++ {
			k := c.R.IntN(keys)
			v := 0
			if c.R.IntN(3) == 0 {
				v = 500 + j
				m.Set(k, v)
			}
			a := waitFor(c, m, k)
			synctest.Wait()
			if !a.done.Load() || !a.at.Equal(time.Now()) || (a.v != 0 && a.v != v) {
				c.Violate("%s: after the cancellation Wait(%d) is answered=%v %d", cfg, k, a.done.Load(), a.v)
			}
			settle("cancelled use")
			if c.R.IntN(2) == 0 {
				time.Sleep(ms)
			}
		}
		time.Sleep(10000 * ms)
		settle("cancelled long")
		c.Events("timeline steps judged", min(stop, steps))
		c.Distinct(sig)
		c.Sample(func() string { return sig })
	})
}

// wmInstant lets sets, timeouts, expiries and the cancellation fall on the same
// instant, where either order is fine but half-way outcomes are not.
func wmInstant(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		req, ttl := time.Duration(1+c.R.IntN(4))*ms, time.Duration(1+c.R.IntN(6))*ms
		m := typed.NewWaitMap(c.R).WithRequestTimeout(req).WithResponseTtl(ttl).WithContext(ctx).Build()
		for round := 0; round < 3; round++ {
			n, s := 1+c.R.IntN(5), 1+c.R.IntN(3)
			t0 := time.Now()
			var ws []*answer
			for range n {
				ws = append(ws, waitFor(c, m, 1))
			}
			synctest.Wait()
			var set []int
			for g := range s {
				v := 10*(round+1) + g
				set = append(set, v)
				go c.Guard(func() {
					time.Sleep(req)
					m.Set(1, v)
				})
			}
			late := make(chan int, 1)
			go c.Guard(func() { // comes at the very moment of the decision
				time.Sleep(req)
				late <- m.Wait(1)
			})
			time.Sleep(req)
			synctest.Wait()
			r := ws[0].v
			if r != 0 && !slices.Contains(set, r) {
				c.Violate("Wait returned %d, the Sets of the round were %v", r, set)
			}
			for _, a := range ws {
				if !a.done.Load() || a.v != r || a.at.Sub(t0) != req {
					c.Violate("waiters of one round: answered=%v %d at %v, another got %d; timeout %v", a.done.Load(), a.v, a.at.Sub(t0), r, req)
				}
			}
			select {
			case v := <-late:
				if v != r {
					c.Violate("a Wait at the moment of the decision returned %d, the waiters got %d", v, r)
				}
			default:
				c.Violate("a Wait at the moment of the decision (%v after the first) is not answered", req)
			}
			// a response stays what it is for its whole time
			time.Sleep(ttl - time.Microsecond)
			m.Set(1, 9999)
			if v := m.Wait(1); v != r {
				c.Violate("stored response %d became %d", r, v)
			}
			// at its end, waiters get the old response or start afresh
			var edge []*answer
			for range 3 {
				a := &answer{}
				edge = append(edge, a)
				go c.Guard(func() {
					time.Sleep(time.Microsecond)
					a.v = m.Wait(1)
					a.at = time.Now()
					a.done.Store(true)
				})
			}
			time.Sleep(time.Microsecond)
			synctest.Wait()
			fresh := 0
			for _, a := range edge {
				if !a.done.Load() {
					fresh++
				} else if a.v != r {
					c.Violate("a Wait at the end of the TTL returned %d, the stored response was %d", a.v, r)
				}
			}
			if got, want := m.Count(), min(fresh, 1); got != want {
				c.Violate("Count %d with %d waiters after the TTL", got, fresh)
			}
			c.Distinct(round, n, s, r, fresh)
			c.Events("waits judged at the edge", n+4)
			if fresh == 0 {
				continue
			}
			end := time.Now()
			if c.R.IntN(2) == 0 { // cancellation at the very timeout
				go func() { time.Sleep(req); cancel() }()
			}
			time.Sleep(req)
			synctest.Wait()
			for _, a := range edge {
				if !a.done.Load() || (a.at.After(end) && (a.v != 0 || a.at.Sub(end) != req)) {
					c.Violate("a Wait of the new round: answered=%v %d after %v, timeout %v", a.done.Load(), a.v, a.at.Sub(end), req)
				}
			}
			if ctx.Err() != nil {
				if n := m.Count(); n != 0 {
					c.Violate("Count %d after the cancellation", n)
				}
				return
			}
			time.Sleep(ttl + ms)
			synctest.Wait()
			if n := m.Count(); n != 0 {
				c.Violate("Count %d after the TTL of everything", n)
			}
		}
		cancel()
	})
}

// wmChurn races rounds that time out, are answered, expire and are cancelled.
func wmChurn(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	us := time.Microsecond
	m := typed.NewWaitMap(c.R).WithRequestTimeout(time.Duration(1+c.R.IntN(300)) * us).WithResponseTtl(time.Duration(1+c.R.IntN(200)) * us).WithContext(ctx).Build()
	n, keys := 2+c.R.IntN(6), 1+c.R.IntN(3)
	end := c.R.IntN(3) == 0
	type seen struct {
		k, v int
		at   int64
	}
	waits, sets := make([][]seen, n), make([][]seen, n)
	c.Go(n, func(g int, r *rand.Rand) {
		for j := 0; j < 15; j++ {
			k := r.IntN(keys)
			if r.IntN(3) == 0 {
				v := g*100 + j + 1
				sets[g] = append(sets[g], seen{k, v, kit.Now()})
				m.Set(k, v)
			} else {
				v := m.Wait(k)
				waits[g] = append(waits[g], seen{k, v, kit.Now()})
			}
			if end && g == 0 && j == 10 {
				cancel()
			}
			m.Count()
		}
	})
	for _, w := range slices.Concat(waits...) {
		if w.v == 0 {
			continue
		}
		ok := slices.ContainsFunc(slices.Concat(sets...), func(s seen) bool { return s.k == w.k && s.v == w.v && s.at <= w.at })
		if !ok {
			c.Violate("Wait(%d) returned %d, which was not set for it", w.k, w.v)
		}
	}
	c.Events("churned waits judged", len(slices.Concat(waits...)))
	c.Distinct(waits)
}

func init() {
	kit.Register(&kit.Prop{ID: "C14",
		Rule: "a distinct shape is a timeline (configuration and operations with their virtual times) judged step by step, or the outcome of events falling on one instant",
		Parts: []kit.Part{
			{Name: "timeline", N: 1500, Fn: wmTimeline},
			{Name: "scales", N: 400, Fn: func(c *kit.Case) { wmTimelineOf(c, scaled(c, 35)) }},
			{Name: "large", N: 60, Fn: func(c *kit.Case) { wmTimelineOf(c, large(c)) }},
			{Name: "mass", N: 24, Stress: true, Fn: wmMass},
			{Name: "crowd", N: 60, Fn: crowd("wait")},
			{Name: "instant", N: 1500, Stress: true, Fn: wmInstant},
			{Name: "churn", N: 600, Stress: true, Fn: wmChurn},
		}})
}
