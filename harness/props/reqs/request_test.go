package reqs

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"

	"github.com/axgrid/axutils/collections"
)

const ms = time.Millisecond

// sweep is how often RequestMap cleans.
const sweep = 100 * ms

// reply is what one caller got.
type reply struct {
	k    int
	v    int
	err  error
	at   time.Time
	done atomic.Bool
}

// run is one invocation of a request function.
type run struct {
	id, k    int
	from, to time.Time
	v        int
	err      error
	ended    bool
	noErr    bool // made by GetOrCreate
	callers  []*reply
}

// rqTimeline issues requests of given durations at virtual times and compares
// invocations, results, return times and Count with the reference.
func rqTimeline(c *kit.Case, ttl time.Duration, step time.Duration, steps int) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		start := time.Now()
		flight, cache := map[int]*run{}, map[int]*run{}
		var init []*typed.Initial
		keys := 1 + c.R.IntN(4)
		for k := 0; k < keys; k++ {
			if c.R.IntN(4) > 0 {
				continue
			}
			for n := 1 + c.R.IntN(4)/3; n > 0; n-- { // of two for one key the later counts
				i := &typed.Initial{Key: k, Result: 9000 + 10*k + n}
				if c.R.IntN(4) == 0 {
					i.Result = 0
				}
				if c.R.IntN(2) == 0 {
					i.Err = kit.AnyErr(c.R, "initial")
				}
				init = append(init, i)
				cache[k] = &run{id: -1, k: k, to: start, v: i.Result, err: i.Err, ended: true}
			}
		}
		m := typed.NewRequestMap(c.R, ctx, ttl, init...)
		var mu sync.Mutex
		var started []*run
		cancelled := false
		when := func() string { return fmt.Sprint("ttl=", ttl, " t=", time.Since(start)) }
		sig := fmt.Sprint(ttl, len(init))
		expect := func(a *reply, r *run, at time.Time, plain bool) {
			if !a.done.Load() {
				c.Violate("%s: a request of %d is not answered, want %d, %v at %v", when(), a.k, r.v, r.err, at.Sub(start))
			}
			if a.v != r.v || !plain && a.err != r.err || !a.at.Equal(at) {
				c.Violate("%s: a request of %d returned %d, %v at %v; want %d, %v at %v", when(), a.k, a.v, a.err, a.at.Sub(start), r.v, r.err, at.Sub(start))
			}
			c.Events("answers judged", 1)
		}
		plain := map[*reply]bool{}
		pass := func() {
			synctest.Wait()
			now := time.Now()
			for k, r := range flight {
				if now.Before(r.to) {
					for _, a := range r.callers {
						if a.done.Load() {
							c.Violate("%s: a request of %d returned %d before the function had", when(), k, a.v)
						}
					}
					continue
				}
				for _, a := range r.callers {
					expect(a, r, r.to, plain[a])
				}
				delete(flight, k)
				cache[k] = r
			}
			sure, may := 0, 0
			for k, r := range cache {
				age := now.Sub(r.to)
				switch {
				case age < ttl:
					sure++
				case cancelled || age <= max(ttl, 0)+sweep:
					may++
				default:
					delete(cache, k)
					c.Events("expiries judged", 1)
				}
			}
			n := m.Count() - len(flight)
			if n < sure || n > sure+may {
				c.Violate("%s: Count %d with %d requests in flight, %d results younger than the TTL, %d due", when(), n+len(flight), len(flight), sure, may)
			}
			mu.Lock()
			if len(started) > 0 {
				c.Violate("%s: the function for %d ran without need", when(), started[0].k)
			}
			mu.Unlock()
		}
		id := 0
		stop := 10000
		if c.R.IntN(4) == 0 {
			stop = c.R.IntN(steps)
		}
		for j := 0; j < steps; j++ {
			for gap := []int{0, 0, 0, 1, 1, 2, 3, 7}[c.R.IntN(8)]; gap > 0; gap-- {
				time.Sleep(step)
				pass()
			}
			if j == stop {
				c.Logf("%s cancel", when())
				cancel()
				cancelled = true
				pass()
			}
			k := c.R.IntN(keys)
			now := time.Now()
			// .4 of a step: a function never ends while the driver acts
			d := time.Duration(c.R.IntN(6))*step + step*4/10
			if c.R.IntN(3) == 0 {
				d = 0
			}
			var e error
			if c.R.IntN(3) == 0 {
				e = kit.AnyErr(c.R, "failure %d", j)
			}
			v := j + 1
			if c.R.IntN(6) == 0 {
				v = 0
			}
			withErr := c.R.IntN(2) == 0
			if !withErr {
				e = nil
			}
			id++
			mine := id
			c.Logf("%s request %d: key %d, function takes %v and returns %d, %v (withErr=%v)", when(), mine, k, d, v, e, withErr)
			f := func(got int) (int, error) {
				if got != k {
					c.Violate("%s: the function for %d was called with %d", when(), k, got)
				}
				r := &run{id: mine, k: k, from: time.Now(), to: time.Now().Add(d), v: v, err: e}
				mu.Lock()
				started = append(started, r)
				mu.Unlock()
				time.Sleep(d)
				return v, e
			}
			a := &reply{k: k}
			plain[a] = !withErr
			go c.Guard(func() {
				if withErr {
					a.v, a.err = m.GetOrCreateWithErr(k, f)
				} else {
					a.v = m.GetOrCreate(k, func(k int) int { v, _ := f(k); return v })
				}
				a.at = time.Now()
				a.done.Store(true)
			})
			synctest.Wait()
			mu.Lock()
			ran := started
			started = nil
			mu.Unlock()
			if len(ran) > 1 || len(ran) == 1 && ran[0].id != mine {
				c.Violate("%s: request %d started functions %v", when(), mine, ran)
			}
			r, cached := flight[k], cache[k]
			switch {
			case r != nil:
				if len(ran) > 0 {
					c.Violate("%s: the function for %d runs again while one runs", when(), k)
				}
				r.callers = append(r.callers, a)
				sig += "j"
			case cached != nil && (now.Sub(cached.to) < ttl || len(ran) == 0):
				if len(ran) > 0 {
					c.Violate("%s: the function for %d runs again, its result is %v old", when(), k, now.Sub(cached.to))
				}
				expect(a, cached, now, !withErr)
				sig += "h"
			default: // unknown, or expired by now
				if len(ran) == 0 {
					c.Violate("%s: a request of %d did not call the function; answered=%v %d", when(), k, a.done.Load(), a.v)
				}
				delete(cache, k)
				r = ran[0]
				if d == 0 {
					expect(a, r, now, !withErr)
					cache[k] = r
				} else {
					r.callers = []*reply{a}
					flight[k] = r
				}
				sig += "c"
			}
			pass()
		}
		for j := 0; j < 12; j++ {
			time.Sleep(step)
			pass()
		}
		if len(flight) > 0 {
			c.Fatal("requests left in flight")
		}
		time.Sleep(max(ttl, 0) + sweep + step)
		pass()
		c.Events("timeline steps judged", steps)
		c.Distinct(sig)
		c.Sample(func() string { return sig })
	})
}

// rqCrowd has many callers race for a few keys whose results stay.
func rqCrowd(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	m := typed.NewRequestMap(c.R, ctx, time.Hour)
	n, keys := 2+c.R.IntN(8), 1+c.R.IntN(4)
	runs := make([]atomic.Int32, keys)
	want := make([]int, keys) // written by the one run
	werr := make([]error, keys)
	wrote := make([]bool, keys)
	spinFor := c.R.IntN(200)
	nest := c.R.IntN(3) == 0
	type got struct {
		k, v  int
		err   error
		plain bool
	}
	res := make([][]got, n)
	c.Go(n, func(g int, r *rand.Rand) {
		firstKey := r.IntN(keys)
		for j := 0; j < keys+2; j++ {
			k := (firstKey + j) % keys
			fail := r.IntN(2) == 0
			plain := r.IntN(2) == 0
			f := func(got int) (int, error) {
				if got != k {
					c.Violate("the function for %d was called with %d", k, got)
				}
				if n := runs[k].Add(1); n != 1 {
					c.Violate("the function of key %d ran %d times", k, n)
				}
				for range spinFor {
					runtime.Gosched()
				}
				if nest && k+1 < keys { // requests from within requests
					m.GetOrCreate(1000+k, func(int) int { return 1 })
					m.Count()
				}
				want[k] = g*100 + j + 1
				if fail && !plain {
					werr[k] = kit.AnyErr(r, "failure of %d", g)
				}
				wrote[k] = true
				return want[k], werr[k]
			}
			x := got{k: k, plain: plain}
			if plain {
				x.v = m.GetOrCreate(k, func(k int) int { v, _ := f(k); return v })
			} else {
				x.v, x.err = m.GetOrCreateWithErr(k, f)
			}
			res[g] = append(res[g], x)
		}
	})
	winners := ""
	for _, x := range slices.Concat(res...) {
		if !wrote[x.k] || x.v != want[x.k] || !x.plain && x.err != werr[x.k] {
			c.Violate("a request of %d returned %d, %v; the function returned %d, %v", x.k, x.v, x.err, want[x.k], werr[x.k])
		}
	}
	extra := 0
	for k := range keys {
		if wrote[k] && nest && k+1 < keys {
			extra++
		}
		winners += fmt.Sprint(want[k], werr[k], ";")
	}
	if got := m.Count(); got != keys+extra {
		c.Violate("Count %d, want %d", got, keys+extra)
	}
	c.Events("racing requests judged", n*(keys+2))
	c.Distinct(n, keys, winners)
}

// rqGate holds the functions of some keys and has the rest go on.
func rqGate(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	m := typed.NewRequestMap(c.R, ctx, time.Hour)
	gate := make(chan struct{})
	held := 1 + c.R.IntN(3)
	crowd := 1 + c.R.IntN(5)
	var inside atomic.Int32
	var wg sync.WaitGroup
	var wrong atomic.Int32
	for i := range held * crowd {
		k := i % held
		wg.Add(1)
		go c.Guard(func() {
			defer wg.Done()
			v := m.GetOrCreate(k, func(k int) int {
				inside.Add(1)
				<-gate
				return 50 + k
			})
			if v != 50+k {
				wrong.Add(1)
			}
		})
	}
	for inside.Load() < int32(held) {
		runtime.Gosched()
	}
	// these must not wait for the held ones
	n := 2 + c.R.IntN(3)
	var runs atomic.Int32
	c.Go(n, func(g int, r *rand.Rand) {
		for j := range 5 {
			k := 100 + r.IntN(4)
			v, err := m.GetOrCreateWithErr(k, func(k int) (int, error) { runs.Add(1); return k, nil })
			if v != k || err != nil {
				c.Violate("a request of %d returned %d, %v", k, v, err)
			}
			if got := m.Count(); got < held+1 || got > held+4 {
				c.Violate("Count %d with %d in flight and 1..4 others", got, held)
			}
			_ = j
		}
	})
	if got := m.Count(); got != held+int(runs.Load()) {
		c.Violate("Count %d, want %d in flight and %d cached", got, held, runs.Load())
	}
	close(gate)
	wg.Wait()
	if wrong.Load() > 0 || inside.Load() != int32(held) {
		c.Violate("%d callers got a wrong result, %d functions ran for %d keys", wrong.Load(), inside.Load(), held)
	}
	c.Events("requests past a held one", 5*n)
	c.Distinct(held, crowd, n, runs.Load())
}

// rqChurn races requests with expiry in virtual time: everything that happens
// falls on a few instants, cleaning included.
func rqChurn(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		ttl := time.Duration(c.R.IntN(5)) * 50 * ms
		if ttl == 0 {
			ttl = time.Duration(c.R.IntN(3)) * ms // 0: gone at the next cleaning
		}
		start := time.Now()
		m := typed.NewRequestMap(c.R, ctx, ttl)
		keys := 1 + c.R.IntN(3)
		n := 2 + c.R.IntN(5)
		var mu sync.Mutex
		var runs []*run
		byValue := map[int]*run{}
		type got struct {
			k, v     int
			from, to time.Time
		}
		res := make([][]got, n)
		var wg sync.WaitGroup
		for g := range n {
			r := c.Rand(g)
			wg.Add(1)
			go c.Guard(func() {
				defer wg.Done()
				for j := 0; j < 20; j++ {
					time.Sleep(time.Duration(r.IntN(4)) * 50 * ms)
					k := r.IntN(keys)
					d := time.Duration(r.IntN(3)) * 50 * ms
					x := got{k: k, from: time.Now()}
					f := func(k int) int {
						x := &run{k: k, from: time.Now(), v: g*1000 + j + 1}
						mu.Lock()
						runs = append(runs, x)
						byValue[x.v] = x
						mu.Unlock()
						time.Sleep(d)
						mu.Lock()
						x.to, x.ended = time.Now(), true
						mu.Unlock()
						return x.v
					}
					if r.IntN(2) == 0 {
						x.v = m.GetOrCreate(k, f)
					} else {
						x.v, _ = m.GetOrCreateWithErr(k, func(k int) (int, error) { return f(k), nil })
					}
					x.to = time.Now()
					res[g] = append(res[g], x)
				}
			})
		}
		wg.Wait()
		last := map[int]*run{}
		for _, r := range runs {
			if l := last[r.k]; l != nil && r.from.Sub(l.to) < ttl {
				c.Violate("ttl=%v: the function of %d ran at %v, after a result of %v", ttl, r.k, r.from.Sub(start), l.to.Sub(start))
			}
			last[r.k] = r
		}
		for _, x := range slices.Concat(res...) {
			r := byValue[x.v]
			if r == nil || r.k != x.k || x.to.Before(r.to) {
				c.Violate("a request of %d returned %d", x.k, x.v)
			}
			if x.from.Sub(r.to) > ttl+sweep {
				c.Violate("ttl=%v: a request of %d at %v returned the result of %v", ttl, x.k, x.from.Sub(start), r.to.Sub(start))
			}
		}
		c.Events("racing requests judged", n*20)
		c.Events("functions run", len(runs))
		c.Distinct(ttl, n, keys, len(runs), fmt.Sprint(last))
	})
}

// toWrapped checks the Timeout wrapper against functions of given durations.
func toWrapped(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		m := typed.NewRequestMap(c.R, ctx, time.Hour)
		limit := time.Duration(1+c.R.IntN(20)) * ms
		if c.R.IntN(8) == 0 { // no time at all
			limit = -time.Duration(c.R.IntN(2)) * ms
		}
		all := max(limit, 0)
		var mu sync.Mutex
		calls := map[int]int{}
		dur := map[int]time.Duration{}
		errs := map[int]error{}
		n := 1 + c.R.IntN(8)
		for k := range n {
			dur[k] = []time.Duration{0, all / 2, max(all-1, 0), all, all + 1, 2 * all, 5 * time.Second}[c.R.IntN(7)]
			if c.R.IntN(3) == 0 {
				errs[k] = kit.AnyErr(c.R, "failure %d", k)
				if c.R.IntN(4) == 0 {
					errs[k] = collections.ErrTimeout // the function's own
				}
			}
		}
		w := m.Timeout(limit, func(k int) (int, error) {
			mu.Lock()
			calls[k]++
			mu.Unlock()
			time.Sleep(dur[k])
			return 700 + k, errs[k]
		})
		through := c.R.IntN(2) == 0
		judge := func(k, v int, err error, took time.Duration) {
			inTime := v == 700+k && err == errs[k] && took == dur[k]
			overdue := v == 0 && err == error(collections.ErrTimeout) && took == all
			ok := inTime
			if dur[k] > all {
				ok = overdue
			} else if dur[k] == all {
				ok = inTime || overdue
			}
			if !ok {
				c.Violate("Timeout(%v) of a function taking %v and returning %d, %v: returned %d, %v after %v", limit, dur[k], 700+k, errs[k], v, err, took)
			}
			c.Distinct(limit, dur[k], v, err != nil)
		}
		var wg sync.WaitGroup
		for k := range n {
			wg.Add(1)
			go c.Guard(func() {
				defer wg.Done()
				t := time.Now()
				if through {
					v, err := m.GetOrCreateWithErr(k, w)
					judge(k, v, err, time.Since(t))
				} else {
					v, err := w(k)
					judge(k, v, err, time.Since(t))
				}
			})
		}
		wg.Wait()
		synctest.Wait()
		mu.Lock()
		for k := range n {
			if calls[k] != 1 && (all > 0 || calls[k] > 1) {
				c.Violate("the wrapped function was called %d times for %d", calls[k], k)
			}
		}
		mu.Unlock()
		if !through { // again, one after another
			for k := range n {
				t := time.Now()
				v, err := w(k)
				judge(k, v, err, time.Since(t))
			}
			synctest.Wait()
			mu.Lock()
			for k := range n {
				if calls[k] != 2 && (all > 0 || calls[k] > 2) {
					c.Violate("the wrapped function was called %d times for 2 calls", calls[k])
				}
			}
			mu.Unlock()
		}
		c.Events("wrapped calls judged", n)
		cancel()
		time.Sleep(10 * time.Second)
		// the bubble only ends when nothing is left running
	})
}

// toRace races the end of the function with the limit in real time.
func toRace(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	m := collections.NewRequestMap[int, [3]int](ctx, time.Hour)
	limit := time.Duration(c.R.IntN(200)+1) * time.Microsecond
	w := m.Timeout(limit, func(k int) ([3]int, error) {
		t := time.Now()
		for time.Since(t) < time.Duration(k)*time.Microsecond {
			runtime.Gosched()
		}
		return [3]int{k + 1, k + 1, k + 1}, nil
	})
	out := make([]int, 4)
	c.Go(4, func(g int, r *rand.Rand) {
		for range 10 {
			k := r.IntN(300)
			t := time.Now()
			v, err := w(k)
			took := time.Since(t)
			ok := err == nil && v == [3]int{k + 1, k + 1, k + 1}
			if err == error(collections.ErrTimeout) {
				out[g]++
				ok = v == [3]int{} && took >= limit
			}
			if !ok {
				c.Violate("Timeout(%v) of a function of %d us returned %v, %v after %v", limit, k, v, err, took)
			}
		}
	})
	c.Events("racing wrapped calls judged", 40)
	c.Distinct(out)
}

func init() {
	kit.Register(&kit.Prop{ID: "C18",
		Rule: "a distinct shape is a timeline by which requests joined, hit or computed, or a race by who computed each key and how it ended",
		Parts: []kit.Part{
			{Name: "timeline", N: 1200, Fn: func(c *kit.Case) { rqTimeline(c, 20*time.Second, ms, 30) }},
			{Name: "crowd", N: 2000, Stress: true, Fn: rqCrowd},
			{Name: "gate", N: 500, Stress: true, Fn: rqGate},
			{Name: "churn", N: 400, Stress: true, Fn: rqChurn},
			{Name: "large crowd", N: 40, Stress: true, Fn: rqCrowdLarge},
			{Name: "mass", N: 8, Fn: rqMass},
		}})
	kit.Register(&kit.Prop{ID: "C19",
		Rule: "a distinct shape is a timeline by which requests joined, hit or computed under expiry, or a race by the last run of every key",
		Parts: []kit.Part{
			{Name: "timeline", N: 1500, Fn: func(c *kit.Case) {
				ttl := []time.Duration{ms, 37 * ms, 100 * ms, 150 * ms, 333 * ms, 700 * ms}[c.R.IntN(6)] + 300*time.Microsecond
				if c.R.IntN(8) == 0 {
					ttl = -time.Duration(c.R.IntN(2)) * 20 * ms // results go with the next cleaning
				}
				rqTimeline(c, ttl, []time.Duration{5 * ms, 17 * ms, 40 * ms}[c.R.IntN(3)], 45)
			}},
			{Name: "churn", N: 1200, Stress: true, Fn: rqChurn},
			{Name: "scales", N: 60, Fn: rqScale},
			{Name: "mass", N: 25, Fn: rqMass},
		}})
	kit.Register(&kit.Prop{ID: "C20",
		Rule: "a distinct shape is a limit, a duration of the wrapped function and the kind of result",
		Parts: []kit.Part{
			{Name: "timeline", N: 1500, Fn: toWrapped},
			{Name: "race", N: 150, Stress: true, Fn: toRace},
			{Name: "scales", N: 60, Fn: toScale},
		}})
}
