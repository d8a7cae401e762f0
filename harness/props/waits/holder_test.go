package waits

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"

	"github.com/anishathalye/porcupine"
	"github.com/axgrid/axutils/collections"
)

// hmHolder is a known key of the reference.
type hmHolder struct {
	obj      int
	deadline time.Time
	ws       []*answer
	out      bool // there is an outcome
	kind     string
	err      error
	end      time.Time
}

// hmKind says whether err is the outcome kind: release, error, timeout, cancel.
func hmKind(ctx context.Context, kind string, want, err error) bool {
	switch kind {
	case "timeout":
		return err != nil && !errors.Is(err, ctx.Err()) && strings.Contains(strings.ToLower(err.Error()), "time")
	case "cancel":
		return err != nil && errors.Is(err, ctx.Err())
	}
	return err == want
}

// hmTimeline compares results and return times with the reference, step by
// step in virtual time.
func hmTimeline(c *kit.Case) { hmTimelineOf(c, small(c, 40)) }

func hmTimelineOf(c *kit.Case, x scale) {
	ms := x.unit
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		tmo, ttl := timeout(c.R, ms, 10*x.long), timeout(c.R, ms, 10*x.long)
		m := typed.NewHolderMap(c.R).WithTimeout(tmo).WithTTL(ttl).WithContext(ctx).Build()
		start := time.Now()
		hs := map[int]*hmHolder{}
		cfg := fmt.Sprintf("timeout=%v ttl=%v", tmo, ttl)
		sig := cfg
		when := func() string { return fmt.Sprint("t=", time.Since(start)) }
		expect := func(a *answer, h *hmHolder, at time.Time) {
			if !a.done.Load() {
				c.Violate("%s %s: Wait(%d) has not returned, want outcome %s %v at %v", cfg, when(), a.k, h.kind, h.err, at.Sub(start))
			}
			if !hmKind(ctx, h.kind, h.err, a.err) || !a.at.Equal(at) {
				c.Violate("%s %s: Wait(%d) returned %v at %v, want outcome %s %v at %v", cfg, when(), a.k, a.err, a.at.Sub(start), h.kind, h.err, at.Sub(start))
			}
			c.Events("outcomes judged", 1)
		}
		settle := func(what string) {
			synctest.Wait()
			for k, h := range hs {
				if !h.out {
					for _, a := range h.ws {
						if a.done.Load() {
							c.Violate("%s %s after %s: Wait(%d) returned %v at %v without an outcome", cfg, when(), what, k, a.err, a.at.Sub(start))
						}
					}
				}
			}
			if n := m.Count(); n != len(hs) {
				c.Violate("%s %s after %s: Count %d, want %d", cfg, when(), what, n, len(hs))
			}
		}
		decide := func(h *hmHolder, kind string, err error, at time.Time) {
			if h.out {
				return
			}
			h.out, h.kind, h.err, h.end = true, kind, err, after(at, ttl)
			for _, a := range h.ws {
				expect(a, h, at)
			}
			h.ws = nil
		}
		pass := func() {
			for again := true; again; {
				again = false
				now := time.Now()
				for k, h := range hs {
					if !h.out && !now.Before(h.deadline) {
						decide(h, "timeout", nil, h.deadline)
						c.Events("timeouts judged", 1)
						again = true
					}
					if h.out && !now.Before(h.end) {
						delete(hs, k)
						c.Events("expiries judged", 1)
					}
				}
			}
		}
		cancelled := false
		keys, steps := x.keys, x.steps
		stop := c.R.IntN(3 * steps)
		if tmo <= 0 {
			stop = steps // a key of a cancelled map would end in two ways at once
		}
		for j := 0; j < steps; j++ {
			for gap := x.gap(c.R, []int{0, 0, 0, 1, 1, 2, 3, 5}); gap > 0; gap-- {
				time.Sleep(ms)
				synctest.Wait()
				pass()
				settle("a pause")
			}
			k := c.R.IntN(keys)
			h := hs[k]
			now := time.Now()
			op := []string{"Wait", "Wait", "Wait", "Release", "Error", "Update", "Get", "Get"}[c.R.IntN(8)]
			if j == stop {
				op = "cancel"
			}
			c.Logf("%s %s(%d) at step %d", when(), op, k, j)
			unknown := func(err error) {
				if (err != nil) != (h == nil) {
					c.Violate("%s %s: %s(%d) returned %v; key known: %v", cfg, when(), op, k, err, h != nil)
				}
			}
			switch op {
			case "Wait":
				a := &answer{k: k}
				obj := j + 1
				if c.R.IntN(6) == 0 {
					obj = 0 // an object like any other
				}
				go c.Guard(func() {
					a.err = m.Wait(k, obj)
					a.at = time.Now()
					a.done.Store(true)
				})
				synctest.Wait()
				if h == nil {
					h = &hmHolder{obj: obj, deadline: after(now, tmo)}
					hs[k] = h
				}
				if h.out {
					expect(a, h, now)
				} else {
					h.ws = append(h.ws, a)
					if cancelled {
						decide(h, "cancel", nil, now)
					}
				}
			case "Release", "Error":
				var err error
				if op == "Error" && c.R.IntN(6) > 0 {
					err = kit.AnyErr(c.R, "failure %d", j)
				}
				n := 1
				if ttl > 0 && c.R.IntN(3) == 0 {
					n = 2 + c.R.IntN(4) // must not block however often it is called
				}
				for i := range n {
					e := err
					if i > 0 {
						e = kit.AnyErr(c.R, "too late %d", j)
					}
					if op == "Release" && i%2 == 0 {
						unknown(m.Release(k))
					} else {
						unknown(m.Error(k, e))
					}
				}
				synctest.Wait()
				if h != nil {
					decide(h, op, err, now)
				}
			case "Update":
				obj := 1000 + j
				if c.R.IntN(4) == 0 {
					obj = 0
				}
				unknown(m.Update(k, obj))
				if h != nil {
					h.obj = obj
				}
			case "Get":
			case "cancel":
				cancel()
				cancelled = true
				synctest.Wait()
				for _, h := range hs {
					decide(h, "cancel", nil, now)
				}
			}
			synctest.Wait()
			pass()
			for k := 0; k < keys; k++ {
				got, err := m.Get(k)
				h := hs[k]
				switch {
				case h == nil:
					if err == nil || got != 0 {
						c.Violate("%s %s: Get(%d) of an unknown key returned %d, %v", cfg, when(), k, got, err)
					}
				case got != h.obj, h.out && !hmKind(ctx, h.kind, h.err, err), !h.out && err != nil:
					c.Violate("%s %s: Get(%d) returned %d, %v; want object %d, outcome %v %s %v", cfg, when(), k, got, err, h.obj, h.out, h.kind, h.err)
				}
			}
			settle(op)
			sig += fmt.Sprint(op[:1], k, now.Sub(start))
		}
		for j := 0; j < 40*x.long && len(hs) > 0; j++ {
			time.Sleep(ms)
			synctest.Wait()
			pass()
			settle("the end")
		}
		time.Sleep(10000 * ms)
		settle("long")
		c.Events("timeline steps judged", steps)
		c.Distinct(sig)
		c.Sample(func() string { return sig })
	})
}

// hmInstant lets Release, Error, the timeout, the cancellation and new Waits
// fall on the same instant.
func hmInstant(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		tmo, ttl := time.Duration(1+c.R.IntN(4))*ms, time.Duration(1+c.R.IntN(4))*ms
		m := collections.NewHolderMap[string, int]().WithTimeout(tmo).WithTTL(ttl).WithContext(ctx).Build()
		n, s := 1+c.R.IntN(5), 1+c.R.IntN(4)
		at := []time.Duration{tmo, tmo, tmo / 2, tmo - 1}[c.R.IntN(4)]
		ends := c.R.IntN(4) == 0
		start := time.Now()
		res := make([]*answer, n+3)
		for i := range res {
			a := &answer{}
			res[i] = a
			go c.Guard(func() {
				if i >= n {
					time.Sleep(at)
				}
				a.err = m.Wait("k", 7)
				a.at = time.Now()
				a.done.Store(true)
			})
		}
		synctest.Wait()
		var errs []error
		for i := range s {
			e := kit.AnyErr(c.R, "e%d", i)
			if i%2 == 1 {
				e = nil
			}
			errs = append(errs, e)
			go c.Guard(func() {
				time.Sleep(at)
				for range 1 + i {
					var err error
					if e == nil {
						err = m.Release("k")
					} else {
						err = m.Error("k", e)
					}
					if err != nil {
						c.Violate("Release or Error of a key being waited for returned %v", err)
					}
				}
			})
		}
		if ends {
			go func() { time.Sleep(at); cancel() }()
		}
		time.Sleep(at)
		synctest.Wait()
		out := res[0].err
		for _, a := range res {
			if !a.done.Load() || a.at.Sub(start) != at || a.err != out {
				c.Violate("Waits on one key: returned=%v %v at %v, another %v; outcome was due at %v", a.done.Load(), a.err, a.at.Sub(start), out, at)
			}
		}
		ok := ends && hmKind(ctx, "cancel", nil, out) || at == tmo && hmKind(ctx, "timeout", nil, out)
		for _, e := range errs {
			ok = ok || e == out
		}
		if !ok {
			c.Violate("outcome %v is none of %v, timeout due=%v, cancelled=%v", out, errs, at == tmo, ends)
		}
		for range 3 {
			if obj, err := m.Get("k"); obj != 7 || err != out {
				c.Violate("Get returned %d, %v; want 7, %v", obj, err, out)
			}
			if err := m.Wait("k", 8); err != out {
				c.Violate("a later Wait returned %v, the outcome is %v", err, out)
			}
			if m.Error("k", kit.AnyErr(c.R, "late")) != nil || m.Release("k") != nil {
				c.Violate("Release or Error of a known key failed")
			}
			if time.Since(start) < at+ttl-ms/4 {
				time.Sleep(ttl - ms/4)
				synctest.Wait()
			}
		}
		// at the end of the TTL: the old outcome or a new round
		var again [2]error
		for i := range again {
			go c.Guard(func() {
				time.Sleep(ms / 4)
				again[i] = m.Wait("k", 9)
			})
		}
		go c.Guard(func() {
			time.Sleep(ms / 4)
			m.Update("k", 10)
			m.Get("k")
			m.Count()
		})
		time.Sleep(ms/4 + tmo)
		synctest.Wait()
		for _, e := range again {
			if e != out && !hmKind(ctx, "timeout", nil, e) && !(ends && hmKind(ctx, "cancel", nil, e)) {
				c.Violate("a Wait at the end of the TTL returned %v, the outcome was %v", e, out)
			}
		}
		time.Sleep(ttl + ms)
		synctest.Wait()
		if n := m.Count(); n != 0 {
			c.Violate("Count %d after every TTL", n)
		}
		if _, err := m.Get("k"); err == nil {
			c.Violate("Get knows the key after its TTL")
		}
		c.Events("outcomes judged at the edge", len(res)+3)
		c.Distinct(n, s, at, ends, fmt.Sprint(out))
	})
}

type hmIn struct {
	op string
	k  int
	v  int
}

func (i hmIn) String() string { return fmt.Sprintf("%s(%d,%d)", i.op, i.k, i.v) }

// hmRegister is what Update and Get of a known key mean.
var hmRegister = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[int][]porcupine.Operation{}
		for _, o := range h {
			by[o.Input.(hmIn).k] = append(by[o.Input.(hmIn).k], o)
		}
		var out [][]porcupine.Operation
		for _, x := range by {
			out = append(out, x)
		}
		return out
	},
	Init: func() any { return 0 },
	Step: func(st, in, out any) (bool, any) {
		if i := in.(hmIn); i.op == "Update" {
			return true, i.v
		}
		return out.(int) == st.(int), st
	},
}

type hmSeen struct {
	k        int
	op       string
	err      error // what Error was given
	res      error
	obj      int
	from, to int64
}

// hmShared races first Waits and outcomes of keys that then stay known.
func hmShared(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	m := typed.NewHolderMap(c.R).WithTimeout(time.Hour).WithTTL(20 * time.Second).WithContext(ctx).Build()
	waiters, others, keys := 1+c.R.IntN(4), 1+c.R.IntN(3), 1+c.R.IntN(3)
	log := make([][]hmSeen, waiters+others)
	c.Go(waiters+others, func(g int, r *rand.Rand) {
		do := func(s hmSeen, f func(s *hmSeen)) hmSeen {
			s.from = kit.Now()
			f(&s)
			s.to = kit.Now()
			log[g] = append(log[g], s)
			return s
		}
		first := r.IntN(keys)
		accepted := map[int]bool{}
		for j := 0; g >= waiters || j < 2*keys; j++ {
			k := (first + j) % keys
			if g < waiters {
				do(hmSeen{k: k, op: "Wait"}, func(s *hmSeen) { s.res = m.Wait(k, g+1) })
				do(hmSeen{k: k, op: "Get"}, func(s *hmSeen) { s.obj, s.res = m.Get(k) })
				continue
			}
			e := kit.AnyErr(r, "e%d.%d", g, j)
			if r.IntN(2) == 0 {
				e = nil
			}
			// every setter gets an outcome accepted for every key, in any order,
			// as waiters may still be waiting for another
			s := do(hmSeen{k: k, op: "Out", err: e}, func(s *hmSeen) {
				if e == nil {
					s.res = m.Release(k)
				} else {
					s.res = m.Error(k, e)
				}
			})
			if s.res == nil {
				accepted[k] = true
			} else if len(log[g]) > 200 {
				log[g] = log[g][:len(log[g])-1]
			}
			if len(accepted) < keys {
				runtime.Gosched()
			} else if j >= 2*keys {
				return
			}
			if len(log[g]) < 200 && r.IntN(2) == 0 {
				do(hmSeen{k: k, op: "Get"}, func(s *hmSeen) { s.obj, s.res = m.Get(k) })
			}
		}
	})
	if n := m.Count(); n != keys {
		c.Violate("Count %d, want %d", n, keys)
	}
	for k := 0; k < keys; k++ {
		obj, out := m.Get(k)
		var mine []hmSeen
		known := int64(1 << 62) // when the key was certainly known
		var firstOut int64 = 1 << 62
		for _, l := range log {
			for _, s := range l {
				if s.k != k {
					continue
				}
				mine = append(mine, s)
				if s.op == "Wait" || s.op == "Out" && s.res == nil || s.op == "Get" && s.obj != 0 {
					known = min(known, s.to)
				}
				if s.op == "Out" && s.res == nil {
					firstOut = min(firstOut, s.to)
				}
			}
		}
		if obj < 1 || obj > waiters {
			c.Violate("Get(%d) returned object %d, the Waits brought 1..%d", k, obj, waiters)
		}
		possible := false
		for _, s := range mine {
			switch s.op {
			case "Wait":
				if s.res != out {
					c.Violate("Wait(%d) returned %v, the outcome is %v", k, s.res, out)
				}
			case "Get":
				if s.obj == 0 && s.res != nil { // unknown
					if s.from > known {
						c.Violate("Get(%d): unknown although it was known before", k)
					}
				} else if s.obj != obj || s.res != nil && s.res != out {
					c.Violate("Get(%d) returned %d, %v; the object is %d, the outcome %v", k, s.obj, s.res, obj, out)
				}
			case "Out":
				if s.res != nil && s.from > known {
					c.Violate("Release or Error of %d: unknown although it was known before", k)
				}
				// the first outcome that was accepted counts
				if s.res == nil && s.err == out && s.from <= firstOut {
					possible = true
				}
			}
		}
		if !possible {
			c.Violate("key %d: outcome %v is not that of the first Release or Error\n%+v", k, out, mine)
		}
		c.Events("calls judged", len(mine))
		c.Distinct(waiters, others, k, obj, fmt.Sprint(out))
	}
}

// hmObject has Updates and Gets of known keys race.
func hmObject(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	m := typed.NewHolderMap(c.R).WithTimeout(time.Hour).WithTTL(20 * time.Second).WithContext(ctx).Build()
	keys := 1 + c.R.IntN(2)
	done := make(chan error, keys)
	for k := range keys {
		go func() { done <- m.Wait(k, 0) }()
	}
	for m.Count() < keys {
		runtime.Gosched()
	}
	n := 2 + c.R.IntN(3)
	h := kit.NewHist(n)
	release := c.R.IntN(2) == 0
	c.Go(n, func(g int, r *rand.Rand) {
		for j := 0; j < 6; j++ {
			k := r.IntN(keys)
			if r.IntN(2) == 0 {
				v := g*100 + j + 1
				h.Do(g, hmIn{"Update", k, v}, func() any {
					if err := m.Update(k, v); err != nil {
						c.Violate("Update of a known key returned %v", err)
					}
					return nil
				})
			} else {
				h.Do(g, hmIn{"Get", k, 0}, func() any {
					v, err := m.Get(k)
					if err != nil {
						c.Violate("Get of a known key returned %v", err)
					}
					return v
				})
			}
			if release && j == 3 {
				m.Release(k)
			}
		}
	})
	c.Linearizable("Update and Get", hmRegister, h.Ops())
	cancel()
	for range keys {
		if err := <-done; err != nil && !(hmKind(ctx, "cancel", nil, err)) {
			c.Violate("Wait returned %v", err)
		}
	}
}

// hmChurn races everything, with holders that expire all the time.
func hmChurn(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	us := time.Microsecond
	m := typed.NewHolderMap(c.R).WithTimeout(time.Duration(1+c.R.IntN(300)) * us).WithTTL(time.Duration(1+c.R.IntN(100)) * us).WithContext(ctx).Build()
	n, keys := 2+c.R.IntN(6), 1+c.R.IntN(3)
	end := c.R.IntN(3) == 0
	given := make([]map[error]int, n)
	res := make([][]answer, n)
	c.Go(n, func(g int, r *rand.Rand) {
		given[g] = map[error]int{}
		for j := 0; j < 25; j++ {
			k := r.IntN(keys)
			switch r.IntN(7) {
			case 0, 1, 2:
				err := m.Wait(k, g)
				res[g] = append(res[g], answer{k: k, err: err})
			case 3:
				e := errors.New("given")
				given[g][e] = k
				m.Error(k, e)
			case 4:
				m.Release(k)
			case 5:
				m.Update(k, j)
			case 6:
				m.Get(k)
				m.Count()
			}
			if end && g == 0 && j == 20 {
				cancel()
			}
		}
	})
	total := 0
	for g := range res {
		for i := range res[g] {
			a := &res[g][i]
			total++
			ok := a.err == nil || end && hmKind(ctx, "cancel", nil, a.err) || hmKind(ctx, "timeout", nil, a.err)
			for _, m := range given {
				if k, there := m[a.err]; there {
					ok = k == a.k
				}
			}
			if !ok {
				c.Violate("Wait(%d) returned %v, which is no outcome of it", a.k, a.err)
			}
		}
	}
	c.Events("churned waits judged", total)
	c.Distinct(n, keys, total, end)
}

func init() {
	kit.Register(&kit.Prop{ID: "C17",
		Rule: "a distinct shape is a timeline (configuration and operations with their virtual times) judged step by step, the outcome of events falling on one instant, or an overlapping history of updates and reads",
		Parts: []kit.Part{
			{Name: "timeline", N: 1500, Fn: hmTimeline},
			{Name: "scales", N: 400, Fn: func(c *kit.Case) { hmTimelineOf(c, scaled(c, 40)) }},
			{Name: "large", N: 60, Fn: func(c *kit.Case) { hmTimelineOf(c, large(c)) }},
			{Name: "mass", N: 24, Stress: true, Fn: hmMass},
			{Name: "crowd", N: 60, Fn: crowd("holder")},
			{Name: "instant", N: 1500, Stress: true, Fn: hmInstant},
			{Name: "shared", N: 1000, Stress: true, Fn: hmShared},
			{Name: "object", N: 600, Stress: true, Fn: hmObject},
			{Name: "churn", N: 600, Stress: true, Fn: hmChurn},
		}})
}
