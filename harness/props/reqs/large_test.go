package reqs

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/collections"
)

// rqScale is the timeline with times from milliseconds to hours.
func rqScale(c *kit.Case) {
	ttl := []time.Duration{0, ms, 5 * time.Second, 59 * time.Second, time.Minute, 5 * time.Minute, 20 * time.Minute, time.Hour}[c.R.IntN(40)*7/39]
	step := max(ttl/time.Duration(3+c.R.IntN(20)), ms)
	// never on the same instant as a sweep
	rqTimeline(c, ttl+300*time.Microsecond, step/ms*ms+13*time.Microsecond, 12)
}

// rqMass keeps batches of many keys of different ages in one map.
func rqMass(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		start := time.Now()
		when := func() string { return fmt.Sprint("t=", time.Since(start)) }
		batches := 2 + c.R.IntN(5)
		gap := time.Duration(150+c.R.IntN(400)) * ms
		ttl := gap*time.Duration(c.R.IntN(2*batches))/2 + gap + 3*ms/10
		errInit := kit.AnyErr(c.R, "initial")
		next := 0
		type batch struct {
			from, n int
			at      time.Time
			init    bool
		}
		var all []*batch
		size := func() int {
			return []int{1, 2 + c.R.IntN(10), 63 + c.R.IntN(4), 100 + c.R.IntN(200), 1000 + c.R.IntN(100), 2500}[c.R.IntN(50)*6/55]
		}
		var init []*collections.RequestMapInitializer[int, string]
		if c.R.IntN(2) == 0 {
			b := &batch{0, size(), start, true}
			for k := range b.n {
				init = append(init, &collections.RequestMapInitializer[int, string]{Key: k, Result: fmt.Sprint("r", k, " ", b.from), Err: errInit})
			}
			next = b.n
			all = append(all, b)
		}
		m := collections.NewRequestMap[int, string](ctx, ttl, init...)
		m2 := collections.NewRequestMap[int, string](ctx, ttl) // has nothing to do with it
		var ran atomic.Int32
		// ask requests every key of a batch from several goroutines
		ask := func(b *batch, per int, d time.Duration, mayRun bool) {
			var wg sync.WaitGroup
			before := ran.Load()
			for p := range per {
				for i := range b.n {
					k := b.from + i
					wg.Add(1)
					go c.Guard(func() {
						defer wg.Done()
						f := func(got int) (string, error) {
							if got != k {
								c.Violate("%s: the function for %d was called with %d", when(), k, got)
							}
							ran.Add(1)
							time.Sleep(d)
							return fmt.Sprint("r", k, " ", b.from), nil
						}
						var v string
						var err error
						t := time.Now()
						if (p+i)%2 == 0 {
							v, err = m.GetOrCreateWithErr(k, f)
							if b.init != (err != nil) || err != nil && err != errInit {
								c.Violate("%s: a request of %d, one of %d, returned the error %v", when(), k, b.n, err)
							}
						} else {
							v = m.GetOrCreate(k, func(k int) string { v, _ := f(k); return v })
						}
						if v != fmt.Sprint("r", k, " ", b.from) {
							c.Violate("%s: a request of %d, one of %d, returned %q", when(), k, b.n, v)
						}
						if took := time.Since(t); took != d {
							c.Violate("%s: a request of %d, one of %d, took %v, want %v", when(), k, b.n, took, d)
						}
					})
				}
			}
			wg.Wait()
			want := 0
			if mayRun {
				want = b.n
			}
			if got := int(ran.Load() - before); got != want {
				c.Violate("%s: %d functions ran for %d requests each of %d keys, want %d (results of %v, TTL %v)", when(), got, per, b.n, want, b.at.Sub(start), ttl)
			}
			c.Events("answers judged", per*b.n)
		}
		look := func() {
			synctest.Wait()
			now := time.Now()
			live, maybe := 0, 0
			for _, b := range all {
				switch age := now.Sub(b.at); {
				case age < ttl:
					live += b.n
				case age <= ttl+sweep:
					maybe += b.n
				}
			}
			if got := m.Count(); got < live || got > live+maybe {
				c.Violate("%s: Count %d with %d results younger than the TTL %v, %d due", when(), got, live, ttl, maybe)
			}
			if m2.Count() != 0 {
				c.Violate("%s: Count %d in a map never used", when(), m2.Count())
			}
			c.Events("counts judged", 1)
		}
		look()
		sig := fmt.Sprint(ttl, gap)
		for range batches {
			b := &batch{from: next, n: size()}
			next += b.n
			d := time.Duration(c.R.IntN(3)) * 20 * ms
			ask(b, 1+c.R.IntN(3), d, true)
			b.at = time.Now()
			all = append(all, b)
			sig += fmt.Sprint(" ", b.n)
			look()
			for left := gap; left > 0; left -= 50 * ms {
				time.Sleep(min(left, 50*ms))
				look()
				for _, o := range all {
					if time.Since(o.at) < ttl && c.R.IntN(4) == 0 {
						ask(o, 1, 0, false)
					}
				}
			}
		}
		// those that have expired are asked for again
		for _, b := range all {
			if !b.init && time.Since(b.at) > ttl+sweep {
				ask(b, 2, ms, true)
				b.at = time.Now()
				look()
			}
		}
		for range 40 {
			time.Sleep(ttl / 37)
			look()
		}
		time.Sleep(sweep)
		look()
		if m.Count() != 0 {
			c.Violate("%s: Count %d after everything expired", when(), m.Count())
		}
		c.Max("keys of one map", next)
		c.Distinct(sig)
	})
}

// rqCrowdLarge: very many callers of few keys, or of many.
func rqCrowdLarge(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	m := collections.NewRequestMap[string, []int](ctx, time.Hour)
	n, keys := 200+c.R.IntN(1200), []int{1, 2, 10, 300}[c.R.IntN(4)]
	if c.R.IntN(8) == 0 {
		n, keys = 4500+c.R.IntN(1000), 1
	}
	runs := make([]atomic.Int32, keys)
	gate := make(chan struct{})
	got := make([][]int, n)
	at := make([]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		k := r.IntN(keys)
		at[g] = k
		if g == n-1 {
			close(gate)
		}
		name := strings.Repeat("k", 100) + fmt.Sprint(k)
		v, err := m.GetOrCreateWithErr(name, func(s string) ([]int, error) {
			if s != name {
				c.Violate("the function for %q was called with %q", name, s)
			}
			runs[k].Add(1)
			<-gate
			runtime.Gosched()
			return []int{k, g}, nil
		})
		if err != nil || len(v) != 2 || v[0] != k {
			c.Violate("one of %d requests of %d keys, of %d, returned %v, %v", n, keys, k, v, err)
		}
		got[g] = v
	})
	first := map[int][]int{}
	for g, v := range got {
		if f := first[at[g]]; f == nil {
			first[at[g]] = v
		} else if f[1] != v[1] {
			c.Violate("two of %d requests of key %d returned %v and %v", n, at[g], f, v)
		}
	}
	for k := range runs {
		if x := runs[k].Load(); x > 1 || (x == 1) != (first[k] != nil) {
			c.Violate("the function of key %d ran %d times for %d requests", k, x, n)
		}
	}
	if got := m.Count(); got != len(first) {
		c.Violate("Count %d, want %d", got, len(first))
	}
	c.Events("racing requests judged", n)
	c.Max("callers at once", n)
	c.Distinct("large", n, keys, c.Idx)
}

// toScale: limits from a microsecond to a day, many calls at once.
func toScale(c *kit.Case) {
	c.Bubble(func() {
		m := collections.NewRequestMap[int, string](canceled(), time.Hour)
		limit := []time.Duration{time.Microsecond, 50 * time.Microsecond, 999 * time.Microsecond, time.Second, 30 * time.Second, time.Minute,
			61 * time.Minute, 24 * time.Hour, 25 * time.Hour, 10000 * time.Hour}[c.R.IntN(10)]
		n := 50 + c.R.IntN(400)
		var ended atomic.Int32
		w := m.Timeout(limit, func(k int) (string, error) {
			defer ended.Add(1)
			d := limit * time.Duration(k%8) / 4
			if k%8 == 4 {
				d++
			}
			time.Sleep(d)
			return fmt.Sprint(k), nil
		})
		var wg sync.WaitGroup
		for k := range n {
			wg.Add(1)
			go c.Guard(func() {
				defer wg.Done()
				t := time.Now()
				v, err := w(k)
				took := time.Since(t)
				want, werr, wtook := fmt.Sprint(k), error(nil), limit*time.Duration(k%8)/4
				if k%8 >= 4 {
					want, werr, wtook = "", error(collections.ErrTimeout), limit
				}
				if v != want || err != werr || took != wtook {
					c.Violate("Timeout(%v) of %d calls, function taking %d/4 of it: returned %q, %v after %v", limit, n, k%8, v, err, took)
				}
			})
		}
		wg.Wait()
		time.Sleep(limit + limit) // the functions still run to their end
		synctest.Wait()
		if int(ended.Load()) != n {
			c.Violate("Timeout(%v): %d of %d functions ran to their end", limit, ended.Load(), n)
		}
		c.Events("wrapped calls judged", n)
		c.Distinct(limit, n)
	})
}

func canceled() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}

type big struct {
	A [40]int
	B string
	C []byte
	D *big
	E []string
}

// uniqLarge: thousands of elements, and elements of many kilobytes.
func uniqLarge(c *kit.Case) {
	s := collections.NewStructUniqSet[big]().WithContext(canceled()).Build()
	n := []int{300, 1000 + c.R.IntN(3000)}[c.R.IntN(2)]
	length := []int{0, 10, 100}[c.R.IntN(3)]
	if n < 1000 {
		length = []int{1000, 5000, 70000}[c.R.IntN(3)]
	}
	pad := strings.Repeat("x", length)
	// each differs from the next in one far place only
	mk := func(i int) big {
		v := big{B: pad, C: []byte(pad), D: &big{}, E: []string{pad, "y"}}
		x := i / 6
		switch i % 6 {
		case 0:
			v.A[39-x%20] = x + 1
		case 1:
			v.B += fmt.Sprint("b", x)
		case 2:
			v.C = append(v.C, fmt.Sprint("c", x)...)
		case 3:
			v.D.D = &big{B: fmt.Sprint(x)}
		case 4:
			v.E = append(v.E, "", fmt.Sprint(x))
		case 5:
			v.A[0] = -x - 1
		}
		return v
	}
	have := make([]bool, n)
	count := 0
	do := func(i int) {
		v := mk(i)
		op := c.R.IntN(4)
		var got, want bool
		var err error
		switch op {
		case 0, 1:
			got, err = s.Add(v)
			want = !have[i]
			if want {
				count++
			}
			have[i] = true
		case 2:
			got, err = s.Has(v)
			want = have[i]
		case 3:
			got, err = s.Remove(v)
			want = have[i]
			if want {
				count--
			}
			have[i] = false
		}
		if err != nil || got != want || s.Count() != count {
			c.Violate("%s of value %d of %d (%d bytes) returned %v, %v, Count %d; want %v, %d", []string{"Add", "Add", "Has", "Remove"}[op], i, n, 3*length, got, err, s.Count(), want, count)
		}
	}
	for i := range n {
		do(i)
	}
	for range n / 2 {
		do(c.R.IntN(n))
	}
	for i := range n {
		if got, err := s.Has(mk(i)); err != nil || got != have[i] {
			c.Violate("Has of value %d of %d (%d bytes) returned %v, %v; want %v", i, n, 3*length, got, err, have[i])
		}
	}
	c.Events("calls judged by content", n*5/2)
	c.Max("values in one set", count)
	c.Distinct("large", n, length, count)
}

// uniqMass: many goroutines, many values.
func uniqMass(c *kit.Case) {
	s := collections.NewStructUniqSet[inner]().WithContext(canceled()).Build()
	n, vals := 50+c.R.IntN(150), 20+c.R.IntN(200)
	net := make([]atomic.Int32, vals)
	c.Go(n, func(g int, r *rand.Rand) {
		for range 40 {
			k := r.IntN(vals)
			v := inner{X: k, Y: "v"}
			switch r.IntN(4) {
			case 0, 1:
				if ok, err := s.Add(v); err != nil {
					c.Violate("Add returned %v", err)
				} else if ok {
					net[k].Add(1)
				}
			case 2:
				if ok, err := s.Remove(v); err != nil {
					c.Violate("Remove returned %v", err)
				} else if ok {
					net[k].Add(-1)
				}
			case 3:
				s.Has(v)
				s.Count()
			}
		}
	})
	count := 0
	for k := range net {
		x := net[k].Load()
		has, err := s.Has(inner{X: k, Y: "v"})
		if err != nil || x < 0 || x > 1 || has != (x == 1) {
			c.Violate("value %d was added %d times more than removed, Has returned %v, %v (%d goroutines)", k, x, has, err, n)
		}
		count += int(x)
	}
	if got := s.Count(); got != count {
		c.Violate("Count %d, want %d", got, count)
	}
	c.Events("racing adds judged", n*40)
	c.Max("goroutines at once", n)
	c.Distinct("mass", n, vals, count)
}

// uniqTTLMass: batches of many values, of all scales of time.
func uniqTTLMass(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		unit := []time.Duration{10 * time.Microsecond, ms, time.Second, time.Minute, time.Hour}[c.R.IntN(5)]
		b := collections.NewStructUniqSet[int]().WithContext(ctx)
		ttl, check := time.Duration(1+c.R.IntN(40))*unit+unit/3, time.Duration(1+c.R.IntN(4))*unit+unit/7
		if unit == time.Minute && c.R.IntN(2) == 0 { // the defaults
			ttl, check = 30*time.Minute, time.Second
		} else {
			b.WithElementTtl(ttl).WithCheckInterval(check)
		}
		s := b.Build()
		start := time.Now()
		type value struct {
			at   time.Time
			gone bool // removed
		}
		vals := []*value{}
		seen := 0 // judged to have left
		look := func() {
			synctest.Wait()
			now := time.Now()
			sure, may := 0, 0
			for _, v := range vals {
				switch age := now.Sub(v.at); {
				case v.gone:
				case age < ttl:
					sure++
				case age <= ttl+check:
					may++
				}
			}
			if got := s.Count(); got < sure || got > sure+may {
				c.Violate("ttl=%v check=%v t=%v: Count %d with %d values younger than the TTL, %d due", ttl, check, now.Sub(start), got, sure, may)
			}
			for range 10 {
				if len(vals) == 0 {
					break
				}
				k := c.R.IntN(len(vals))
				v := vals[k]
				age := now.Sub(v.at)
				has, _ := s.Has(k)
				if has && (v.gone || age > ttl+check) || !has && !v.gone && age < ttl {
					c.Violate("ttl=%v check=%v t=%v: Has(%d)=%v, added at %v, removed=%v", ttl, check, now.Sub(start), k, has, v.at.Sub(start), v.gone)
				}
				if !has {
					seen++
				}
			}
			c.Events("counts judged", 1)
		}
		for range 2 + c.R.IntN(5) {
			n := []int{1, 10, 64 + c.R.IntN(3), 300, 1000 + c.R.IntN(50), 5000, 20000}[c.R.IntN(50)*7/55]
			for range n {
				if ok, err := s.Add(len(vals)); !ok || err != nil {
					c.Violate("Add of a new value returned %v, %v", ok, err)
				}
				vals = append(vals, &value{at: time.Now()})
			}
			for range []int{0, n / 2, n}[c.R.IntN(3)] {
				k := c.R.IntN(len(vals))
				v := vals[k]
				age := time.Since(v.at)
				ok, err := s.Remove(k)
				if err != nil || ok && (v.gone || age > ttl+check) || !ok && !v.gone && age < ttl {
					c.Violate("ttl=%v check=%v t=%v: Remove(%d) returned %v, %v; added at %v, removed=%v", ttl, check, time.Since(start), k, ok, err, v.at.Sub(start), v.gone)
				}
				v.gone = true
				if c.R.IntN(3) == 0 { // and back, with a new life
					if ok, err := s.Add(k); !ok || err != nil {
						c.Violate("ttl=%v: Add of a removed value returned %v, %v", ttl, ok, err)
					}
					vals[k] = &value{at: time.Now()}
				}
			}
			look()
			for range c.R.IntN(12) {
				time.Sleep(max(ttl/10, check/3))
				look()
			}
		}
		for range 24 {
			time.Sleep((ttl + check) / 23)
			look()
		}
		if got := s.Count(); got != 0 {
			c.Violate("ttl=%v check=%v: Count %d after everything expired", ttl, check, got)
		}
		c.Events("absences judged", seen)
		c.Max("values of one set", len(vals))
		c.Distinct(ttl, check, len(vals))
		cancel()
	})
}
