package guava

import (
	"context"
	"fmt"
	"maps"
	"slices"
	"sync"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"
)

// config says which features a timeline uses.
type config struct {
	max                          int
	read, write                  time.Duration
	load, lockLoad, unload, fail bool
	ops                          []string
	steps, keys                  int
	unit                         time.Duration // of the grid, 1 ms if 0
	sparse                       bool          // walk gaps in one step
	fine                         bool          // timeouts of many units, jumps to just before and after deadlines
	slow                         bool          // loads and updates that take time
	overlap                      bool          // and during which others go on
}

func (f config) String() string {
	return fmt.Sprintf("unit=%v max=%d read=%v write=%v load=%v lockLoad=%v unload=%v keys=%d", f.unit, f.max, f.read, f.write, f.load, f.lockLoad, f.unload, f.keys)
}

// entry and model are the reference: entries in insertion order with deadlines.
type entry struct {
	k, v     int
	deadline time.Time // zero: never
}
type model struct {
	f        config
	es       []entry
	unloaded []string
	loads    []string
	log      *kit.Case
}

func (m *model) find(k int) int {
	return slices.IndexFunc(m.es, func(e entry) bool { return e.k == k })
}

func (m *model) unload(e entry) {
	if m.f.unload {
		m.unloaded = append(m.unloaded, fmt.Sprintf("%d=%d", e.k, e.v))
	}
}

func (m *model) remove(i int) {
	m.unload(m.es[i])
	m.es = slices.Delete(m.es, i, i+1)
}

// expire drops what is due.
func (m *model) expire(now time.Time) {
	for i := 0; i < len(m.es); {
		if d := m.es[i].deadline; !d.IsZero() && !now.Before(d) {
			m.remove(i)
		} else {
			i++
		}
	}
}

func (m *model) written(now time.Time) time.Time {
	switch {
	case m.f.write > 0:
		return now.Add(m.f.write)
	case m.f.read > 0:
		return now.Add(m.f.read)
	}
	return time.Time{}
}

func (m *model) touch(i int, now time.Time) {
	if m.f.read > 0 {
		m.es[i].deadline = now.Add(m.f.read)
	}
}

func (m *model) put(k, v int, now time.Time) {
	if i := m.find(k); i >= 0 {
		m.es[i].v, m.es[i].deadline = v, m.written(now)
		return
	}
	if m.f.max > 0 && len(m.es) >= m.f.max {
		m.remove(0)
	}
	m.es = append(m.es, entry{k, v, m.written(now)})
}

func (m *model) stored() map[int]int {
	out := map[int]int{}
	for _, e := range m.es {
		out[e.k] = e.v
	}
	return out
}

// timeline runs operations at virtual times on a 1 ms grid, with timeouts off
// the grid, and compares everything visible with the reference after each.
func timeline(c *kit.Case, f config) {
	if f.unit == 0 {
		f.unit = time.Millisecond
	}
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		var mu sync.Mutex
		var unloaded, loads []string
		failNext := false
		nextLoad := 0
		var takes time.Duration // of the next load or update
		b := typed.NewGuavaMap(c.R).WithContext(ctx)
		if f.max > 0 {
			b.WithMaxCount(f.max)
		}
		if f.read > 0 {
			b.WithReadTimeout(f.read)
		}
		if f.write > 0 {
			b.WithWriteTimeout(f.write)
		}
		if f.unload {
			b.WithUnloadFunc(func(k, v int) {
				mu.Lock()
				unloaded = append(unloaded, fmt.Sprintf("%d=%d", k, v))
				mu.Unlock()
			})
		}
		errLoad := kit.AnyErr(c.R, "load failed")
		if f.load {
			b.WithLockLoad(f.lockLoad).WithLoadFunc(func(k int) (int, error) {
				mu.Lock()
				takes, fail, next := takes, failNext, nextLoad
				loads = append(loads, fmt.Sprint(k))
				mu.Unlock()
				time.Sleep(takes)
				if fail {
					return next, errLoad
				}
				return next, nil
			})
		}
		g := b.Build()
		m := &model{f: f}
		start := time.Now()
		c.Logf("%v", f)
		when := func() string { return fmt.Sprintf("t=%v", time.Since(start)) }
		seenU, seenL := 0, 0
		compare := func(after string) {
			synctest.Wait()
			got, want := g.GetStored(), m.stored()
			if !maps.Equal(got, want) {
				c.Violate("%v %s after %s: stored %v, want %v", f, when(), after, got, want)
			}
			if n := g.Size(); n != len(want) {
				c.Violate("%v %s after %s: Size %d, want %d", f, when(), after, n, len(want))
			}
			// what came before was equal at the previous comparison
			mu.Lock()
			gu, gl := slices.Clone(unloaded[seenU:]), slices.Clone(loads[seenL:])
			mu.Unlock()
			wu, wl := slices.Clone(m.unloaded[seenU:]), m.loads[seenL:]
			slices.Sort(gu)
			slices.Sort(wu)
			if !slices.Equal(gu, wu) {
				c.Violate("%v %s after %s: unloaded %v, want %v", f, when(), after, gu, wu)
			}
			if !slices.Equal(gl, wl) {
				c.Violate("%v %s after %s: loads %v, want %v", f, when(), after, gl, wl)
			}
			seenU, seenL = seenU+len(gu), seenL+len(gl)
		}
		sig := f.String()
		expired, overlapped := 0, 0
		expire := func() {
			n := len(m.es)
			m.expire(time.Now())
			expired += n - len(m.es)
		}
		// flights are loads and updates under way, they land off the grid
		type flight struct {
			op    string
			k, v  int
			at    time.Time
			fail  bool
			got   int
			err   error
			calls int
			done  bool
		}
		var flights []*flight
		flying := func(op string, k int) bool {
			return slices.ContainsFunc(flights, func(x *flight) bool { return x.op == op && x.k == k })
		}
		land := func(x *flight) {
			synctest.Wait()
			expire()
			desc := fmt.Sprintf("%s(%d,%d) under way", x.op, x.k, x.v)
			want, i := x.v, m.find(x.k)
			switch {
			case x.op == "LockForUpdate":
				m.put(x.k, x.v, time.Now())
			case x.fail:
				want = 0
			case i >= 0: // somebody else has stored one
				want = m.es[i].v
				m.touch(i, time.Now())
			default:
				m.put(x.k, x.v, time.Now())
			}
			if !x.done || x.got != want || (x.err != nil) != x.fail || x.fail && x.err != errLoad || x.op == "LockForUpdate" && x.calls != 1 {
				c.Violate("%v %s %s: returned=%v %d, %v, want %d; entries (by age) %v", f, when(), desc, x.done, x.got, x.err, want, m.es)
			}
			overlapped++
			compare("the end of " + desc)
		}
		pass := func(d time.Duration) {
			end := time.Now().Add(d)
			for {
				next := -1
				for i, x := range flights {
					if !x.at.After(end) && (next < 0 || x.at.Before(flights[next].at)) {
						next = i
					}
				}
				if next < 0 {
					break
				}
				x := flights[next]
				time.Sleep(time.Until(x.at))
				flights = slices.Delete(flights, next, next+1)
				land(x)
			}
			time.Sleep(time.Until(end))
		}
		for j := 0; j < f.steps; j++ {
			gap := []int{0, 0, 1, 1, 2, 3, 5, 9}[c.R.IntN(8)]
			// walk the grid so that early and late disappearances show
			step := f.unit
			if f.sparse && gap > 0 {
				step, gap = f.unit*time.Duration(gap), 1
			}
			for ; gap > 0; gap-- {
				if f.fine && len(m.es) > 0 && c.R.IntN(6) == 0 {
					// the last instant of the grid before a deadline
					if left := m.es[c.R.IntN(len(m.es))].deadline.Sub(time.Now()); left > 0 {
						pass(left - f.unit/10*3)
						expire()
						compare("a jump")
					}
				}
				pass(step)
				expire()
				compare("a pause")
			}
			now := time.Now()
			if takes = 0; f.slow && c.R.IntN(3) == 0 {
				takes = f.unit * time.Duration([]int{1, 2, 5, 12, int((f.read + f.write) / f.unit), 40}[c.R.IntN(6)])
			}
			op, k, v := f.ops[c.R.IntN(len(f.ops))], c.R.IntN(f.keys), j+1
			if c.R.IntN(6) == 0 {
				v = 0 // a value like any other
			}
			i := m.find(k)
			switch {
			case op == "LockForUpdate" && flying(op, k):
				op = "Set" // it would wait
			case op == "Get" && f.lockLoad && i < 0 && flying(op, k):
				op = "Has" // it would wait
			}
			away := f.overlap && takes > 0
			for away && slices.ContainsFunc(flights, func(x *flight) bool { return x.at.Equal(now.Add(takes + f.unit/2)) }) {
				takes += f.unit // no two land at once
			}
			desc := fmt.Sprintf("%s(%d,%d)", op, k, v)
			if takes > 0 {
				desc += fmt.Sprint(" which takes ", takes)
			}
			settle := func(from time.Time, d time.Duration) { // what the call itself lasted
				if took := time.Since(from); took != d {
					c.Violate("%v %s %s took %v", f, when(), desc, took)
				}
				expire()
			}
			var x *flight
			if away {
				x = &flight{op: op, k: k, v: v, at: now.Add(takes + f.unit/2)}
				desc += " meanwhile others go on"
			}
			launch := func(call func()) {
				flights = append(flights, x)
				go c.Guard(func() {
					call()
					x.done = true
				})
				synctest.Wait()
				mu.Lock()
				takes = 0
				mu.Unlock()
			}
			c.Logf("%s %s stored %v", when(), desc, m.es)
			bad := func(got ...any) {
				c.Violate("%v %s %s returned %v; entries (by age) %v", f, when(), desc, got, m.es)
			}
			switch op {
			case "Set":
				g.Set(k, v)
				m.put(k, v, now)
			case "LockForUpdate":
				if away {
					launch(func() {
						x.got = g.LockForUpdate(k, func() int { time.Sleep(time.Until(x.at)); x.calls++; return v })
					})
					break
				}
				n := 0
				if got := g.LockForUpdate(k, func() int { time.Sleep(takes); n++; return v }); got != v || n != 1 {
					bad(got, n, "calls")
				}
				settle(now, takes)
				m.put(k, v, time.Now())
			case "Has":
				if got := g.Has(k); got != (i >= 0) {
					bad(got)
				}
				if i >= 0 {
					m.touch(i, now)
				}
			case "HasOrCreate":
				if got := g.HasOrCreate(k, v); got != (i >= 0) {
					bad(got)
				}
				if i >= 0 {
					m.touch(i, now)
				} else {
					m.put(k, v, now)
				}
			case "Get":
				mu.Lock()
				failNext = f.fail && c.R.IntN(3) == 0
				nextLoad = 10000 + j
				if c.R.IntN(8) == 0 {
					nextLoad = 0 // a zero value is stored like any other
				}
				if away {
					takes += f.unit / 2
				}
				mu.Unlock()
				if away && f.load && i < 0 {
					x.v, x.fail = nextLoad, failNext
					m.loads = append(m.loads, fmt.Sprint(k))
					launch(func() { x.got, x.err = g.Get(k) })
					break
				}
				got, err := g.Get(k)
				switch {
				case i >= 0:
					if err != nil || got != m.es[i].v {
						bad(got, err)
					}
					m.touch(i, now)
				case !f.load:
					if err != nil || got != 0 {
						bad(got, err)
					}
				case failNext:
					m.loads = append(m.loads, fmt.Sprint(k))
					if err != errLoad || got != 0 {
						bad(got, err)
					}
					settle(now, takes)
				default:
					m.loads = append(m.loads, fmt.Sprint(k))
					if err != nil || got != nextLoad {
						bad(got, err)
					}
					settle(now, takes)
					m.put(k, nextLoad, time.Now())
				}
			case "Delete":
				g.Delete(k)
				if i >= 0 {
					m.remove(i)
				}
			case "Clear":
				g.Clear()
				for len(m.es) > 0 {
					m.remove(0)
				}
			}
			sig += desc[:2] + fmt.Sprint(k, now.Sub(start))
			compare(desc)
		}
		// nothing is left that a timeout should have removed, nothing else is gone
		for len(flights) > 0 {
			pass(time.Until(flights[0].at))
		}
		for j := 0; j < 3; j++ {
			pass([]time.Duration{20 * f.unit, 100 * f.unit, 10000 * f.unit}[j])
			expire()
			compare("the end")
		}
		cancel()
		for len(m.es) > 0 && c.R.IntN(2) == 0 {
			g.Delete(m.es[0].k)
			m.remove(0)
		}
		g.Clear()
		for len(m.es) > 0 {
			m.remove(0)
		}
		compare("Clear with the context cancelled")
		c.Events("timeline steps judged", f.steps)
		c.Events("expiries judged", expired)
		c.Events("loads and updates that overlapped others judged", overlapped)
		c.Events("unloads judged", len(m.unloaded))
		c.Events("loads judged", len(m.loads))
		c.Distinct(sig)
		c.Sample(func() string { return sig })
	})
}

var allOps = []string{"Set", "Set", "Set", "LockForUpdate", "Has", "Has", "HasOrCreate", "HasOrCreate", "Get", "Get", "Get", "Delete", "Clear"}

func timeouts(c *kit.Case, f *config) {
	// .3 ms keeps deadlines off the grid of the operations
	if f.unit == 0 {
		f.unit = time.Millisecond
	}
	longest := 12
	if f.sparse {
		longest = 150
	}
	if f.fine {
		longest = []int{400, 3000, 100000}[c.R.IntN(3)]
		if f.unit > time.Minute { // the clock ends in 2262
			longest = 400
		}
	}
	d := func() time.Duration { return time.Duration(c.R.IntN(longest))*f.unit + f.unit/10*3 }
	switch c.R.IntN(3) {
	case 0:
		f.read = d()
	case 1:
		f.write = d()
	case 2:
		f.read, f.write = d(), d()
	}
}

func anyConfig(c *kit.Case) config {
	f := config{ops: allOps, steps: 30, keys: 1 + c.R.IntN(5)}
	if c.R.IntN(2) == 0 {
		f.max = 1 + c.R.IntN(4)
		f.keys = f.max + 1 + c.R.IntN(3)
	}
	f.load, f.lockLoad, f.unload, f.fail = c.R.IntN(2) == 0, c.R.IntN(2) == 0, c.R.IntN(2) == 0, c.R.IntN(2) == 0
	f.slow = c.R.IntN(3) == 0
	f.overlap = c.R.IntN(2) == 0
	if c.R.IntN(3) > 0 {
		timeouts(c, &f)
	}
	return f
}
