package whole

import (
	"context"
	"crypto/md5"
	"errors"
	"fmt"
	"maps"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/flow"
)

// A bomb is how a function of the user ends a call: not at all (nil), by a
// panic, or by ending its goroutine.
type bomb struct {
	exit bool
	v    any
}

type oddPanic struct{ a, b int }

func anyBomb(r *rand.Rand) *bomb {
	switch r.IntN(5) {
	case 0:
		return &bomb{exit: true}
	case 1:
		return &bomb{v: errors.New("in a panic")}
	case 2:
		return &bomb{v: oddPanic{r.IntN(9), r.IntN(9)}}
	case 3:
		return &bomb{v: &oddPanic{1, 2}}
	}
	return &bomb{v: "bang"}
}

func (b *bomb) go_() {
	switch {
	case b == nil:
	case b.exit:
		runtime.Goexit()
	default:
		panic(b.v)
	}
}

// try calls f in a goroutine of its own and says whether it ended as b has it.
func try(b *bomb, f func()) error {
	res := make(chan error)
	go func() {
		var err error = errors.New("the goroutine was ended")
		if b != nil && b.exit {
			err = nil
		}
		defer func() {
			switch p := recover(); {
			case p == nil:
			case b == nil || b.exit || p != b.v:
				err = fmt.Errorf("a panic: %v", p)
			default:
				err = nil
			}
			res <- err
		}()
		f()
		err = nil
		if b != nil {
			err = errors.New("it returned")
		}
	}()
	return <-res
}

// panicMaps: SimpleMap and ShardMap.
func panicMaps(c *kit.Case) {
	var m collections.Map[int, int]
	kind, bad := "SimpleMap", -1
	var badBomb *bomb
	keys := 1 + c.R.IntN(5)
	if c.R.IntN(2) == 0 {
		kind = "ShardMap"
		n := 1 + c.R.IntN(4)
		if c.R.IntN(2) == 0 {
			bad, badBomb = c.R.IntN(keys), anyBomb(c.R)
		}
		m = collections.NewShardMap[int, int]().WithShardsCount(n).WithShardsFunc(func(k int) int {
			if k == bad {
				badBomb.go_()
			}
			return k % n
		}).Build()
	} else {
		m = collections.NewSimpleMap[int, int]()
	}
	model := map[int]int{}
	bombs := 0
	sig := ""
	for step := 0; step < 30; step++ {
		k := c.R.IntN(keys)
		var b *bomb
		if c.R.IntN(2) == 0 {
			b = anyBomb(c.R)
		}
		op := c.R.IntN(6)
		_, has := model[k]
		var got, want any
		ends := b
		if k == bad {
			ends = badBomb
		} else if op != 0 || has {
			ends = nil
		}
		err := try(ends, func() {
			switch op {
			case 0:
				v, created := m.SetIfNotExistsWithFunc(k, func() int { b.go_(); return step })
				got = [2]any{v, created}
			case 1:
				m.Set(k, step)
			case 2:
				m.Delete(k)
			case 3:
				got = m.SetIfNotExists(k, step)
			case 4:
				v, ok := m.Get(k)
				got = [2]any{v, ok}
			case 5:
				got = m.Has(k)
			}
		})
		if err != nil {
			c.Violate("%s step %d op %d on key %d, to end with %v: %v", kind, step, op, k, ends, err)
		}
		if ends == nil {
			switch op {
			case 0:
				if !has {
					model[k] = step
				}
				want = [2]any{model[k], !has}
			case 1:
				model[k] = step
			case 2:
				delete(model, k)
			case 3:
				want = !has
				if !has {
					model[k] = step
				}
			case 4:
				want = [2]any{model[k], has}
			case 5:
				want = has
			}
			if got != want {
				c.Violate("%s step %d op %d on key %d: %v, want %v", kind, step, op, k, got, want)
			}
		} else {
			bombs++
		}
		if m.Size() != len(model) {
			c.Violate("%s step %d after op %d on key %d: Size %d, want %d", kind, step, op, k, m.Size(), len(model))
		}
		for k := 0; k < keys; k++ {
			if k == bad {
				continue
			}
			v, ok := m.Get(k)
			if w, has := model[k]; v != w || ok != has {
				c.Violate("%s step %d: Get(%d) is %d, %v, want %d, %v", kind, step, k, v, ok, w, has)
			}
		}
		sig += fmt.Sprint(op, k, ends != nil)
	}
	c.Events("calls that did not return", bombs)
	c.Distinct(kind, sig)
}

// panicCrowd: many want the same key at once and the first functions blow up.
func panicCrowd(c *kit.Case) {
	n, fails := 2+c.R.IntN(6), c.R.IntN(5)
	keys := 1 + c.R.IntN(3)
	bombs := make([]*bomb, fails)
	for i := range bombs {
		bombs[i] = anyBomb(c.R)
	}
	calls := make([]atomic.Int32, keys)
	inside := make([]atomic.Int32, keys)
	linger := c.R.IntN(3) * 10
	work := func(k int) int {
		if inside[k].Add(1) != 1 {
			c.Violate("two functions for key %d run at the same time", k)
		}
		i := int(calls[k].Add(1)) - 1
		for range linger {
			runtime.Gosched()
		}
		inside[k].Add(-1)
		if i < fails {
			bombs[i].go_()
		}
		return 100*k + i
	}
	kind := []string{"SimpleMap", "ShardMap", "GuavaMap Get", "GuavaMap LockForUpdate"}[c.R.IntN(4)]
	var get func(k int) (int, error)
	update := kind == "GuavaMap LockForUpdate"
	b := collections.NewGuavaMap[int, int]().WithMaxCount(c.R.IntN(2) * 3)
	if c.R.IntN(2) == 0 {
		b.WithReadTimeout(time.Hour)
	}
	switch kind {
	case "SimpleMap":
		m := collections.NewSimpleMap[int, int]()
		get = func(k int) (int, error) {
			v, _ := m.SetIfNotExistsWithFunc(k, func() int { return work(k) })
			return v, nil
		}
	case "ShardMap":
		m := collections.NewShardMap[int, int]().WithShardsFunc(func(k int) int { return k % 2 }).Build()
		get = func(k int) (int, error) {
			v, _ := m.SetIfNotExistsWithFunc(k, func() int { return work(k) })
			return v, nil
		}
	case "GuavaMap Get":
		m := b.WithLockLoad(true).WithLoadFunc(func(k int) (int, error) { return work(k), nil }).Build()
		defer m.Clear()
		get = m.Get
	default:
		m := b.Build()
		defer m.Clear()
		get = func(k int) (int, error) { return m.LockForUpdate(k, func() int { return work(k) }), nil }
	}
	out := make([][]int, n) // per goroutine and key: the value, or -1-i when bomb i went off
	c.Go(n, func(g int, r *rand.Rand) {
		o := make([]int, keys)
		for _, k := range r.Perm(keys) {
			o[k] = once(c, bombs, func() int {
				v, err := get(k)
				if err != nil {
					c.Violate("%s returned %v", kind, err)
				}
				return v
			})
		}
		out[g] = o
	})
	for k := 0; k < keys; k++ {
		blown, vals := 0, map[int]int{}
		for g := range out {
			if out[g][k] < 0 {
				blown++
			} else {
				vals[out[g][k]]++
			}
		}
		want := min(n, fails)
		if blown != want {
			c.Violate("%s key %d: %d callers met the end of their function, %d functions ended so", kind, k, blown, want)
		}
		total := min(n, fails+1)
		if update {
			total = n
		}
		if int(calls[k].Load()) != total {
			c.Violate("%s key %d: %d functions were called by %d callers with the first %d failing", kind, k, calls[k].Load(), n, fails)
		}
		if !update && fails < n && vals[100*k+fails] != n-fails || update && len(vals) != n-blown {
			c.Violate("%s key %d: %d callers, %d failing, got %v", kind, k, n, fails, vals)
		}
		// and everything goes on
		if v := once(c, bombs, func() int { v, _ := get(k); return v }); v < 0 && fails <= n || v >= 0 && !update && fails < n && v != 100*k+fails {
			c.Violate("%s key %d afterwards: %d", kind, k, v)
		}
	}
	c.Events("callers among failing ones", n*keys)
	c.Distinct(kind, n, fails, keys, linger, fmt.Sprint(out))
}

// once runs f, which may end with one of the bombs: then it returns a negative number.
func once(c *kit.Case, bombs []*bomb, f func() int) (res int) {
	done := make(chan int)
	go func() {
		v := -1
		defer func() {
			if p := recover(); p != nil {
				ok := false
				for _, b := range bombs {
					ok = ok || !b.exit && p == b.v
				}
				if !ok {
					c.Violate("a panic of nobody's making: %v", p)
				}
			}
			done <- v
		}()
		v = f()
	}()
	return <-done
}

// panicGuava: histories of a GuavaMap whose functions blow up now and then.
func panicGuava(c *kit.Case) {
	keys, limit := 1+c.R.IntN(5), c.R.IntN(2)*(1+c.R.IntN(4))
	var next *bomb
	step := 0
	var mu sync.Mutex
	unloaded := 0
	b := collections.NewGuavaMap[int, int]().WithMaxCount(limit).WithLockLoad(c.R.IntN(2) == 0)
	load := c.R.IntN(3) > 0
	if load {
		b.WithLoadFunc(func(k int) (int, error) { next.go_(); return step, nil })
	}
	b.WithUnloadFunc(func(int, int) { mu.Lock(); unloaded++; mu.Unlock() })
	if c.R.IntN(2) == 0 {
		b.WithWriteTimeout(time.Hour)
	}
	m := b.Build()
	model, order := map[int]int{}, []int{}
	gone, bombs := 0, 0
	put := func(k, v int) {
		if _, ok := model[k]; !ok {
			if limit > 0 && len(order) == limit {
				delete(model, order[0])
				order = order[1:]
				gone++
			}
			order = append(order, k)
		}
		model[k] = v
	}
	sig := ""
	for step = 1; step <= 30; step++ {
		k := c.R.IntN(keys)
		next = nil
		if c.R.IntN(2) == 0 {
			next = anyBomb(c.R)
		}
		_, has := model[k]
		op := c.R.IntN(4)
		ends := next
		if op == 0 && (has || !load) || op > 1 {
			ends = nil
		}
		var got, want int
		err := try(ends, func() {
			switch op {
			case 0:
				got, _ = m.Get(k)
			case 1:
				got = m.LockForUpdate(k, func() int {
					if v := m.GetStored()[k]; v != model[k] {
						c.Violate("step %d: an update of key %d finds %d, want %d", step, k, v, model[k])
					}
					next.go_()
					return step
				})
			case 2:
				m.Set(k, step)
				got = step
			case 3:
				m.Delete(k)
			}
		})
		if err != nil {
			c.Violate("step %d op %d on key %d, to end with %v: %v", step, op, k, ends, err)
		}
		if ends == nil {
			switch op {
			case 0:
				if !has && load {
					put(k, step)
				}
				want = model[k]
			case 1, 2:
				put(k, step)
				want = step
			case 3:
				if has {
					gone++
					delete(model, k)
					for i := range order {
						if order[i] == k {
							order = append(order[:i:i], order[i+1:]...)
							break
						}
					}
				}
			}
			if got != want {
				c.Violate("step %d op %d on key %d returned %d, want %d", step, op, k, got, want)
			}
		} else {
			bombs++
		}
		if s := m.GetStored(); !maps.Equal(s, model) || m.Size() != len(model) {
			c.Violate("step %d op %d on key %d ended with %v: stored %v, want %v", step, op, k, ends, s, model)
		}
		sig += fmt.Sprint(op, k, ends != nil)
	}
	for i := 0; ; i++ {
		mu.Lock()
		n := unloaded
		mu.Unlock()
		if n == gone {
			break
		}
		if n > gone || i > 100000 {
			c.Violate("%d entries went, %d were unloaded", gone, n)
		}
		runtime.Gosched()
		if i > 1000 {
			time.Sleep(100 * time.Microsecond)
		}
	}
	m.Clear()
	c.Events("calls that did not return", bombs)
	c.Distinct(keys, limit, load, sig)
}

// panicUniq: a hash function that blows up on some values.
func panicUniq(c *kit.Case) {
	b := anyBomb(c.R)
	s := collections.NewStructUniqSet[int]().WithElementTtl(time.Hour).WithCheckInterval(time.Hour).WithBuildFunc(func(v int, _ ...any) ([16]byte, error) {
		if v%3 == 2 {
			b.go_()
		}
		return md5.Sum([]byte{byte(v)}), nil
	}).Build()
	model := map[int]bool{}
	bombs := 0
	sig := ""
	for step := 0; step < 30; step++ {
		v, op := c.R.IntN(7), c.R.IntN(3)
		var ends *bomb
		if v%3 == 2 {
			ends = b
			bombs++
		}
		want := model[v] != (op == 0) // Add is true when it is new
		err := try(ends, func() {
			got, err := []func(int) (bool, error){s.Add, s.Has, s.Remove}[op](v)
			if err != nil || got != want {
				c.Violate("step %d op %d of %d returned %v, %v, want %v", step, op, v, got, err, want)
			}
		})
		if err != nil {
			c.Violate("step %d op %d of %d, to end with %v: %v", step, op, v, ends, err)
		}
		if ends == nil {
			switch op {
			case 0:
				model[v] = true
			case 2:
				delete(model, v)
			}
		}
		if s.Count() != len(model) {
			c.Violate("step %d op %d of %d: Count %d, want %d", step, op, v, s.Count(), len(model))
		}
		sig += fmt.Sprint(op, v)
	}
	c.Events("calls that did not return", bombs)
	c.Distinct(sig)
}

// panicProcessor: steps blow up for some events and for nobody else.
func panicProcessor(c *kit.Case) {
	type event struct {
		at  int // the step that ends it, -1 for none
		b   *bomb
		log []int
	}
	n := 1 + c.R.IntN(8)
	p := flow.NewProcessor[*event, int]()
	step, sig := 0, ""
	for step < n {
		p.Route(func(r *flow.ProcessorRouterBuilder[*event, int]) {
			for i := c.R.IntN(4); i >= 0; i-- {
				s := step
				hit := func(e *event) {
					e.log = append(e.log, s)
					if e.at == s {
						e.b.go_()
					}
				}
				what := c.R.IntN(3)
				sig += fmt.Sprint(what)
				switch what {
				case 0:
					r.On(func(e *event, _ int) bool { hit(e); return true })
				case 1:
					r.OnEvent(func(e *event) bool { hit(e); return true })
				default:
					r.Do(func(e *event, _ int) error { hit(e); return nil })
				}
				step++
			}
			sig += ";"
		})
	}
	run := p.Build()
	c.Go(3, func(g int, r *rand.Rand) {
		for range 6 {
			e := &event{at: r.IntN(step+1) - 1}
			want := step
			if e.at >= 0 {
				e.b, want = anyBomb(r), e.at+1
			}
			err := try(e.b, func() {
				if err := run(e, 0); err != nil {
					c.Violate("the processor returned %v", err)
				}
			})
			if err != nil {
				c.Violate("an event to end at step %d with %v: %v", e.at, e.b, err)
			}
			if len(e.log) != want {
				c.Violate("an event that ended at step %d of %d ran steps %v", e.at, step, e.log)
			}
			for i, s := range e.log {
				if i != s {
					c.Violate("an event that ended at step %d of %d ran steps %v", e.at, step, e.log)
				}
			}
		}
	})
	c.Events("events judged", 18)
	c.Distinct(n, step, sig)
}

// panicTimes: a function that blows up moves no entry's timeout.
func panicTimes(c *kit.Case) {
	c.Bubble(func() {
		var next *bomb
		limit := off(c.R)
		b := collections.NewGuavaMap[int, int]().WithLockLoad(c.R.IntN(2) == 0).WithLoadFunc(func(k int) (int, error) {
			next.go_()
			return 0, nil
		})
		gone := map[int]time.Time{}
		var mu sync.Mutex
		b.WithUnloadFunc(func(k, _ int) { mu.Lock(); gone[k] = time.Now(); mu.Unlock() })
		kind := "write"
		if c.R.IntN(2) == 0 {
			kind = "read"
			b.WithReadTimeout(limit)
		} else {
			b.WithWriteTimeout(limit)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		m := b.WithContext(ctx).Build()
		due := map[int]time.Time{}
		sig := ""
		for step := range 20 {
			k := c.R.IntN(4)
			_, has := due[k]
			op := c.R.IntN(4)
			nap := time.Duration(c.R.IntN(2)*c.R.IntN(8)) * ms
			next = anyBomb(c.R)
			var err error
			switch {
			case op == 0:
				m.Set(k, step)
				due[k] = time.Now().Add(limit)
			case op == 1 && !has:
				err = try(next, func() { m.Get(k) })
			default:
				err = try(next, func() { m.LockForUpdate(k, func() int { time.Sleep(nap); next.go_(); return step }) })
			}
			if err != nil {
				c.Violate("step %d: %v", step, err)
			}
			sig += fmt.Sprint(op, has)
			time.Sleep(time.Duration(c.R.IntN(6)) * ms)
			synctest.Wait()
			for k, at := range due {
				mu.Lock()
				went, is := gone[k]
				delete(gone, k)
				mu.Unlock()
				if over := !time.Now().Before(at); is != over || is && !went.Equal(at) {
					c.Violate("step %d: key %d, which is due in %v of its %s timeout %v, is gone: %v", step, k, time.Until(at), kind, limit, is)
				}
				if is {
					delete(due, k)
				}
			}
			mu.Lock()
			more := len(gone)
			mu.Unlock()
			if m.Size() != len(due) || more > 0 {
				c.Violate("step %d: Size %d, want %d; %d unknown entries were unloaded", step, m.Size(), len(due), more)
			}
		}
		time.Sleep(limit)
		synctest.Wait()
		if m.Size() != 0 {
			c.Violate("%d entries are left after the %s timeout", m.Size(), kind)
		}
		c.Events("functions that did not return while entries aged", 15)
		c.Distinct(kind, sig)
	})
}

func init() {
	kit.Register(&kit.Prop{ID: "C45",
		Rule: "sequences of calls by operation, key and whether they returned; crowds by size, failing functions and who got what",
		Parts: []kit.Part{
			{Name: "maps", N: 4000, Fn: panicMaps},
			{Name: "guava", N: 3000, Fn: panicGuava},
			{Name: "timeouts", N: 2000, Fn: panicTimes},
			{Name: "uniq", N: 800, Fn: panicUniq},
			{Name: "processor", N: 1600, Fn: panicProcessor},
			{Name: "crowd", N: 8000, Stress: true, Fn: panicCrowd},
		}})
}
