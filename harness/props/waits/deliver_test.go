package waits

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"
	"axverif/typed"

	"github.com/anishathalye/porcupine"
	"github.com/axgrid/axutils/collections"
)

// waitSet is what WaitMap and ResponseMap have in common.
type waitSet interface {
	Wait(int) int
	Set(int, int)
}

type maker func(c *kit.Case, ctx context.Context) waitSet

func longWaitMap(c *kit.Case, ctx context.Context) waitSet {
	return typed.NewWaitMap(c.R).WithContext(ctx).WithRequestTimeout(time.Hour).WithResponseTtl(2 * time.Hour).Build()
}

func longResponseMap(c *kit.Case, ctx context.Context) waitSet {
	return typed.NewResponseMap(c.R, ctx).WithResponseTimeout(time.Hour).WithClearTimeout(2 * time.Hour).Build()
}

type wsIn struct {
	set  bool
	k, v int
}

func (i wsIn) String() string {
	if i.set {
		return fmt.Sprintf("Set(%d,%d)", i.k, i.v)
	}
	return fmt.Sprintf("Wait(%d)", i.k)
}

// firstWins: the first Set of a key decides what every Wait returns, and a Wait
// can only be answered once there is one.
var firstWins = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(wsIn).k
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, x := range by {
			out = append(out, x)
		}
		return out
	},
	Init: func() any { return -1 },
	Step: func(st, in, out any) (bool, any) {
		i := in.(wsIn)
		if i.set {
			if st.(int) == -1 {
				return true, i.v
			}
			return true, st
		}
		return st.(int) != -1 && out.(int) == st.(int), st
	},
}

// deliverLin races waiters and setters on fresh keys.
func deliverLin(mk maker) func(c *kit.Case) {
	return func(c *kit.Case) {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		m := mk(c, ctx)
		waiters, setters, keys := 1+c.R.IntN(4), 1+c.R.IntN(3), 1+c.R.IntN(4)
		h := kit.NewHist(waiters + setters)
		c.Go(waiters+setters, func(g int, r *rand.Rand) {
			if g < waiters {
				off := r.IntN(keys)
				for j := 0; j < keys+2; j++ {
					k := (off + j) % keys
					h.Do(g, wsIn{k: k}, func() any { return m.Wait(k) })
				}
				return
			}
			// every setter sets every key, so that each is decided
			off := r.IntN(keys)
			for j := 0; j < keys+2; j++ {
				k := (off + j) % keys
				v := (g+1)*1000 + j
				if r.IntN(12) == 0 {
					v = 0 // a value like any other
				}
				h.Do(g, wsIn{true, k, v}, func() any { m.Set(k, v); return nil })
				if r.IntN(3) == 0 {
					h.Do(g, wsIn{k: k}, func() any { return m.Wait(k) })
				}
				for n := r.IntN(4); n > 0; n-- {
					runtime.Gosched()
				}
			}
		})
		c.Linearizable("Wait and Set", firstWins, h.Ops())
	}
}

// deliverStorm has a crowd waiting for one key when it is set.
func deliverStorm(mk maker, least, most int) func(c *kit.Case) {
	return func(c *kit.Case) {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		m := mk(c, ctx)
		crowd := least + c.R.IntN(most-least)
		keys := 1 + c.R.IntN(3)
		if most > 1000 && c.R.IntN(5) == 0 {
			crowd, keys = 4500+c.R.IntN(1200), 1
		}
		late := c.R.IntN(2) == 0
		var in atomic.Int32
		out := make([][]int, crowd)
		setters := keys * (1 + c.R.IntN(3))
		c.Go(crowd+setters, func(g int, r *rand.Rand) {
			if g < crowd {
				in.Add(1)
				for j := 0; j < 2; j++ {
					out[g] = append(out[g], m.Wait(g%keys))
				}
				return
			}
			for late && in.Load() < int32(crowd) {
				runtime.Gosched()
			}
			s := g - crowd
			m.Set(s%keys, 100+s)
		})
		for k := 0; k < keys; k++ {
			want := m.Wait(k)
			if want < 100 || (want-100)%keys != k || want-100 >= setters {
				c.Violate("Wait(%d) returned %d, which was not set for it", k, want)
			}
			for g := k; g < crowd; g += keys {
				for _, v := range out[g] {
					if v != want {
						c.Violate("waiter %d of key %d got %d, others %d", g, k, v, want)
					}
				}
			}
			c.Distinct(crowd, keys, k, want, late)
		}
		c.Events("waiters of crowds answered", 2*crowd)
	}
}

// deliverSteps runs Wait and Set one after another in virtual time, each
// operation settled before the next, against an exact reference.
func deliverSteps(mk maker) func(c *kit.Case) {
	return func(c *kit.Case) {
		c.Bubble(func() {
			ctx, cancel := kit.Ctx(c.R, context.Background())
			m := mk(c, ctx)
			keys := 1 + c.R.IntN(5)
			stored := map[int]int{}
			pending := map[int][]*answer{}
			total := 0
			sig := ""
			for j := 0; j < 30; j++ {
				k := c.R.IntN(keys)
				if c.R.IntN(4) == 0 {
					time.Sleep(time.Duration(c.R.IntN(1000)) * time.Millisecond)
				}
				v, has := stored[k]
				if c.R.IntN(3) > 0 {
					c.Logf("Wait(%d)", k)
					a := waitFor(c, m, k)
					synctest.Wait()
					total++
					if has && (!a.done.Load() || a.v != v) {
						c.Violate("Wait(%d) after the key was set to %d: answered=%v %d", k, v, a.done.Load(), a.v)
					}
					if !has {
						pending[k] = append(pending[k], a)
					}
					sig += fmt.Sprint("w", k)
				} else {
					nv := j + 1
					if c.R.IntN(10) == 0 {
						nv = 0
					}
					c.Logf("Set(%d,%d)", k, nv)
					m.Set(k, nv)
					synctest.Wait()
					if !has {
						stored[k] = nv
						for _, a := range pending[k] {
							if !a.done.Load() || a.v != nv {
								c.Violate("a Wait(%d) was not answered by Set(%d,%d): answered=%v %d", k, k, nv, a.done.Load(), a.v)
							}
						}
						delete(pending, k)
					}
					sig += fmt.Sprint("s", k)
				}
				for k, as := range pending {
					for _, a := range as {
						if a.done.Load() {
							c.Violate("Wait(%d) returned %d although the key was never set", k, a.v)
						}
					}
				}
			}
			for k := range pending {
				m.Set(k, 7)
			}
			synctest.Wait()
			for k, as := range pending {
				for _, a := range as {
					if !a.done.Load() || a.v != 7 {
						c.Violate("a Wait(%d) was not answered by Set(%d,7): answered=%v %d", k, k, a.done.Load(), a.v)
					}
				}
			}
			cancel()
			synctest.Wait()
			c.Events("waits judged step by step", total)
			c.Distinct(sig)
			c.Sample(func() string { return sig })
		})
	}
}

// deliverRounds lets rounds of waiters come and go unanswered before, and while,
// keys are set: that a round timed out changes nothing for the value.
func deliverRounds(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		resp := time.Duration(1+c.R.IntN(40))*time.Millisecond + 300*time.Microsecond
		m := typed.NewResponseMap(c.R, ctx).WithResponseTimeout(resp).WithClearTimeout(time.Hour).Build()
		keys := 1 + c.R.IntN(4)
		stored := map[int]int{}
		pending := map[int][]*answer{}
		timedOut, after := map[int]bool{}, 0
		sig := ""
		for j := 0; j < 40; j++ {
			time.Sleep(time.Duration([]int{0, 0, 1, 5, 20, 41, 90}[c.R.IntN(7)]) * time.Millisecond)
			synctest.Wait()
			k := c.R.IntN(keys)
			for k, as := range pending {
				var left []*answer
				for _, a := range as {
					if !a.done.Load() {
						left = append(left, a)
					} else if a.v != 0 {
						c.Violate("Wait(%d) returned %d although the key was never set", k, a.v)
					} else {
						timedOut[k] = true
					}
				}
				pending[k] = left
			}
			v, has := stored[k]
			if c.R.IntN(4) > 0 {
				c.Logf("Wait(%d)", k)
				a := waitFor(c, m, k)
				synctest.Wait()
				if has && (!a.done.Load() || a.v != v) {
					c.Violate("Wait(%d) after the key was set to %d (timed out before: %v): answered=%v %d", k, v, timedOut[k], a.done.Load(), a.v)
				}
				if has && timedOut[k] {
					after++
				}
				if !has {
					pending[k] = append(pending[k], a)
				}
				sig += fmt.Sprint("w", k)
				continue
			}
			nv := j + 1
			c.Logf("Set(%d,%d)", k, nv)
			m.Set(k, nv)
			synctest.Wait()
			if !has {
				stored[k] = nv
				for _, a := range pending[k] {
					if !a.done.Load() || a.v != nv {
						c.Violate("a Wait(%d), with %v for an answer, was not answered by Set(%d,%d) (timed out before: %v): answered=%v %d", k, resp, k, nv, timedOut[k], a.done.Load(), a.v)
					}
				}
				pending[k] = nil
			}
			sig += fmt.Sprint("s", k)
		}
		cancel()
		synctest.Wait()
		c.Events("values returned for keys that had timed out before", after)
		c.Distinct(resp, sig)
	})
}

type answer struct {
	k    int
	v    int
	err  error
	at   time.Time
	done atomic.Bool
}

func waitFor(c *kit.Case, m waitSet, k int) *answer {
	a := &answer{k: k}
	go c.Guard(func() {
		a.v = m.Wait(k)
		a.at = time.Now()
		a.done.Store(true)
	})
	return a
}

type payload struct{ A, B, C, D string }

func text(i int) payload {
	return payload{fmt.Sprint("a", i), fmt.Sprint("b", i), fmt.Sprint("c", i), fmt.Sprint("d", i)}
}

// deliverTypes uses other key and value types than numbers: values of several
// words cannot arrive torn, keys of any comparable kind stay apart.
func deliverTypes(mk func(ctx context.Context) interface {
	Wait(payload) payload
	Set(payload, payload)
}) func(c *kit.Case) {
	return func(c *kit.Case) {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		m := mk(ctx)
		n := 2 + c.R.IntN(5)
		keys := make([]payload, 4)
		for k := range keys {
			keys[k] = payload{A: "k", B: []string{"", "x"}[k/2], C: []string{"", "x"}[k%2]}
		}
		got := make([][4]payload, n)
		c.Go(2*n, func(g int, r *rand.Rand) {
			for j := range keys {
				k := (j + g) % 4
				if g < n {
					got[g][k] = m.Wait(keys[k])
				} else {
					m.Set(keys[k], text(k*100+g))
				}
			}
		})
		for k := range keys {
			want := m.Wait(keys[k])
			ok := false
			for g := n; g < 2*n; g++ {
				ok = ok || want == text(k*100+g)
			}
			for g := range got {
				ok = ok && got[g][k] == want
			}
			if !ok {
				c.Violate("key %v: waiters got %v, a later Wait %v", keys[k], got, want)
			}
			c.Distinct(n, k, want)
		}
		c.Events("struct answers judged", 4*n)
	}
}

func init() {
	kit.Register(&kit.Prop{ID: "C13",
		Rule: "a distinct shape is a history with overlapping operations, as the order of calls, returns and results, a crowd with the setter that won, or a sequence of settled steps, each judged by the first-wins reference",
		Parts: []kit.Part{
			{Name: "linearizable", N: 3000, Stress: true, Fn: deliverLin(longWaitMap)},
			{Name: "storm", N: 400, Stress: true, Fn: deliverStorm(longWaitMap, 8, 68)},
			{Name: "large storm", N: 16, Stress: true, Fn: deliverStorm(longWaitMap, 300, 1500)},
			{Name: "many keys", N: 32, Stress: true, Fn: deliverMany(longWaitMap)},
			{Name: "steps", N: 800, Fn: deliverSteps(longWaitMap)},
			{Name: "churn", N: 400, Stress: true, Fn: wmChurn},
			{Name: "types", N: 400, Stress: true, Fn: deliverTypes(func(ctx context.Context) interface {
				Wait(payload) payload
				Set(payload, payload)
			} {
				return collections.NewWaitMap[payload, payload]().WithContext(ctx).Build()
			})},
		}})
	kit.Register(&kit.Prop{ID: "C15",
		Rule: "a distinct shape is a history with overlapping operations, as the order of calls, returns and results, a crowd with the setter that won, or a sequence of settled steps, each judged by the first-wins reference",
		Parts: []kit.Part{
			{Name: "linearizable", N: 3000, Stress: true, Fn: deliverLin(longResponseMap)},
			{Name: "storm", N: 400, Stress: true, Fn: deliverStorm(longResponseMap, 8, 68)},
			{Name: "large storm", N: 16, Stress: true, Fn: deliverStorm(longResponseMap, 300, 1500)},
			{Name: "many keys", N: 32, Stress: true, Fn: deliverMany(longResponseMap)},
			{Name: "steps", N: 800, Fn: deliverSteps(longResponseMap)},
			{Name: "rounds", N: 500, Fn: deliverRounds},
			{Name: "churn", N: 400, Stress: true, Fn: rmChurn},
			{Name: "types", N: 400, Stress: true, Fn: deliverTypes(func(ctx context.Context) interface {
				Wait(payload) payload
				Set(payload, payload)
			} {
				return collections.NewResponseMap[payload, payload](ctx).Build()
			})},
		}})
}
