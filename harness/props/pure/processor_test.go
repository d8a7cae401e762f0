package pure

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"strings"

	"axverif/kit"

	"github.com/axgrid/axutils/flow"
)

// stepErr is an error of one step for one event, compared by identity.
type stepErr struct{ step, ev, nth int }

func (e *stepErr) Error() string { return fmt.Sprintf("step %d failed", e.step) }

// ev is an event: it records what ran for it, with which state, and scripts
// what every step answers.
type ev struct {
	id    int
	seed  uint64
	mood  int // how likely steps are to pass
	st    *evState
	log   []string
	calls map[int]int
	errs  map[[2]int]error
	bad   string
	// what a step does when it is the nth of the event to run
	hooks map[int]func()
}

type evState struct{ id, touched int }

func newEv(id int, seed uint64, mood int) *ev {
	return &ev{id: id, seed: seed, mood: mood, st: &evState{id: id}, calls: map[int]int{}, errs: map[[2]int]error{}}
}

// answer tells whether the nth call of a step passes for this event.
func (e *ev) answer(step, nth int) bool {
	h := fnv.New64a()
	fmt.Fprint(h, e.seed, "/", e.id, "/", step, "/", nth)
	x := h.Sum64() % 100
	switch e.mood {
	case 0:
		return true
	case 1:
		return x >= 4
	}
	return x >= 35
}

func (e *ev) call(kind string, step int, st *evState) bool {
	nth := e.calls[step]
	e.calls[step]++
	ok := e.answer(step, nth)
	e.log = append(e.log, fmt.Sprintf("%s%d.%d", kind, step, nth))
	if h := e.hooks[len(e.log)]; h != nil {
		h()
	}
	if st != nil {
		if st != e.st {
			e.bad = fmt.Sprintf("step %s%d was given a state of another event", kind, step)
		}
		st.touched++
	}
	if !ok {
		var err error = &stepErr{step, e.id, nth}
		if x := e.seed ^ uint64(step)<<8 ^ uint64(nth); x%4 == 0 {
			err = kit.AnyErr(rand.New(rand.NewPCG(e.seed, x)), "step %d", step)
		}
		e.errs[[2]int{step, nth}] = err
	}
	return ok
}

// elem is a step of the reference program.
type elem struct {
	kind string // "on", "onevent" or "do"
	id   int
}

type program struct {
	elems []elem
	text  []string
}

func build(c *kit.Case, r *rand.Rand, routes int) (*flow.ProcessorBuilder[*ev, *evState], *program) {
	p := &program{}
	next := 0
	b := flow.NewProcessor[*ev, *evState]()
	fresh := func() int {
		// now and then a step is used twice
		if next > 0 && r.IntN(10) == 0 {
			return r.IntN(next)
		}
		next++
		return next - 1
	}
	do := func(id int) func(*ev, *evState) error {
		return func(e *ev, s *evState) error {
			nth := e.calls[id]
			if e.call("do", id, s) {
				return nil
			}
			return e.errs[[2]int{id, nth}]
		}
	}
	for range routes {
		ret := b
		if r.IntN(2) == 0 {
			n := r.IntN(7)
			if r.IntN(20) == 0 {
				n = r.IntN(200)
			}
			var line []string
			ret = b.Route(func(rb *flow.ProcessorRouterBuilder[*ev, *evState]) {
				for range n {
					id := fresh()
					k := pick(r, "on", "onevent", "do", "do")
					var back *flow.ProcessorRouterBuilder[*ev, *evState]
					switch k {
					case "on":
						back = rb.On(func(e *ev, s *evState) bool { return e.call("on", id, s) })
					case "onevent":
						back = rb.OnEvent(func(e *ev) bool { return e.call("onevent", id, nil) })
					case "do":
						back = rb.Do(do(id))
					}
					if r.IntN(2) == 0 {
						rb = back // chained use
					}
					p.elems = append(p.elems, elem{k, id})
					line = append(line, fmt.Sprintf("%s%d", k, id))
				}
			})
			p.text = append(p.text, "Route("+strings.Join(line, " ")+")")
		} else {
			cond := fresh()
			var fns []func(*ev, *evState) error
			var line []string
			n := r.IntN(5)
			if r.IntN(20) == 0 {
				n = r.IntN(200)
			}
			for range n {
				id := fresh()
				fns = append(fns, do(id))
				p.elems = append(p.elems, elem{"onevent", cond}, elem{"do", id})
				line = append(line, fmt.Sprintf("do%d", id))
			}
			ret = b.RouteOn(func(e *ev) bool { return e.call("onevent", cond, nil) }, fns...)
			for i := range fns {
				fns[i] = nil // the caller's slice is the caller's
			}
			p.text = append(p.text, fmt.Sprintf("RouteOn(onevent%d: %s)", cond, strings.Join(line, " ")))
		}
		if r.IntN(2) == 0 {
			b = ret
		}
	}
	return b, p
}

// expect interprets the program for a fresh copy of the event. failed is the
// step that stopped it, or nil.
func (p *program) expect(e *ev) (log []string, failed *elem, nth int) {
	calls := map[int]int{}
	for i := range p.elems {
		s := &p.elems[i]
		k := calls[s.id]
		calls[s.id]++
		log = append(log, fmt.Sprintf("%s%d.%d", s.kind, s.id, k))
		if !e.answer(s.id, k) {
			return log, s, k
		}
	}
	return log, nil, 0
}

func (p *program) judge(c *kit.Case, e *ev, err error) {
	log, failed, nth := p.expect(e)
	got, want := strings.Join(e.log, " "), strings.Join(log, " ")
	prog := strings.Join(p.text, " ")
	if e.bad != "" {
		c.Violate("%s; program %s", e.bad, prog)
	}
	if got != want {
		c.Violate("program %s\nevent %d ran %s\nshould run %s", prog, e.id, got, want)
	}
	switch {
	case failed == nil && err != nil:
		c.Violate("program %s: no step failed but the result is %v", prog, err)
	case failed != nil && err == nil:
		c.Violate("program %s: %s%d stopped event %d but the result is nil", prog, failed.kind, failed.id, e.id)
	case failed != nil && failed.kind == "do" && err != e.errs[[2]int{failed.id, nth}]:
		c.Violate("program %s: do%d returned %v but the result is another error: %v", prog, failed.id, e.errs[[2]int{failed.id, nth}], err)
	}
	var se *stepErr
	if failed != nil && failed.kind != "do" && errors.As(err, &se) {
		c.Violate("program %s: condition %s%d failed but the result is an error of step %d", prog, failed.kind, failed.id, se.step)
	}
	c.Events("steps", len(log))
	c.Events("events", 1)
	if failed != nil {
		c.Events("events stopped by "+failed.kind, 1)
	}
	if len(log) > 0 {
		c.Distinct(len(p.elems), got, failed != nil)
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C30",
		Rule: "distinct (program length, sequence of steps run, outcome) judged against the reference interpreter",
		Parts: []kit.Part{
			{Name: "sequential", N: 6000, Fn: func(c *kit.Case) {
				b, p := build(c, c.R, c.R.IntN(6))
				procs := []func(*ev, *evState) error{b.Build()}
				if c.R.IntN(3) == 0 {
					procs = append(procs, b.Build())
				}
				for i := range 6 {
					e := newEv(i, c.R.Uint64(), c.R.IntN(3))
					p.judge(c, e, procs[c.R.IntN(len(procs))](e, e.st))
				}
				c.Sample(func() string { return strings.Join(p.text, " ") })
			}},
			{Name: "large", N: 25, Fn: func(c *kit.Case) {
				b, p := build(c, c.R, 50+c.R.IntN(400))
				f := b.Build()
				for i := range 20 {
					e := newEv(i, c.R.Uint64(), []int{0, 0, 1, 2}[c.R.IntN(4)])
					p.judge(c, e, f(e, e.st))
				}
				c.Max("steps of one processor", len(p.elems))
			}},
			{Name: "two builders", N: 600, Fn: func(c *kit.Case) {
				// programs built in turns do not mix
				b1, p1 := build(c, c.R, 1+c.R.IntN(3))
				b2, p2 := build(c, c.R, 1+c.R.IntN(3))
				f1, f2 := b1.Build(), b2.Build()
				for i := range 4 {
					e := newEv(i, c.R.Uint64(), c.R.IntN(3))
					p1.judge(c, e, f1(e, e.st))
					e = newEv(i, c.R.Uint64(), c.R.IntN(3))
					p2.judge(c, e, f2(e, e.st))
				}
			}},
			{Name: "concurrent", N: 300, Stress: true, Fn: func(c *kit.Case) {
				b, p := build(c, c.R, 1+c.R.IntN(5))
				f := b.Build()
				n := 2 + c.R.IntN(6)
				type done struct {
					e   *ev
					err error
				}
				res := make([][]done, n)
				c.Go(n, func(g int, r *rand.Rand) {
					for i := range 10 {
						e := newEv(g*100+i, r.Uint64(), r.IntN(3))
						err := f(e, e.st)
						res[g] = append(res[g], done{e, err})
					}
				})
				for _, ds := range res {
					for _, d := range ds {
						p.judge(c, d.e, d.err)
					}
				}
			}},
			{Name: "nested", N: 1500, Fn: func(c *kit.Case) {
				// steps process other events, with the same processor or
				// another, themselves or in a goroutine they wait for
				b1, p1 := build(c, c.R, 1+c.R.IntN(4))
				b2, p2 := build(c, c.R, 1+c.R.IntN(4))
				fs := []func(*ev, *evState) error{b1.Build(), b2.Build(), b1.Build()}
				ps := []*program{p1, p2, p1}
				id, nested := 0, 0
				var process func(depth int, r *rand.Rand)
				process = func(depth int, r *rand.Rand) {
					e := newEv(id, r.Uint64(), r.IntN(2))
					id++
					k := r.IntN(3)
					e.hooks = map[int]func(){}
					if depth < 3 {
						for range 1 + r.IntN(2) {
							away := r.IntN(2) == 0
							e.hooks[1+r.IntN(max(1, len(ps[k].elems)))] = func() {
								nested++
								if !away {
									process(depth+1, r)
									return
								}
								done := make(chan struct{})
								go c.Guard(func() { defer close(done); process(depth+1, r) })
								<-done
							}
						}
					}
					ps[k].judge(c, e, fs[k](e, e.st))
				}
				for range 3 {
					process(0, c.R)
				}
				c.Events("events processed within a step", nested)
			}},
			{Name: "values", N: 300, Fn: func(c *kit.Case) {
				// events and states that are plain values arrive as they were given
				type st struct {
					n int
					s string
				}
				n := c.R.IntN(6)
				var evs []string
				var sts []st
				fp := flow.NewProcessor[string, st]()
				for range n {
					fp.Route(func(rb *flow.ProcessorRouterBuilder[string, st]) {
						rb.On(func(e string, s st) bool { evs, sts = append(evs, e), append(sts, s); return true }).
							Do(func(e string, s st) error { evs, sts = append(evs, e), append(sts, s); return nil })
					})
				}
				e, s := string(content(c.R, c.R.IntN(10))), st{c.R.Int(), string(content(c.R, c.R.IntN(5)))}
				if err := fp.Build()(e, s); err != nil {
					c.Violate("all steps passed but the result is %v", err)
				}
				if len(evs) != 2*n {
					c.Violate("%d of %d steps ran", len(evs), 2*n)
				}
				for i := range evs {
					if evs[i] != e || sts[i] != s {
						c.Violate("a step was given (%q, %v) instead of (%q, %v)", evs[i], sts[i], e, s)
					}
				}
				c.Events("steps", 2*n)
				// and so do events and states that are nothing
				for range 4 {
					var e any = pick[any](c.R, nil, 0, "", (*st)(nil), st{}, error(nil))
					var s *st
					if c.R.IntN(2) == 0 {
						s = &st{}
					}
					ran := 0
					same := func(ge any, gs *st) {
						ran++
						if ge != e || gs != s {
							c.Violate("a step was given (%v, %v) instead of (%v, %v)", ge, gs, e, s)
						}
					}
					want := pick[error](c.R, nil, kit.AnyErr(c.R, "failed"))
					err := flow.NewProcessor[any, *st]().
						RouteOn(func(ge any) bool { same(ge, s); return true }, func(ge any, gs *st) error { same(ge, gs); return nil }).
						Route(func(rb *flow.ProcessorRouterBuilder[any, *st]) {
							rb.OnEvent(func(ge any) bool { same(ge, s); return true }).
								On(func(ge any, gs *st) bool { same(ge, gs); return true }).
								Do(func(ge any, gs *st) error { same(ge, gs); return want }).
								Do(func(ge any, gs *st) error { same(ge, gs); return nil })
						}).Build()(e, s)
					all := 6
					if want != nil {
						all = 5
					}
					if err != want || ran != all {
						c.Violate("event %v, state %v: %d steps ran and the result is %v; want %d and %v", e, s, ran, err, all, want)
					}
					c.Events("steps", ran)
				}
			}},
		},
	})
}
