package chansp

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/workers"
)

type ctxKey struct{}

// task is a submitted function and what became of it.
type task struct {
	runs     int32
	done     bool
	from, to time.Duration
}

// pool is a runner under watch: how many functions run, and which ran.
type pool struct {
	c       *kit.Case
	r       *workers.Runner
	ctx     context.Context
	w       int
	running atomic.Int32
	peak    atomic.Int32
	what    string
}

func (p *pool) run(t *task, ctx context.Context, with bool, body func()) {
	if n := p.running.Add(1); int(n) > p.w {
		p.c.Violate("%s: %d functions run at once", p.what, n)
	} else {
		kit.Raise(&p.peak, n)
	}
	if with && (ctx == nil || ctx.Value(ctxKey{}) != p.c || ctx != p.ctx) {
		p.c.Violate("%s: a function got a context that is not the runner's", p.what)
	}
	if n := atomic.AddInt32(&t.runs, 1); n != 1 {
		p.c.Violate("%s: a function ran %d times", p.what, n)
	}
	body()
	p.running.Add(-1)
}

func (p *pool) submit(r *rand.Rand, t *task, body func()) {
	if r.IntN(2) == 0 {
		p.r.Run(func() { p.run(t, nil, false, body) })
	} else {
		p.r.RunWithContext(func(ctx context.Context) { p.run(t, ctx, true, body) })
	}
}

func newPool(c *kit.Case, ctx context.Context) *pool {
	return newPoolOf(c, ctx, 1+c.R.IntN(6))
}

func newPoolOf(c *kit.Case, ctx context.Context, w int) *pool {
	p := &pool{c: c, ctx: ctx, w: w}
	b := workers.NewRunner().WithContext(ctx)
	if c.R.IntN(6) == 0 {
		p.w = 5 // the default
	} else {
		b.WithWorkerCount(p.w)
	}
	p.what = fmt.Sprintf("workers=%d", p.w)
	p.r = b.Build()
	return p
}

// runSteps submits tasks of given durations at virtual times: after every step
// as many functions run as there are workers or tasks.
func runSteps(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
		defer cancel()
		p := newPool(c, ctx)
		var tasks []*task
		var nested atomic.Int32
		var finished, accepted atomic.Int32
		sig := p.what
		check := func() {
			synctest.Wait()
			open := int(accepted.Load() - finished.Load())
			if got := int(p.running.Load()); got != min(p.w, open) {
				c.Violate("%s: %d functions run with %d tasks unfinished", p.what, got, open)
			}
		}
		for j := 0; j < 25; j++ {
			for range []int{0, 0, 1, 2, 5, 12}[c.R.IntN(6)] {
				time.Sleep(ms)
				check()
			}
			n := []int{1, 1, 2, 4, 130}[c.R.IntN(5)]
			if n == 130 && (j%5 != 4 || c.R.IntN(2) > 0) { // more than the queue takes, sometimes
				n = 3
			}
			d := time.Duration(c.R.IntN(8))*ms + 400*time.Microsecond
			for i := range n {
				t := &task{}
				tasks = append(tasks, t)
				accepted.Add(1)
				nest := i == 0 && c.R.IntN(3) == 0
				r := c.Rand(j*1000 + i)
				body := func() {
					if nest && accepted.Load()-finished.Load() < 50 {
						inner := &task{}
						nested.Add(1)
						accepted.Add(1)
						p.submit(r, inner, func() { time.Sleep(d); finished.Add(1) })
					}
					time.Sleep(d)
					finished.Add(1)
				}
				if n == 130 {
					go c.Guard(func() { p.submit(r, t, body) })
				} else if accepted.Load()-finished.Load() < 90 {
					p.submit(r, t, body)
				} else {
					go c.Guard(func() { p.submit(r, t, body) })
				}
			}
			sig += fmt.Sprint(n, d, ";")
			check()
		}
		for range 400 {
			time.Sleep(5 * ms)
			check()
		}
		time.Sleep(time.Minute)
		check()
		if finished.Load() != accepted.Load() {
			c.Violate("%s: %d of %d functions finished", p.what, finished.Load(), accepted.Load())
		}
		for i, t := range tasks {
			if t.runs != 1 {
				c.Violate("%s: function %d ran %d times", p.what, i, t.runs)
			}
		}
		c.Events("functions judged", len(tasks)+int(nested.Load()))
		c.Events("functions submitted from within functions", int(nested.Load()))
		c.Max("most functions at once", int(p.peak.Load()))
		c.Distinct(sig)
		c.Sample(func() string { return sig })
		cancel()
	})
}

func runStress(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
	defer cancel()
	p := newPool(c, ctx)
	n, each := 1+c.R.IntN(5), 10+c.R.IntN(60)
	tasks := make([][]task, n)
	var left atomic.Int32
	left.Store(int32(n * each))
	c.Go(n, func(g int, r *rand.Rand) {
		tasks[g] = make([]task, each)
		spins := make([]int, each)
		for j := range spins {
			spins[j] = r.IntN(20)
		}
		for j := range each {
			p.submit(r, &tasks[g][j], func() {
				for range spins[j] {
					runtime.Gosched()
				}
				left.Add(-1)
			})
		}
	})
	for left.Load() > 0 {
		runtime.Gosched()
	}
	// all workers can be busy at once
	var wg sync.WaitGroup
	var in atomic.Int32
	gate := make(chan struct{})
	for range p.w {
		wg.Add(1)
		p.submit(c.R, &task{}, func() { in.Add(1); <-gate; wg.Done() })
	}
	for in.Load() < int32(p.w) {
		runtime.Gosched()
	}
	close(gate)
	wg.Wait()
	for g := range tasks {
		for j := range tasks[g] {
			if k := atomic.LoadInt32(&tasks[g][j].runs); k != 1 {
				c.Violate("%s: a function ran %d times", p.what, k)
			}
		}
	}
	c.Events("functions judged", n*each+p.w)
	c.Max("most functions at once", int(p.peak.Load()))
	c.Distinct(p.what, n, each, p.peak.Load())
}

// runCancel cancels a runner in any state.
func runCancel(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
		defer cancel()
		early := c.R.IntN(8) == 0
		if early {
			cancel()
		}
		p := newPool(c, ctx)
		submitters := 1 + c.R.IntN(6)
		each := []int{1, 5, 30, 120}[c.R.IntN(4)]
		d := time.Duration(c.R.IntN(5))*ms + 400*time.Microsecond
		var finished, started, returned atomic.Int32
		tasks := make([][]task, submitters)
		for g := range submitters {
			tasks[g] = make([]task, each)
			r := c.Rand(g)
			go c.Guard(func() {
				for j := range each {
					p.submit(r, &tasks[g][j], func() {
						started.Add(1)
						time.Sleep(d)
						finished.Add(1)
					})
				}
				returned.Add(1)
			})
		}
		time.Sleep(time.Duration(c.R.IntN(12)) * ms)
		synctest.Wait()
		if c.R.IntN(2) == 0 {
			time.Sleep(time.Duration(c.R.IntN(400)) * time.Microsecond)
			synctest.Wait() // functions may have ended at this very moment
		}
		running := p.running.Load()
		before := started.Load()
		cancel()
		synctest.Wait()
		if int(returned.Load()) != submitters {
			c.Violate("%s: %d of %d callers of Run hang after the cancellation", p.what, submitters-int(returned.Load()), submitters)
		}
		if got := p.running.Load(); got < running {
			c.Fatal("functions ended at once")
		}
		var back atomic.Int32
		for range 2 {
			go c.Guard(func() {
				for range 300 { // more than any queue holds
					p.r.Run(func() { started.Add(1); finished.Add(1) })
					p.r.RunWithContext(func(context.Context) { started.Add(1); finished.Add(1) })
				}
				back.Add(1)
			})
		}
		synctest.Wait()
		if back.Load() != 2 {
			c.Violate("%s: later callers of Run hang after the cancellation", p.what)
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		if started.Load() != finished.Load() || p.running.Load() != 0 {
			c.Violate("%s: %d functions started, %d finished", p.what, started.Load(), finished.Load())
		}
		// A worker may pick up a few more by chance, but not a full queue: with
		// two of three choices going on at most, 250 more are never reached.
		more := int(started.Load() - before)
		if more > 150+p.w*10 {
			c.Violate("%s: %d functions were started after the cancellation", p.what, more)
		}
		c.Events("cancellations judged", 1)
		c.Events("callers of Run judged", submitters+2)
		c.Max("most functions started after the cancellation", more)
		c.Distinct(p.what, submitters, each, d, early, before, running)
		c.Sample(func() string {
			return fmt.Sprintf("%s submitters=%d each=%d running=%d startedBefore=%d startedAfter=%d", p.what, submitters, each, running, before, more)
		})
		// the bubble only ends when every worker has
	})
}

// totals of runQueue by number of workers
var workedOff, cancelledRunners [16]atomic.Int64

// runQueue cancels with the queue full and judges that it is not worked off.
func runQueue(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
		defer cancel()
		p := newPool(c, ctx)
		var after, held atomic.Int32
		var holding []*task
		for range p.w {
			t := &task{}
			holding = append(holding, t)
			p.submit(c.R, t, func() { time.Sleep(10 * ms); held.Add(1) })
		}
		synctest.Wait()
		only := c.R.IntN(3)
		queued := 0
		for range 95 {
			if only != 1 {
				p.r.Run(func() { after.Add(1) })
				queued++
			}
			if only != 0 {
				p.r.RunWithContext(func(context.Context) { after.Add(1) })
				queued++
			}
		}
		cancel()
		time.Sleep(time.Minute)
		synctest.Wait()
		if int(held.Load()) != p.w {
			c.Violate("%s: %d of %d running functions finished", p.what, held.Load(), p.w)
		}
		// each worker goes on with probability of two thirds at most
		if int(after.Load()) > 85 {
			c.Violate("%s: %d of %d queued functions were started after the cancellation", p.what, after.Load(), queued)
		}
		// and so all of them together are most unlikely to start five each
		sum := int(workedOff[p.w].Add(int64(after.Load())))
		if n := int(cancelledRunners[p.w].Add(1)); n*p.w >= 60 && sum > 5*n*p.w {
			c.Violate("%s: %d queued functions were started after %d cancellations", p.what, sum, n)
		}
		c.Events("queues judged", 1)
		c.Max("most functions started after the cancellation", int(after.Load()))
		c.Distinct(p.w, only, after.Load())
	})
}

// runFair keeps the queue of one kind of function full and submits a few of the
// other kind: they run all the same.
func runFair(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
		defer cancel()
		p := newPoolOf(c, ctx, 1+c.R.IntN(3))
		plain := c.R.IntN(2) == 0 // the kind that there is much of
		submit := func(plain bool, t *task, body func()) {
			if plain {
				p.r.Run(func() { p.run(t, nil, false, body) })
			} else {
				p.r.RunWithContext(func(ctx context.Context) { p.run(t, ctx, true, body) })
			}
		}
		var much, few atomic.Int32
		stop := make(chan struct{})
		var feeders sync.WaitGroup
		for range 1 + c.R.IntN(3) {
			feeders.Add(1)
			go c.Guard(func() {
				defer feeders.Done()
				for {
					select {
					case <-stop:
						return
					default:
						submit(plain, &task{}, func() { time.Sleep(ms); much.Add(1) })
					}
				}
			})
		}
		time.Sleep(time.Duration(c.R.IntN(20)) * ms)
		worst := 0
		for range 3 {
			n := 1 + c.R.IntN(3)
			from, goal := much.Load(), few.Load()+int32(n)
			for range n {
				submit(!plain, &task{}, func() { few.Add(1) })
			}
			for few.Load() < goal {
				c.Tick()
				time.Sleep(ms)
				if d := much.Load() - from; d > 600 {
					c.Violate("%s: of %d functions of one kind (with a context: %v) %d have not run while %d of the other kind have", p.what, n, plain, goal-few.Load(), d)
				}
			}
			worst = max(worst, int(much.Load()-from))
		}
		close(stop)
		feeders.Wait()
		time.Sleep(time.Minute)
		c.Events("functions judged", int(much.Load()+few.Load()))
		c.Max("most functions of the other kind run before one kind's", worst)
		c.Distinct(p.what, plain, worst)
		cancel()
	})
}

func runCancelRace(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.WithValue(context.Background(), ctxKey{}, c))
	defer cancel()
	p := newPool(c, ctx)
	when := c.R.IntN(40)
	tasks := make([][]task, 4)
	c.Go(4, func(g int, r *rand.Rand) {
		tasks[g] = make([]task, 60)
		for j := range tasks[g] {
			if g == 0 && j == when {
				cancel()
			}
			p.submit(r, &tasks[g][j], runtime.Gosched)
		}
	})
	c.Events("callers of Run judged", 4)
	c.Distinct(p.w, when)
}

func init() {
	kit.Register(&kit.Prop{ID: "C28",
		Rule: "a distinct shape is a worker count with a sequence of submissions, or a race by its size and the most functions seen at once",
		Parts: []kit.Part{
			{Name: "steps", N: 800, Fn: runSteps},
			{Name: "stress", N: 600, Stress: true, Fn: runStress},
			{Name: "large", N: 30, Stress: true, Fn: runLarge},
			{Name: "fairness", N: 60, Fn: runFair},
			{Name: "mass", N: 25, Fn: runMass},
		}})
	kit.Register(&kit.Prop{ID: "C29",
		Rule: "a distinct shape is a configuration with the numbers of functions started and running when the context was cancelled",
		Parts: []kit.Part{
			{Name: "cancel", N: 1200, Stress: true, Fn: runCancel},
			{Name: "queue", N: 1200, Stress: true, Fn: runQueue},
			{Name: "race", N: 300, Stress: true, Fn: runCancelRace},
			{Name: "mass", N: 40, Fn: runCancelMass},
		}})
}
