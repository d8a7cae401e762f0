package chansp

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/chans"
)

const ms = time.Millisecond

// item is what flows: who sent it, as which, and when.
type item struct {
	p, n  int
	shard int
	at    time.Duration
}

func (i item) String() string { return fmt.Sprintf("%d.%d", i.p, i.n) }

// got is a chunk as it was when it came, and the slice itself.
type got struct {
	shard int
	items []item
	live  []item
	at    time.Duration
}

// judge checks what came out of one shard (or all of a chunker) against what
// each producer had accepted: everything once, in order, in proper chunks.
func judge(c *kit.Case, what string, size int, outs []got, sent [][]item, shard int, partial bool) {
	next := make([]int, len(sent))
	want := make([][]item, len(sent))
	for p := range sent {
		for _, it := range sent[p] {
			if shard < 0 || it.shard == shard {
				want[p] = append(want[p], it)
			}
		}
	}
	for i, g := range outs {
		if len(g.items) == 0 || len(g.items) > size {
			c.Violate("%s: chunk %d has %d items, the chunk size is %d", what, i, len(g.items), size)
		}
		for _, it := range g.items {
			if it.p < 0 || it.p >= len(sent) || next[it.p] >= len(want[it.p]) || want[it.p][next[it.p]] != it {
				exp := "nothing"
				if it.p >= 0 && it.p < len(sent) && next[it.p] < len(want[it.p]) {
					exp = want[it.p][next[it.p]].String()
				}
				c.Violate("%s: chunk %d brings item %v of shard %d, the next of its producer is %s; chunks %v", what, i, it, it.shard, exp, show(outs))
			}
			next[it.p]++
		}
	}
	if !partial {
		for p := range want {
			if next[p] < len(want[p]) {
				c.Violate("%s: item %v and %d more of its producer never came out; chunks %v", what, want[p][next[p]], len(want[p])-next[p]-1, show(outs))
			}
		}
	}
	total := 0
	for _, n := range next {
		total += n
	}
	c.Events("items judged", total)
	c.Events("chunks judged", len(outs))
}

// unmodified checks that chunks stayed as they were handed out. The first
// element is overwritten on purpose, by their owner, and more are appended.
func unmodified(c *kit.Case, what string, outs []got) {
	for i, g := range outs {
		if n := len(g.items); n > 1 && !slices.Equal(g.live[1:n], g.items[1:]) || n > 0 && g.live[0] != owned {
			c.Violate("%s: chunk %d was handed out as %v and is %v later", what, i, g.items, g.live[:n])
		}
		for j, it := range g.live[len(g.items):] {
			if it != owned {
				c.Violate("%s: the receiver appended to chunk %d, %v; what it appended as number %d became %v", what, i, g.items, j, it)
			}
		}
	}
}

var owned = item{p: -7}

func take(shard int, chunk []item, at time.Duration) got {
	g := got{shard, slices.Clone(chunk), chunk, at}
	if len(chunk) > 0 {
		chunk[0] = owned
	}
	for range min(4, cap(chunk)-len(chunk)) { // where its array has room
		g.live = append(g.live, owned)
	}
	return g
}

func show(outs []got) string {
	s := ""
	for _, g := range outs {
		s += fmt.Sprint(g.items)
		if len(s) > 1500 {
			return s + "..."
		}
	}
	return s
}

func sizes(outs []got) string {
	s := ""
	for _, g := range outs {
		s += fmt.Sprint(len(g.items), ",")
	}
	return s
}

// ckSteps sends items at virtual times to a chunker whose output is taken at
// once (or late), and judges content and times.
func ckSteps(c *kit.Case, timing bool) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		start := time.Now()
		size := []int{1, 2, 3, 5, 8, 100}[c.R.IntN(6)]
		tmo := time.Duration(1+c.R.IntN(12))*ms + []time.Duration{0, 300 * time.Microsecond}[c.R.IntN(2)]
		in, out := []int{0, 1, 4, 100}[c.R.IntN(4)], []int{0, 1, 3, 100}[c.R.IntN(4)]
		fn, own := c.R.IntN(2) == 0, c.R.IntN(2) == 0
		lazy := !timing && c.R.IntN(2) == 0
		what := fmt.Sprintf("size=%d timeout=%v in=%d out=%d func=%v ownChan=%v slowConsumer=%v", size, tmo, in, out, fn, own, lazy)
		c.Logf("%s", what)
		var mu sync.Mutex
		var outs []got
		recv := func(chunk []item) {
			mu.Lock()
			outs = append(outs, take(0, chunk, time.Since(start)))
			n := len(outs)
			mu.Unlock()
			if lazy {
				time.Sleep(time.Duration(n*7%13) * ms / 2)
			}
		}
		b := chans.NewChunkChan[item]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(tmo).WithIncomingBufferSize(in).WithOutgoingBufferSize(out)
		var mine chan item
		if own {
			mine = make(chan item, in)
			b.WithIncomingChan(mine)
		}
		if fn {
			b.WithChunkFunc(recv)
		}
		ck := b.Build()
		if own && ck.Incoming() != mine {
			c.Violate("%s: Incoming is not the channel given", what)
		}
		if !fn {
			go c.Guard(func() {
				for {
					select {
					case ch, ok := <-ck.C():
						if !ok {
							return
						}
						recv(ch)
					case <-ctx.Done():
						return
					}
				}
			})
		}
		producers := 1
		if !timing {
			producers += c.R.IntN(3)
		}
		sent := make([][]item, producers)
		var wg sync.WaitGroup
		pace := c.R.IntN(3)
		for p := range producers {
			r := c.Rand(p)
			wg.Add(1)
			go c.Guard(func() {
				defer wg.Done()
				for n := 0; n < 40; n++ {
					var gap time.Duration
					switch pace {
					case 0: // bursts and pauses
						if r.IntN(6) == 0 {
							gap = time.Duration(r.IntN(30)) * ms
						}
					case 1: // steadily, never longer apart than the timeout
						gap = time.Duration(r.Int64N(int64(tmo)))
					case 2: // at the very ticks and around
						gap = []time.Duration{0, tmo, tmo / 2, tmo - 1, 2 * tmo, tmo + 1}[r.IntN(6)]
					}
					time.Sleep(gap)
					it := item{p: p, n: n}
					if timing {
						it.at = time.Since(start)
					}
					if r.IntN(2) == 0 {
						ck.Add(it)
					} else {
						ck.Incoming() <- it
					}
					sent[p] = append(sent[p], it)
				}
			})
		}
		wg.Wait()
		closing := c.R.IntN(2) == 0
		if closing {
			end := time.Since(start)
			close(ck.Incoming())
			synctest.Wait()
			if timing { // what is left comes at once
				judge(c, what+" at the closing", size, outs, sent, -1, false)
				if k := len(outs); k > 0 && outs[k-1].at > end {
					c.Violate("%s: a chunk came at %v, the channel was closed at %v", what, outs[k-1].at, end)
				}
			}
		}
		time.Sleep(tmo + 2*time.Second)
		synctest.Wait()
		n := len(outs)
		judge(c, what, size, outs, sent, -1, false)
		time.Sleep(time.Second)
		synctest.Wait()
		if len(outs) != n {
			c.Violate("%s: chunk %v came out of nothing", what, outs[n:])
		}
		unmodified(c, what, outs)
		if timing {
			spaced(c, what, outs, size, tmo)
			for i, g := range outs {
				last := g.items[len(g.items)-1]
				if len(g.items) == size && g.at != last.at {
					c.Violate("%s: full chunk %d was complete at %v and came at %v", what, i, last.at, g.at)
				}
				for _, it := range g.items {
					if g.at-it.at > tmo {
						c.Violate("%s: item %v of %v came out at %v, in chunk %d %v", what, it, it.at, g.at, i, g.items)
					}
					if g.at < it.at {
						c.Fatal("clock")
					}
				}
			}
		}
		if a, b := ck.Sizes(); a != 0 || b != 0 {
			c.Violate("%s: Sizes %d, %d with everything taken", what, a, b)
		}
		c.Distinct(what, pace, closing, sizes(outs))
		c.Sample(func() string { return what + ": " + show(outs) })
		cancel()
	})
}

// ckStress has producers and a consumer race in real time, timer included.
func ckStress(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	size := 1 + c.R.IntN(7)
	fn := c.R.IntN(2) == 0
	tmo := time.Duration(1+c.R.IntN(100)) * time.Microsecond
	if c.R.IntN(3) == 0 {
		tmo = time.Hour
	}
	var outs []got
	var n atomic.Int64
	lag := c.R.IntN(3)
	recv := func(chunk []item) {
		outs = append(outs, take(0, chunk, 0))
		for range lag * len(outs) % 5 {
			runtime.Gosched()
		}
		n.Add(int64(len(chunk)))
	}
	b := chans.NewChunkChan[item]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(tmo).WithIncomingBufferSize(c.R.IntN(4)).WithOutgoingBufferSize(c.R.IntN(3))
	if fn {
		b.WithChunkFunc(recv)
	}
	ck := b.Build()
	producers, each := 1+c.R.IntN(4), 10+c.R.IntN(40)
	sent := make([][]item, producers)
	total := producers * each
	c.Go(producers+1, func(g int, r *rand.Rand) {
		if g == producers {
			if fn {
				return
			}
			for int(n.Load()) < total-total%size || tmo < time.Second && int(n.Load()) < total {
				recv(<-ck.C())
			}
			return
		}
		for j := range each {
			it := item{p: g, n: j}
			sent[g] = append(sent[g], it)
			ck.Add(it)
			if r.IntN(8) == 0 {
				time.Sleep(time.Duration(r.IntN(40)) * time.Microsecond)
			}
		}
	})
	if tmo > time.Second { // the rest comes with the closing
		close(ck.Incoming())
		if !fn && total%size != 0 {
			recv(<-ck.C())
		}
	}
	for int(n.Load()) < total {
		runtime.Gosched()
	}
	what := fmt.Sprintf("size=%d timeout=%v func=%v", size, tmo, fn)
	judge(c, what, size, outs, sent, -1, false)
	unmodified(c, what, outs)
	c.Distinct(what, sizes(outs), show(outs))
}

func init() {
	kit.Register(&kit.Prop{ID: "C23",
		Rule: "a distinct shape is a configuration with the sizes (and in races the order) of the chunks that came out, judged against the items put in",
		Parts: []kit.Part{
			{Name: "content", N: 1500, Stress: true, Fn: func(c *kit.Case) { ckSteps(c, false) }},
			{Name: "prompt", N: 800, Fn: func(c *kit.Case) { ckSteps(c, true) }},
			{Name: "stress", N: 600, Stress: true, Fn: ckStress},
			{Name: "stalled", N: 300, Fn: stalled(0)},
			{Name: "large", N: 60, Fn: ckLarge},
			ofTypes(chunkTypes),
		}})
	kit.Register(&kit.Prop{ID: "C24",
		Rule: "a distinct shape is a configuration with the sizes of the chunks that came out, every item judged by its virtual times of arrival and emission",
		Parts: []kit.Part{
			{Name: "times", N: 2500, Fn: func(c *kit.Case) { ckSteps(c, true) }},
			{Name: "large", N: 60, Fn: ckLarge},
			{Name: "due", N: 1200, Fn: due(false)},
		}})
}
