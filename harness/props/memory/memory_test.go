package memory

import (
	"context"
	"crypto/md5"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/workers"
)

const (
	ms      = time.Millisecond
	entries = 300  // per round
	rounds  = 11   // the first is not counted
	valueSz = 4000 // of a value
	keySz   = 600  // of a key
)

// box is one thing under watch: a round puts entries in and ends when all of
// them are gone again.
type box struct {
	what  string
	round func(n int)
	bytes int // put in and gone again in a round
	keep  any
}

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

var pad = strings.Repeat("k", keySz)

func key(round, i int) string { return fmt.Sprint(pad, round, "/", i) }
func value() []byte           { return make([]byte, valueSz) }

// watch runs the rounds and compares what is held and what runs after the
// first of them and the last.
func watch(c *kit.Case, mk func(c *kit.Case, ctx context.Context) *box) {
	c.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer func() { cancel(); time.Sleep(24 * time.Hour); synctest.Wait() }()
		b := mk(c, ctx)
		c.Logf("%s", b.what)
		b.round(0)
		synctest.Wait()
		// what is left behind is left behind every time: something that only
		// happens to be allocated meanwhile is not
		var grown, through int64
		r := 1
		for try := 0; try < 4; try++ {
			was, g := heap(), runtime.NumGoroutine()
			for end := r + rounds - 1; r < end; r++ {
				b.round(r)
				synctest.Wait()
			}
			now := runtime.NumGoroutine()
			for i := 0; i < 100000 && now > g+3; i++ { // the last of them may be ending
				runtime.Gosched()
				now = runtime.NumGoroutine()
			}
			grown, through = heap()-was, int64(b.bytes*(rounds-1))
			if now <= g+3 && grown <= through/4 {
				break
			}
			if try < 3 {
				c.Logf("try %d: %d bytes more, goroutines from %d to %d", try, grown, g, now)
				continue
			}
			if now > g+3 {
				c.Violate("%s: %d goroutines run after %d rounds of %d entries, %d after %d more, and every entry is gone", b.what, g, r-rounds+1, entries, now, rounds-1)
			}
			c.Violate("%s: %d bytes more are held after %d more rounds of %d entries; every entry is gone and %d bytes passed through", b.what, grown, rounds-1, entries, through)
		}
		runtime.KeepAlive(b)
		c.Events("bytes put in and gone again", int(through))
		c.Events("entries put in and gone again", entries*(rounds-1))
		c.Max("bytes more held at the end", int(max(grown, 0)))
		c.Distinct(b.what)
		c.Sample(func() string { return fmt.Sprint(b.what, ": ", grown, " more of ", through) })
	})
}

func pickMode(c *kit.Case, modes ...string) string { return modes[c.R.IntN(len(modes))] }

func plainMaps(c *kit.Case, ctx context.Context) *box {
	type m interface {
		Set(string, []byte)
		Delete(string)
		Has(string) bool
		SetIfNotExists(string, []byte) bool
		SetIfNotExistsWithFunc(string, func() []byte) ([]byte, bool)
		Size() int
	}
	var x m
	kind := "SimpleMap"
	clear := func() {}
	if c.R.IntN(2) == 0 {
		x = collections.NewSimpleMap[string, []byte]()
	} else {
		kind = "ShardMap"
		n := 1 + c.R.IntN(20)
		s := collections.NewShardMap[string, []byte]().WithShardsCount(n).WithShardsFunc(func(k string) int { return int(k[len(k)-1]) % n }).Build()
		x, clear = s, s.Clear
	}
	how := pickMode(c, "Set", "SetIfNotExists", "SetIfNotExistsWithFunc", "Set over and over")
	out := "Delete"
	if kind == "ShardMap" && c.R.IntN(2) == 0 {
		out = "Clear"
	}
	return &box{fmt.Sprint(kind, " ", how, " ", out), func(r int) {
		for i := range entries {
			k := key(r, i)
			switch how {
			case "Set":
				x.Set(k, value())
			case "SetIfNotExists":
				x.SetIfNotExists(k, value())
			case "SetIfNotExistsWithFunc":
				x.SetIfNotExistsWithFunc(k, value)
			default:
				x.Set(key(0, i%3), value())
			}
		}
		if out == "Clear" {
			clear()
		} else {
			for i := range entries {
				x.Delete(key(r, i))
				x.Delete(key(0, i%3))
			}
		}
		if x.Size() != 0 {
			c.Violate("%s: Size %d after everything was deleted", kind, x.Size())
		}
	}, entries * valueSz, x}
}

func sets(c *kit.Case, ctx context.Context) *box {
	if c.R.IntN(3) == 0 {
		s := collections.NewSet[string]()
		out := pickMode(c, "Remove", "Clear")
		return &box{"Set " + out, func(r int) {
			for i := range entries {
				s.Add(key(r, i))
			}
			s.Clone().Add("x")
			for i := range entries {
				s.Remove(key(r, i))
			}
			if out == "Clear" {
				s.Clear()
			}
		}, entries * keySz, s}
	}
	b := collections.NewHashSet[string]()
	limit := 0
	if c.R.IntN(2) == 0 {
		limit = 1 + c.R.IntN(20)
		b.WithMaxCount(limit)
	}
	s := b.Build()
	out := pickMode(c, "Delete", "Clear", "newest first")
	return &box{fmt.Sprint("HashSet ", limit, " ", out), func(r int) {
		for i := range entries {
			if i%2 == 0 {
				s.Add(key(r, i))
			} else {
				s.HasOrCreate(key(r, i))
			}
		}
		for i := range entries {
			switch out {
			case "Delete":
				s.Delete(key(r, i))
			case "newest first":
				s.Delete(key(r, entries-1-i))
			case "Clear":
				s.Clear()
			}
		}
		if s.Count() != 0 {
			c.Violate("HashSet: Count %d after everything was deleted", s.Count())
		}
	}, entries * keySz, s}
}

func twoKeys(c *kit.Case, ctx context.Context) *box {
	m := collections.NewTwoKeyMap[string, string, []byte]()
	out := pickMode(c, "Remove", "RemoveByK2", "first key replaced", "second key replaced", "value replaced", "crossed")
	return &box{"TwoKeyMap " + out, func(r int) {
		for i := range entries {
			a, b := key(r, i), key(-r, i)
			switch out {
			case "Remove":
				m.Put(a, b, value())
				m.Remove(a)
			case "RemoveByK2":
				m.Put(a, b, value())
				m.RemoveByK2(b)
			case "first key replaced":
				m.Put(a, "b", value())
			case "second key replaced":
				m.Put("a", b, value())
			case "value replaced":
				m.Put("a", "b", value())
			case "crossed":
				m.Put(a, b, value())
				m.Put(a+"x", "y", value())
				m.Put("x", b, value())
				m.Remove("x")
			}
		}
		if m.Len() > 1 {
			c.Violate("TwoKeyMap %s: Len %d, want at most 1", out, m.Len())
		}
	}, entries * keySz, m}
}

func guava(c *kit.Case, ctx context.Context) *box {
	b := collections.NewGuavaMap[string, []byte]().WithContext(ctx)
	fails := c.R.IntN(4) == 0
	b.WithLoadFunc(func(string) ([]byte, error) {
		if fails {
			return value(), errors.New("no")
		}
		return value(), nil
	})
	what := "GuavaMap"
	out := pickMode(c, "Delete", "Clear", "expiry", "eviction", "newest deleted first")
	timed := out == "expiry" || c.R.IntN(2) == 0
	if timed {
		what += " timeouts"
		k := 1 + c.R.IntN(3)
		if k&1 > 0 {
			b.WithWriteTimeout(time.Duration(1+c.R.IntN(1000)) * ms)
		}
		if k&2 > 0 {
			b.WithReadTimeout(time.Duration(1+c.R.IntN(1000)) * ms)
		}
	}
	limit := 0
	if out == "eviction" {
		limit = 1 + c.R.IntN(20)
		b.WithMaxCount(limit)
	} else if c.R.IntN(2) == 0 {
		limit = entries
		b.WithMaxCount(limit)
	}
	if c.R.IntN(2) == 0 {
		what += " unload"
		b.WithUnloadFunc(func(string, []byte) {})
	}
	in := pickMode(c, "Set", "HasOrCreate", "Get", "LockForUpdate", "all", "each twice")
	what = fmt.Sprint(what, " ", limit, " ", in, " ", out, " ", fails)
	m := b.Build()
	return &box{what, func(r int) {
		put := func(i int) {
			k := key(r, i)
			for range 2 {
				switch in {
				case "Set":
					m.Set(k, value())
				case "HasOrCreate":
					m.HasOrCreate(k, value())
				case "Get":
					m.Get(k)
				case "LockForUpdate":
					m.LockForUpdate(k, value)
				default:
					switch i % 4 {
					case 0:
						m.Set(k, value())
					case 1:
						m.HasOrCreate(k, value())
					case 2:
						m.Get(k)
					case 3:
						m.LockForUpdate(k, value)
					}
				}
				if in != "each twice" {
					break
				}
			}
		}
		for i := range entries {
			put(i)
			if out == "Delete" && i%2 == 0 {
				m.Delete(key(r, i))
			}
		}
		switch out {
		case "Clear":
			m.Clear()
		case "expiry":
			time.Sleep(1500 * ms)
		case "eviction":
			return // the last few stay, like in every round
		default:
			for i := range entries {
				m.Delete(key(r, entries-1-i))
			}
		}
		synctest.Wait()
		if m.Size() != 0 {
			c.Violate("%s: Size %d after everything has gone", what, m.Size())
		}
	}, entries * keySz, m}
}

// settle ends a round of a collection that empties itself with time.
func settle(c *kit.Case, what string, count func() int) {
	for range 100 {
		synctest.Wait()
		if count() == 0 {
			return
		}
		time.Sleep(10 * time.Second)
	}
	c.Violate("%s: Count %d long after everything was due", what, count())
}

func waitMap(c *kit.Case, ctx context.Context) *box {
	req, ttl := time.Duration(1+c.R.IntN(5000))*ms, time.Duration(1+c.R.IntN(5000))*ms
	m := collections.NewWaitMap[string, []byte]().WithContext(ctx).WithRequestTimeout(req).WithResponseTtl(ttl).Build()
	in := pickMode(c, "Set first", "Wait first", "only Set", "only Wait", "mixed")
	return &box{"WaitMap " + in, func(r int) {
		var wg sync.WaitGroup
		for i := range entries {
			k := key(r, i)
			way := in
			if in == "mixed" {
				way = []string{"Set first", "Wait first", "only Set", "only Wait"}[i%4]
			}
			wait := func() { wg.Add(1); go c.Guard(func() { m.Wait(k); wg.Done() }) }
			switch way {
			case "Set first":
				m.Set(k, value())
				wait()
			case "Wait first":
				wait()
				wait()
				time.Sleep(ms / 10)
				m.Set(k, value())
			case "only Set":
				m.Set(k, value())
			case "only Wait":
				wait()
				wait()
			}
		}
		wg.Wait()
		settle(c, "WaitMap "+in, m.Count)
		time.Sleep(req + ttl)
	}, entries * keySz, m}
}

func responseMap(c *kit.Case, ctx context.Context) *box {
	resp, clr := time.Duration(1+c.R.IntN(5000))*ms, time.Duration(1+c.R.IntN(5000))*ms
	m := collections.NewResponseMap[string, []byte](ctx).WithResponseTimeout(resp).WithClearTimeout(clr).Build()
	in := pickMode(c, "Set first", "Wait first", "only Set", "only Wait", "mixed")
	return &box{"ResponseMap " + in, func(r int) {
		var wg sync.WaitGroup
		for i := range entries {
			k := key(r, i)
			way := in
			if in == "mixed" {
				way = []string{"Set first", "Wait first", "only Set", "only Wait"}[i%4]
			}
			wait := func() { wg.Add(1); go c.Guard(func() { m.Wait(k); wg.Done() }) }
			switch way {
			case "Set first":
				m.Set(k, value())
				wait()
			case "Wait first":
				wait()
				wait()
				time.Sleep(ms / 10)
				m.Set(k, value())
			case "only Set":
				m.Set(k, value())
			case "only Wait":
				wait()
				wait()
			}
		}
		wg.Wait()
		time.Sleep(2*clr + resp + ms)
		synctest.Wait()
	}, entries * keySz, m}
}

func holderMap(c *kit.Case, ctx context.Context) *box {
	tmo, ttl := time.Duration(100+c.R.IntN(5000))*ms, time.Duration(1+c.R.IntN(5000))*ms
	m := collections.NewHolderMap[string, []byte]().WithContext(ctx).WithTimeout(tmo).WithTTL(ttl).Build()
	out := pickMode(c, "Release", "Error", "timeout", "mixed")
	return &box{"HolderMap " + out, func(r int) {
		var wg sync.WaitGroup
		for i := range entries {
			for range 1 + i%3 {
				wg.Add(1)
				go c.Guard(func() { m.Wait(key(r, i), value()); wg.Done() })
			}
		}
		synctest.Wait()
		for i := range entries {
			k := key(r, i)
			way := out
			if out == "mixed" {
				way = []string{"Release", "Error", "timeout"}[i%3]
			}
			if i%2 == 0 {
				m.Update(k, value())
			}
			switch way {
			case "Release":
				m.Release(k)
			case "Error":
				m.Error(k, errors.New(k))
			}
		}
		wg.Wait()
		settle(c, "HolderMap "+out, m.Count)
	}, entries * keySz, m}
}

func requestMap(c *kit.Case, ctx context.Context) *box {
	ttl := time.Duration(1+c.R.IntN(2000)) * ms
	m := collections.NewRequestMap[string, []byte](ctx, ttl)
	in := pickMode(c, "GetOrCreate", "GetOrCreateWithErr", "errors", "Timeout", "staggered")
	w := m.Timeout(30*ms, func(k string) ([]byte, error) {
		time.Sleep(time.Duration(len(k)%3) * 25 * ms)
		return value(), nil
	})
	return &box{"RequestMap " + in, func(r int) {
		var wg sync.WaitGroup
		for i := range entries {
			k := key(r, i)
			for range 1 + i%3 {
				wg.Add(1)
				go c.Guard(func() {
					defer wg.Done()
					switch in {
					case "GetOrCreate":
						m.GetOrCreate(k, func(string) []byte { return value() })
					case "GetOrCreateWithErr":
						m.GetOrCreateWithErr(k, func(string) ([]byte, error) { return value(), nil })
					case "errors":
						m.GetOrCreateWithErr(k, func(k string) ([]byte, error) { return value(), errors.New(k) })
					case "Timeout":
						m.GetOrCreateWithErr(k, w)
					case "staggered":
						time.Sleep(time.Duration(i) * 3 * ms)
						m.GetOrCreate(k, func(string) []byte { time.Sleep(time.Duration(i%7) * ms); return value() })
					}
				})
			}
		}
		wg.Wait()
		settle(c, "RequestMap "+in, m.Count)
		time.Sleep(ttl + 200*ms)
	}, entries * keySz, m}
}

func uniqSet(c *kit.Case, ctx context.Context) *box {
	ttl := time.Duration(1+c.R.IntN(2000)) * ms
	s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(ttl).WithCheckInterval(time.Duration(1+c.R.IntN(500)) * ms).
		WithBuildFunc(func(v int, _ ...any) ([16]byte, error) { return md5.Sum([]byte(fmt.Sprint(v))), nil }).Build()
	out := pickMode(c, "expiry", "Remove", "added and removed over and over", "staggered")
	const n = 20 * entries
	return &box{"StructUniqSet " + out, func(r int) {
		for i := range n {
			v := r*n + i
			if out == "added and removed over and over" {
				v = i % 3
			}
			s.Add(v)
			if out != "expiry" && out != "staggered" {
				s.Remove(v)
			}
			if out == "staggered" && i%100 == 0 {
				time.Sleep(10 * ms)
			}
		}
		settle(c, "StructUniqSet "+out, s.Count)
		time.Sleep(ttl + time.Second)
	}, n * 60, s}
}

func channels(c *kit.Case, ctx context.Context) *box {
	size := 1 + c.R.IntN(50)
	got := make(chan int, entries)
	kind := pickMode(c, "ChunkChan", "ChunkChan func", "ShardChan", "ShardChan worker", "ShardChunk", "ShardChunk worker", "Runner", "Runner contexts")
	var put func([]byte)
	shard := func(b []byte) int { return int(b[0]) }
	switch kind {
	case "ChunkChan", "ChunkChan func":
		b := chans.NewChunkChan[[]byte]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(ms)
		if kind == "ChunkChan func" {
			b.WithChunkFunc(func(x [][]byte) { got <- len(x) })
		}
		ck := b.Build()
		if kind == "ChunkChan" {
			go func() {
				for {
					select {
					case x := <-ck.C():
						got <- len(x)
					case <-ctx.Done():
						return
					}
				}
			}()
		}
		put = ck.Add
	case "ShardChan", "ShardChan worker":
		b := chans.NewShardChan[[]byte]().WithContext(ctx).WithShardFunc(shard)
		if kind == "ShardChan worker" {
			b.WithWorkerFunc(func(int, []byte) { got <- 1 })
		}
		s, err := b.Build()
		if err != nil {
			c.Violate("Build: %v", err)
		}
		if kind == "ShardChan" {
			for k := range 4 {
				go func() {
					for {
						select {
						case <-s.C(k):
							got <- 1
						case <-ctx.Done():
							return
						}
					}
				}()
			}
		}
		put = func(b []byte) { s.Add(b) }
	case "ShardChunk", "ShardChunk worker":
		in := make(chan []byte)
		b := chans.NewShardChunk[[]byte]().WithContext(ctx).WithShardFunc(shard).WithIncomingChan(in).WithChunkSize(size).WithChunkTimeout(ms)
		if kind == "ShardChunk worker" {
			b.WithShardWorker(func(k int, x [][]byte) { got <- len(x) })
		}
		s, err := b.Build()
		if err != nil {
			c.Violate("Build: %v", err)
		}
		if kind == "ShardChunk" {
			for k := range 4 {
				go func() {
					for {
						select {
						case x := <-s.C(k):
							got <- len(x)
						case <-ctx.Done():
							return
						}
					}
				}()
			}
		}
		put = func(b []byte) { in <- b }
	case "Runner":
		r := workers.NewRunner().WithContext(ctx).WithWorkerCount(1 + c.R.IntN(10)).Build()
		put = func(b []byte) { r.Run(func() { got <- len(b[:1]) }) }
	case "Runner contexts":
		r := workers.NewRunner().WithContext(ctx).WithWorkerCount(1 + c.R.IntN(10)).Build()
		put = func(b []byte) { r.RunWithContext(func(context.Context) { got <- len(b[:1]) }) }
	}
	return &box{kind, func(r int) {
		go func() {
			for i := range entries {
				v := value()
				v[0] = byte(i)
				put(v)
			}
		}()
		for n := 0; n < entries; {
			n += <-got
		}
		time.Sleep(10 * ms)
	}, entries * valueSz, put}
}

// lives creates collections under one long-lived context, uses and drops them.
func lives(c *kit.Case, ctx context.Context) *box {
	kind := pickMode(c, "ChunkChan", "ShardChan", "ShardChunk", "Runner", "RequestMap", "ResponseMap", "StructUniqSet", "GuavaMap", "WaitMap", "HolderMap")
	return &box{"many of " + kind, func(r int) {
		for i := range entries / 10 {
			own, stop := context.WithCancel(ctx)
			v := value()
			switch kind {
			case "ChunkChan":
				ck := chans.NewChunkChan[[]byte]().WithContext(own).WithChunkFunc(func([][]byte) {}).Build()
				ck.Add(v)
			case "ShardChan":
				s, _ := chans.NewShardChan[[]byte]().WithContext(own).WithShardFunc(func([]byte) int { return i }).WithWorkerFunc(func(int, []byte) {}).Build()
				s.Add(v)
			case "ShardChunk":
				in := make(chan []byte, 1)
				chans.NewShardChunk[[]byte]().WithContext(own).WithShardFunc(func([]byte) int { return i }).WithIncomingChan(in).WithShardWorker(func(int, [][]byte) {}).Build()
				in <- v
			case "Runner":
				workers.NewRunner().WithContext(own).Build().Run(func() { _ = v })
			case "RequestMap":
				m := collections.NewRequestMap[int, []byte](own, time.Hour)
				m.GetOrCreate(1, func(int) []byte { return v })
			case "ResponseMap":
				m := collections.NewResponseMap[int, []byte](own).Build()
				m.Set(1, v)
			case "StructUniqSet":
				s := collections.NewStructUniqSet[[]byte]().WithContext(own).Build()
				s.Add(v)
			case "GuavaMap":
				m := collections.NewGuavaMap[int, []byte]().WithContext(own).WithWriteTimeout(time.Hour).Build()
				m.Set(1, v)
			case "WaitMap":
				m := collections.NewWaitMap[int, []byte]().WithContext(own).WithResponseTtl(time.Hour).Build()
				m.Set(1, v)
			case "HolderMap":
				m := collections.NewHolderMap[int, []byte]().WithContext(own).WithTTL(time.Second).Build()
				go m.Wait(1, v)
				synctest.Wait()
				m.Release(1)
			}
			synctest.Wait()
			stop()
			synctest.Wait()
		}
		time.Sleep(2 * time.Second)
	}, entries / 10 * valueSz, nil}
}

func part(name string, n int, mk func(c *kit.Case, ctx context.Context) *box) kit.Part {
	return kit.Part{Name: name, N: n, Factor: 10, Fn: func(c *kit.Case) { watch(c, mk) }}
}

func init() {
	kit.Register(&kit.Prop{ID: "C43",
		Rule: "a distinct shape is a collection with the ways its entries came and went, judged by the heap and the goroutines left",
		Parts: []kit.Part{
			part("maps", 16, plainMaps),
			part("sets", 16, sets),
			part("two keys", 16, twoKeys),
			part("guava", 64, guava),
			part("waits", 12, waitMap),
			part("responses", 12, responseMap),
			part("holders", 12, holderMap),
			part("requests", 16, requestMap),
			part("uniq", 12, uniqSet),
			part("channels", 16, channels),
			part("lives", 16, lives),
		}})
}
