package reqs

import (
	"context"
	"crypto/md5"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"axverif/kit"

	"github.com/anishathalye/porcupine"
	"github.com/axgrid/axutils/collections"
)

type inner struct {
	X int
	Y string
	Z []string
}

// rich is a value with every kind of content the default hash has to tell apart.
type rich struct {
	I   int
	J   int
	U   uint8
	S   string
	T   string
	B   []byte
	F   float64
	G   bool
	H   bool
	Arr [3]int16
	In  inner
	P   *inner
	L   []inner
	M   map[string]int
	hid int
}

// canon is the reference of equality: two values are equal when it is.
func (v rich) canon() string {
	m := make([]string, 0, len(v.M))
	for k, x := range v.M {
		m = append(m, fmt.Sprintf("%q:%d", k, x))
	}
	sort.Strings(m)
	p := "nil"
	if v.P != nil {
		p = fmt.Sprintf("%d %q %q", v.P.X, v.P.Y, v.P.Z)
	}
	return fmt.Sprintf("%d|%d|%d|%q|%q|%x|%v|%v|%v|%v|%d %q %q|%s|%q|%q", v.I, v.J, v.U, v.S, v.T, v.B, v.F, v.G, v.H, v.Arr,
		v.In.X, v.In.Y, v.In.Z, p, fmt.Sprintf("%d %+q", len(v.L), v.L), m)
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func anyInner(r *rand.Rand) inner {
	in := inner{X: pick(r, 0, 1, 2), Y: pick(r, "", "a", "b", "ab")}
	for range r.IntN(3) {
		in.Z = append(in.Z, pick(r, "", "a", "b", "ab"))
	}
	return in
}

// anyRich makes values that are equal or nearly so fairly often.
func anyRich(r *rand.Rand) rich {
	v := rich{hid: r.IntN(3)}
	for range 1 + r.IntN(3) {
		switch r.IntN(14) {
		case 0:
			v.I = pick(r, 1, -1, 2, 256, 1<<40)
		case 1:
			v.J = pick(r, 1, -1, 2, 256, 1<<40)
		case 2:
			v.U = pick[uint8](r, 1, 2, 255)
		case 3:
			v.S = pick(r, "a", "b", "ab", "ba", "a\x00b", "é", "\xff")
		case 4:
			v.T = pick(r, "a", "b", "ab", "ba", "a\x00b", "é", "\xff")
		case 5:
			v.B = pick(r, []byte("a"), []byte("b"), []byte("ab"), []byte{0}, []byte{0, 0}, []byte{})
		case 6:
			v.F = pick(r, 1, -1, 0.5, 1e300)
		case 7:
			v.G = true
		case 8:
			v.H = true
		case 9:
			v.Arr[r.IntN(3)] = pick[int16](r, 1, 2, -1)
		case 10:
			v.In = anyInner(r)
		case 11:
			p := anyInner(r)
			p.X = 1 + r.IntN(2)
			v.P = &p
		case 12:
			for range 1 + r.IntN(2) {
				v.L = append(v.L, anyInner(r))
			}
		case 13:
			v.M = map[string]int{pick(r, "a", "b", "ab"): pick(r, 1, 2)}
		}
	}
	return v
}

// uniqModel drives one set against a reference keyed by canonical content.
func uniqModel[V any](c *kit.Case, s *collections.StructUniqSet[V], gen func(r *rand.Rand) V, canon func(V) (string, error), steps int) {
	have := map[string]bool{}
	var old []V
	sig := ""
	for j := 0; j < steps; j++ {
		var v V
		if len(old) > 0 && c.R.IntN(2) == 0 {
			v = old[c.R.IntN(len(old))]
		} else {
			v = gen(c.R)
			old = append(old, v)
		}
		key, wantErr := canon(v)
		op := []string{"Add", "Add", "Has", "Remove"}[c.R.IntN(4)]
		var got bool
		var err error
		switch op {
		case "Add":
			got, err = s.Add(v)
		case "Has":
			got, err = s.Has(v)
		case "Remove":
			got, err = s.Remove(v)
		}
		if c.R.IntN(3) == 0 {
			c.Logf("%s(%s) -> %v %v", op, key, got, err)
		}
		if wantErr != nil {
			if err == nil || got || wantErr != errAny && err != wantErr {
				c.Violate("%s(%+v) returned %v, %v; want the error %v", op, v, got, err, wantErr)
			}
		} else {
			want := have[key]
			switch op {
			case "Add":
				have[key] = true
				want = !want
			case "Remove":
				delete(have, key)
			}
			if err != nil || got != want {
				c.Violate("step %d: %s(%+v) [%s] returned %v, %v; want %v", j, op, v, key, got, err, want)
			}
		}
		sig += op[:1] + fmt.Sprint(got)[:1]
		if n := s.Count(); n != len(have) {
			c.Violate("step %d: Count %d after %s, want %d", j, n, op, len(have))
		}
	}
	for _, v := range old {
		key, e := canon(v)
		got, err := s.Has(v)
		if e == nil && (err != nil || got != have[key]) {
			c.Violate("at the end Has(%+v) returned %v, %v; want %v", v, got, err, have[key])
		}
	}
	c.Events("calls judged by content", steps+len(old))
	c.Events("values present at the end", len(have))
	c.Distinct(sig)
	c.Sample(func() string { return sig })
}

var errAny = errors.New("any error")

type hidden struct{ a int }

type holds struct {
	A int
	V any
}

func uniqDefault(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	switch c.R.IntN(12) {
	case 7: // long lists, alike but for one entry
		n := []int{10, 100, 1000, 10000}[c.R.IntN(4)]
		s := collections.NewStructUniqSet[[]int]().WithContext(ctx).Build()
		uniqModel(c, s, func(r *rand.Rand) []int {
			v := make([]int, n+r.IntN(2))
			v[pick(r, 0, n/2, n-1)] = r.IntN(3)
			return v
		}, func(v []int) (string, error) { h := md5.Sum([]byte(fmt.Sprint(v))); return fmt.Sprintf("%x", h), nil }, 20)
	case 5: // nothing to tell the values by
		s := collections.NewStructUniqSet[hidden]().WithContext(ctx).Build()
		uniqModel(c, s, func(r *rand.Rand) hidden { return hidden{r.IntN(5)} },
			func(v hidden) (string, error) { return "", errAny }, 20)
	case 6: // an interface within, of a type that gob knows or does not
		s := collections.NewStructUniqSet[holds]().WithContext(ctx).Build()
		uniqModel(c, s, func(r *rand.Rand) holds {
			return holds{r.IntN(3), pick[any](r, 1, 2, "1", 1.5, hidden{1}, holds{}, &holds{A: 1})}
		}, func(v holds) (string, error) {
			switch v.V.(type) {
			case hidden, holds, *holds:
				return "", errAny
			}
			return fmt.Sprintf("%d %T %v", v.A, v.V, v.V), nil
		}, 60)
	case 0:
		s := collections.NewStructUniqSet[string]().WithContext(ctx).Build()
		long := ""
		if c.R.IntN(3) == 0 { // told by their ends, or by their beginnings
			long = strings.Repeat("x", []int{15, 64, 255, 1000, 5000, 70000}[c.R.IntN(6)])
		}
		uniqModel(c, s, func(r *rand.Rand) string {
			return pick(r, "", "a", "b", "ab", "\x00", "a\x00", "é", "\xff") + long + pick(r, "", "a", "bb")
		},
			func(v string) (string, error) { return v, nil }, 60)
	case 1:
		s := collections.NewStructUniqSet[int]().WithContext(ctx).Build()
		uniqModel(c, s, func(r *rand.Rand) int { return pick(r, 0, 1, -1, 1<<62, r.IntN(300)) },
			func(v int) (string, error) { return fmt.Sprint(v), nil }, 60)
	case 2: // whatever a pointer points to counts
		s := collections.NewStructUniqSet[*rich]().WithContext(ctx).Build()
		uniqModel(c, s, func(r *rand.Rand) *rich { v := anyRich(r); return &v },
			func(v *rich) (string, error) { return v.canon(), nil }, 60)
	case 3: // nothing gob can encode
		s := collections.NewStructUniqSet[func()]().WithContext(ctx).Build()
		uniqModel(c, s, func(r *rand.Rand) func() { return func() {} },
			func(v func()) (string, error) { return "", errAny }, 20)
	case 4: // some of it can be encoded
		s := collections.NewStructUniqSet[any]().WithContext(ctx).Build()
		uniqModel(c, s, func(r *rand.Rand) any {
			return pick[any](r, 1, "1", 1.5, uint(1), []int{1}, []int{1, 2}, inner{X: 1}, make(chan int), func() {}, []string{"1"}, true)
		}, func(v any) (string, error) {
			switch v.(type) {
			case chan int, func():
				return "", errAny
			}
			return fmt.Sprintf("%T %v", v, v), nil
		}, 60)
	default:
		s := collections.NewStructUniqSet[rich]().WithContext(ctx).Build()
		uniqModel(c, s, anyRich, func(v rich) (string, error) { return v.canon(), nil }, 80)
	}
}

// uniqMaps is the listed finding: the default hash of a value holding a map
// with several entries depends on the order in which they happen to be encoded.
func uniqMaps(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	s := collections.NewStructUniqSet[rich]().WithContext(ctx).Build()
	n := 2 + c.R.IntN(4)
	v := rich{I: c.Idx, M: map[string]int{}}
	for i := range n {
		v.M[fmt.Sprint("k", i)] = i
	}
	if got, err := s.Add(v); !got || err != nil {
		c.Violate("Add of a new value returned %v, %v", got, err)
	}
	w := rich{I: c.Idx, M: map[string]int{}} // different content stays different
	for i := range n {
		w.M[fmt.Sprint("k", i)] = i + 1
	}
	if got, err := s.Has(w); got || err != nil {
		c.Violate("Has of an absent value returned %v, %v", got, err)
	}
	for range 30 {
		if got, err := s.Has(v); err != nil || !got {
			if err != nil || !c.KnownFinding("map-order") {
				c.Violate("Has of a present value with a map of %d entries returned %v, %v", n, got, err)
			}
		}
	}
	c.Events("lookups of values with maps", 32)
	c.Distinct(n)
}

var errHash = errors.New("no hash")

// uniqBuild uses hash functions of the caller's.
func uniqBuild(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	mod := 1 + c.R.IntN(40)
	failing := c.R.IntN(3) > 0
	calls := 0
	s := collections.NewStructUniqSet[int]().WithContext(ctx).WithBuildFunc(func(v int, keys ...any) ([16]byte, error) {
		calls++
		if failing && v%7 == 3 {
			return [16]byte{byte(v % mod)}, errHash // the hash does not count
		}
		var h [16]byte
		h[c.Idx%16] = byte(v % mod)
		return h, nil
	}).Build()
	uniqModel(c, s, func(r *rand.Rand) int { return r.IntN(100) }, func(v int) (string, error) {
		if failing && v%7 == 3 {
			return "", errHash
		}
		return fmt.Sprint(v % mod), nil
	}, 80)
	if calls == 0 {
		c.Violate("the function given to WithBuildFunc was never called")
	}
}

type usIn struct {
	op string
	v  int
}

func (i usIn) String() string { return fmt.Sprintf("%s(%d)", i.op, i.v) }

// usSet is the set of values 0..3 as a bit mask.
var usSet = porcupine.Model{
	Init: func() any { return 0 },
	Step: func(st, in, out any) (bool, any) {
		i, s := in.(usIn), st.(int)
		bit := 1 << i.v
		has := s&bit != 0
		switch i.op {
		case "Add":
			return out.(bool) == !has, s | bit
		case "Has":
			return out.(bool) == has, s
		case "Remove":
			return out.(bool) == has, s &^ bit
		}
		n := 0
		for b := 0; b < 4; b++ {
			n += s >> b & 1
		}
		return out.(int) == n, s
	},
}

func uniqLin(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	b := collections.NewStructUniqSet[inner]().WithContext(ctx)
	if c.R.IntN(2) == 0 {
		b.WithBuildFunc(func(v inner, _ ...any) ([16]byte, error) { return md5.Sum([]byte{byte(v.X)}), nil })
	}
	s := b.Build()
	n := 2 + c.R.IntN(3)
	vals := 1 + c.R.IntN(3)
	h := kit.NewHist(n)
	c.Go(n, func(g int, r *rand.Rand) {
		for j := 0; j < 6; j++ {
			in := usIn{[]string{"Add", "Add", "Has", "Remove", "Count"}[r.IntN(5)], r.IntN(vals)}
			v := inner{X: in.v, Y: "y"}
			h.Do(g, in, func() any {
				var got bool
				var err error
				switch in.op {
				case "Add":
					got, err = s.Add(v)
				case "Has":
					got, err = s.Has(v)
				case "Remove":
					got, err = s.Remove(v)
				case "Count":
					return s.Count()
				}
				if err != nil {
					c.Violate("%v returned %v", in, err)
				}
				return got
			})
		}
	})
	c.Linearizable("set of values", usSet, h.Ops())
}

// uniqOnce has many goroutines add the same values.
func uniqOnce(c *kit.Case) {
	ctx, cancel := kit.Ctx(c.R, context.Background())
	defer cancel()
	s := collections.NewStructUniqSet[inner]().WithContext(ctx).Build()
	n, vals := 3+c.R.IntN(10), 1+c.R.IntN(5)
	wins := make([]atomic.Int32, vals)
	c.Go(n, func(g int, r *rand.Rand) {
		f := r.IntN(vals)
		for j := range vals {
			k := (f + j) % vals
			ok, err := s.Add(inner{X: k + 1, Z: []string{"z"}})
			if err != nil {
				c.Violate("Add returned %v", err)
			}
			if ok {
				wins[k].Add(1)
			}
		}
	})
	for k := range wins {
		if w := wins[k].Load(); w != 1 {
			c.Violate("%d of %d goroutines adding the same value were told true", w, n)
		}
	}
	if got := s.Count(); got != vals {
		c.Violate("Count %d, want %d", got, vals)
	}
	c.Events("racing adds judged", n*vals)
	c.Distinct(n, vals)
}

// uniqTTL checks presence over virtual time.
func uniqTTL(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		ttl := time.Duration(1+c.R.IntN(12))*ms + 300*time.Microsecond
		if c.R.IntN(8) == 0 {
			ttl = -time.Duration(c.R.IntN(2)) * ms // values leave with the next cleaning
		}
		check := time.Duration(1+c.R.IntN(5))*ms + 170*time.Microsecond
		if c.R.IntN(4) == 0 {
			check = 100*time.Microsecond + time.Duration(c.R.IntN(8))*100*time.Microsecond + 17*time.Microsecond
		}
		b := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(ttl).WithCheckInterval(check)
		if c.R.IntN(2) == 0 {
			b.WithBuildFunc(func(v int, _ ...any) ([16]byte, error) { return [16]byte{byte(v)}, nil })
		}
		s := b.Build()
		start := time.Now()
		added := map[int]time.Time{}
		when := func() string { return fmt.Sprintf("ttl=%v check=%v t=%v", ttl, check, time.Since(start)) }
		keys := 1 + c.R.IntN(5)
		sig := ""
		cancelled := false
		// judge says whether a value is there, given what the set says: 1 must,
		// 0 must not, -1 either
		state := func(k int) int {
			at, ok := added[k]
			age := time.Since(at)
			switch {
			case !ok:
				return 0
			case age < ttl:
				return 1
			case cancelled || age <= max(ttl, 0)+check:
				return -1
			}
			return 0
		}
		see := func(op string, k int, has bool) {
			if w := state(k); w == 1 && !has || w == 0 && has {
				c.Violate("%s %s(%d): present=%v, added at %v", when(), op, k, has, added[k].Sub(start))
			}
			if !has && state(k) == -1 {
				c.Events("expiries judged", 1)
			}
			if !has {
				delete(added, k)
			}
		}
		look := func() {
			synctest.Wait()
			n := 0
			for k := 0; k < keys; k++ {
				has, err := s.Has(k)
				if err != nil {
					c.Violate("Has returned %v", err)
				}
				see("Has", k, has)
				if has {
					n++
				}
			}
			if got := s.Count(); got != n {
				c.Violate("%s Count %d with %d values present", when(), got, n)
			}
		}
		steps := 40
		stop := 10000
		if c.R.IntN(4) == 0 {
			stop = c.R.IntN(steps)
		}
		for j := 0; j < steps; j++ {
			for gap := []int{0, 0, 0, 1, 1, 2, 3, 6}[c.R.IntN(8)]; gap > 0; gap-- {
				time.Sleep(ms)
				look()
			}
			if j == stop {
				cancel()
				cancelled = true
			}
			k := c.R.IntN(keys)
			c.Logf("%s step %d key %d", when(), j, k)
			if c.R.IntN(3) > 0 {
				ok, err := s.Add(k)
				if err != nil {
					c.Violate("Add returned %v", err)
				}
				see("Add", k, !ok)
				if ok {
					added[k] = time.Now()
				}
				sig += fmt.Sprint("a", k, time.Since(start))
			} else {
				ok, err := s.Remove(k)
				if err != nil {
					c.Violate("Remove returned %v", err)
				}
				see("Remove", k, ok)
				delete(added, k)
				sig += fmt.Sprint("r", k, time.Since(start))
			}
			look()
		}
		for j := 0; j < 20; j++ {
			time.Sleep(ms)
			look()
		}
		time.Sleep(100 * ms)
		look()
		c.Events("timeline steps judged", steps)
		c.Distinct(ttl, check, sig)
		c.Sample(func() string { return sig })
		cancel()
		// the bubble only ends when the cleaning goroutine has
	})
}

// uniqTTLChurn races adds and removes with the cleaning, all on few instants.
func uniqTTLChurn(c *kit.Case) {
	c.Bubble(func() {
		ctx, cancel := kit.Ctx(c.R, context.Background())
		defer cancel()
		ttl, check := time.Duration(1+c.R.IntN(4))*ms, time.Duration(1+c.R.IntN(3))*ms
		s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(ttl).WithCheckInterval(check).Build()
		n, keys := 2+c.R.IntN(4), 1+c.R.IntN(3)
		start := time.Now()
		type ev struct {
			k   int
			add bool
			at  time.Duration
		}
		log := make([][]ev, n)
		var wg sync.WaitGroup
		for g := range n {
			r := c.Rand(g)
			wg.Add(1)
			go c.Guard(func() {
				defer wg.Done()
				for range 25 {
					time.Sleep(time.Duration(r.IntN(3)) * ms)
					k := r.IntN(keys)
					if r.IntN(3) > 0 {
						if ok, _ := s.Add(k); ok {
							log[g] = append(log[g], ev{k, true, time.Since(start)})
						}
					} else if ok, _ := s.Remove(k); ok {
						log[g] = append(log[g], ev{k, false, time.Since(start)})
					}
					s.Has(k)
					s.Count()
				}
			})
		}
		wg.Wait()
		// between two successful adds there is a removal, or the TTL
		total := 0
		for k := range keys {
			var adds, removes []time.Duration
			for _, l := range log {
				for _, e := range l {
					if e.k == k && e.add {
						adds = append(adds, e.at)
					} else if e.k == k {
						removes = append(removes, e.at)
					}
				}
			}
			total += len(adds)
			sort.Slice(adds, func(i, j int) bool { return adds[i] < adds[j] })
			if len(removes) > len(adds) {
				c.Violate("value %d was added %d times and removed %d times", k, len(adds), len(removes))
			}
			for i := 1; i < len(adds); i++ {
				gone := adds[i]-adds[i-1] >= ttl
				for _, r := range removes {
					gone = gone || r >= adds[i-1] && r <= adds[i]
				}
				if !gone {
					c.Violate("ttl=%v: value %d was added at %v and again at %v without having left", ttl, k, adds[i-1], adds[i])
				}
			}
			c.Distinct(ttl, check, fmt.Sprint(adds, removes))
		}
		time.Sleep(ttl + check + ms)
		synctest.Wait()
		if got := s.Count(); got != 0 {
			c.Violate("Count %d one check interval after every TTL", got)
		}
		c.Events("racing adds judged", total)
		cancel()
	})
}

func init() {
	kit.Register(&kit.Prop{ID: "C21",
		Rule: "a distinct shape is a sequence of calls with their results, judged by the content of the values, or an overlapping history",
		Parts: []kit.Part{
			{Name: "content", N: 800, Fn: uniqDefault},
			{Name: "maps", N: 40, Factor: 1, Fn: uniqMaps},
			{Name: "build", N: 500, Fn: uniqBuild},
			{Name: "linearizable", N: 1500, Stress: true, Fn: uniqLin},
			{Name: "once", N: 500, Stress: true, Fn: uniqOnce},
			{Name: "large", N: 8, Fn: uniqLarge},
			{Name: "mass", N: 25, Stress: true, Fn: uniqMass},
		}})
	kit.Register(&kit.Prop{ID: "C22",
		Rule: "a distinct shape is a timeline (TTL, check interval, operations with their virtual times) judged step by step",
		Parts: []kit.Part{
			{Name: "timeline", N: 1500, Fn: uniqTTL},
			{Name: "churn", N: 1000, Stress: true, Fn: uniqTTLChurn},
			{Name: "mass", N: 60, Fn: uniqTTLMass},
		}})
}
