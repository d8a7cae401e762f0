package guava

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	"axverif/kit"
	"axverif/typed"

	"github.com/anishathalye/porcupine"
)

// gState is the sequential map: entries in insertion order.
type gEnt struct{ k, v int }
type gState struct {
	max, n int
	e      [5]gEnt
}

func (s gState) find(k int) int {
	for i := 0; i < s.n; i++ {
		if s.e[i].k == k {
			return i
		}
	}
	return -1
}

func (s gState) remove(i int) gState {
	copy(s.e[i:], s.e[i+1:])
	s.n--
	s.e[s.n] = gEnt{}
	return s
}

func (s gState) put(k, v int) gState {
	if i := s.find(k); i >= 0 {
		s.e[i].v = v
		return s
	}
	if s.max > 0 && s.n >= s.max {
		s = s.remove(0)
	}
	s.e[s.n] = gEnt{k, v}
	s.n++
	return s
}

func (s gState) list() string {
	m := map[int]int{}
	for i := 0; i < s.n; i++ {
		m[s.e[i].k] = s.e[i].v
	}
	return fmt.Sprint(m)
}

type gIn struct {
	op     string
	k, v   int
	loader bool // the map has a load function
}
type gOut struct {
	v      int
	ok     bool
	err    bool
	loaded int // what this Get's load returned
	all    string
}

func (i gIn) String() string { return fmt.Sprintf("%s(%d,%d)", i.op, i.k, i.v) }
func (o gOut) String() string {
	return fmt.Sprintf("(%d,%v,%v,%d,%s)", o.v, o.ok, o.err, o.loaded, o.all)
}

func gStep(s gState, i gIn, o gOut) (bool, gState) {
	at := s.find(i.k)
	switch i.op {
	case "Set":
		return true, s.put(i.k, i.v)
	case "LockForUpdate":
		return o.v == i.v, s.put(i.k, i.v)
	case "Get":
		if at >= 0 {
			return !o.err && o.v == s.e[at].v, s
		}
		if !i.loader {
			return !o.err && o.v == 0, s
		}
		if o.err {
			return o.v == 0, s
		}
		return o.loaded != 0 && o.v == o.loaded, s.put(i.k, o.v)
	case "Has":
		return o.ok == (at >= 0), s
	case "HasOrCreate":
		if at >= 0 {
			return o.ok, s
		}
		return !o.ok, s.put(i.k, i.v)
	case "Delete":
		if at >= 0 {
			s = s.remove(at)
		}
		return true, s
	case "Clear":
		return true, gState{max: s.max}
	case "Size":
		return o.v == s.n, s
	case "GetStored":
		return o.all == s.list(), s
	}
	panic(i.op)
}

func gModel(max int) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return gState{max: max} },
		Step: func(s, in, out any) (bool, any) {
			ok, n := gStep(s.(gState), in.(gIn), out.(gOut))
			return ok, n
		},
		Equal: func(a, b any) bool { return a.(gState) == b.(gState) },
	}
}

var linOps = []string{"Set", "Set", "Get", "Get", "Get", "Has", "HasOrCreate", "HasOrCreate", "Delete", "Clear", "Size", "GetStored", "LockForUpdate"}

// linearizable runs one concurrent history. Keys encode the client (in the key
// type) so that the load function knows whose Get it serves.
func linearizable(c *kit.Case, minMax int) {
	max := minMax + c.R.IntN(4-minMax)
	loader, lock, fail := c.R.IntN(3) > 0, c.R.IntN(2) == 0, c.R.IntN(4)
	clients, per, keys := 2+c.R.IntN(3), 2+c.R.IntN(5), 1+c.R.IntN(3)
	if max > 0 {
		keys = max + 1
	}
	b := typed.NewGuavaMap(c.R)
	if max > 0 {
		b.WithMaxCount(max)
	}
	unload := c.R.IntN(2) == 0
	if unload {
		b.WithUnloadFunc(func(k, v int) {})
	}
	if c.R.IntN(3) == 0 { // timeouts that never fire
		b.WithReadTimeout(time.Hour).WithWriteTimeout(time.Duration(c.R.IntN(2)) * time.Hour)
	}
	errLoad := kit.AnyErr(c.R, "load failed")
	// loads hand out unique values; a Get returns which one it was given
	var seq atomic.Int64
	if loader {
		b.WithLoadFunc(func(k int) (int, error) {
			n := int(seq.Add(1))
			if n%8 < fail {
				return n, errLoad
			}
			runtime.Gosched()
			return 1e6 + n, nil
		}).WithLockLoad(lock)
	}
	m := b.Build()
	h := kit.NewHist(clients)
	type snap struct{ live, was map[int]int }
	snaps := make([][]snap, clients)
	c.Go(clients, func(g int, r *rand.Rand) {
		for j := 0; j < per; j++ {
			in := gIn{op: linOps[r.IntN(len(linOps))], k: r.IntN(keys), v: g*1000 + j + 1, loader: loader}
			h.Do(g, in, func() any {
				switch in.op {
				case "Set":
					m.Set(in.k, in.v)
				case "LockForUpdate":
					return gOut{v: m.LockForUpdate(in.k, func() int { return in.v })}
				case "Get":
					v, err := m.Get(in.k)
					o := gOut{v: v, err: err != nil}
					if err != nil && err != errLoad {
						c.Violate("Get returned error %v, the load function returned %v", err, errLoad)
					}
					if v > 1e6 {
						o.loaded = v
					}
					return o
				case "Has":
					return gOut{ok: m.Has(in.k)}
				case "HasOrCreate":
					return gOut{ok: m.HasOrCreate(in.k, in.v)}
				case "Delete":
					m.Delete(in.k)
				case "Clear":
					m.Clear()
				case "Size":
					return gOut{v: m.Size()}
				case "GetStored":
					live := m.GetStored()
					snaps[g] = append(snaps[g], snap{live, maps.Clone(live)})
					return gOut{all: fmt.Sprint(live)}
				}
				return gOut{}
			})
		}
	})
	for g := range snaps {
		for _, s := range snaps[g] {
			if !maps.Equal(s.live, s.was) {
				c.Violate("a map returned by GetStored changed from %v to %v", s.was, s.live)
			}
		}
	}
	c.Linearizable(fmt.Sprintf("GuavaMap max=%d loader=%v lockLoad=%v", max, loader, lock), gModel(max), h.Ops())
}

// election: goroutines race to create fresh keys.
func election(c *kit.Case) { electionOf(c, 2+c.R.IntN(7), 12) }

func electionOf(c *kit.Case, n, keys int) {
	b := typed.NewGuavaMap(c.R)
	if c.R.IntN(2) == 0 {
		b.WithReadTimeout(time.Hour)
	}
	if c.R.IntN(2) == 0 {
		b.WithMaxCount(keys)
	}
	m := b.Build()
	won := make([][]bool, n)
	saw := make([][]int, n)
	c.Go(n, func(g int, r *rand.Rand) {
		w, s := make([]bool, keys), make([]int, keys)
		for k := range w {
			w[k] = !m.HasOrCreate(k, g+1)
			s[k], _ = m.Get(k)
		}
		won[g], saw[g] = w, s
	})
	sig := ""
	for k := 0; k < keys; k++ {
		winner := -1
		for g := range won {
			if won[g][k] {
				if winner >= 0 {
					c.Violate("HasOrCreate(%d) returned false to goroutines %d and %d", k, winner, g)
				}
				winner = g
			}
		}
		if winner < 0 {
			c.Violate("HasOrCreate(%d) returned false to nobody", k)
		}
		for g := range saw {
			if saw[g][k] != winner+1 {
				c.Violate("key %d: goroutine %d read %d, goroutine %d created it with %d", k, g, saw[g][k], winner, winner+1)
			}
		}
		sig += fmt.Sprint(winner)
	}
	m.Clear()
	c.Events("elections judged", keys)
	c.Distinct(n, sig)
}

// soak uses everything at once with timers that do fire: no race, no panic, no
// deadlock, and every value read was written for that key.
func soak(c *kit.Case) {
	b := typed.NewGuavaMap(c.R)
	if c.R.IntN(3) > 0 {
		b.WithMaxCount(1 + c.R.IntN(6))
	}
	us := func() time.Duration { return time.Duration(20+c.R.IntN(400)) * time.Microsecond }
	switch c.R.IntN(4) {
	case 0:
		b.WithReadTimeout(us())
	case 1:
		b.WithWriteTimeout(us())
	case 2:
		b.WithReadTimeout(us()).WithWriteTimeout(us())
	}
	var unloads atomic.Int64
	if c.R.IntN(3) > 0 {
		b.WithUnloadFunc(func(k, v int) {
			if v/1000 != k {
				c.Violate("unload(%d, %d): that value was never stored under that key", k, v)
			}
			unloads.Add(1)
		})
	}
	if c.R.IntN(3) > 0 {
		b.WithLoadFunc(func(k int) (int, error) { runtime.Gosched(); return k*1000 + 999, nil }).WithLockLoad(c.R.IntN(2) == 0)
	}
	m := b.Build()
	c.Go(6, func(g int, r *rand.Rand) {
		for j := 0; j < 80; j++ {
			k := 1 + r.IntN(8)
			switch r.IntN(10) {
			case 0, 1:
				m.Set(k, k*1000+j)
			case 2, 3:
				if v, err := m.Get(k); err != nil || (v != 0 && v/1000 != k) {
					c.Violate("Get(%d) returned %d, %v", k, v, err)
				}
			case 4:
				m.Has(k)
			case 5:
				m.HasOrCreate(k, k*1000+j)
			case 6:
				m.Delete(k)
			case 7:
				if v := m.LockForUpdate(k, func() int { return k*1000 + j }); v != k*1000+j {
					c.Violate("LockForUpdate returned %d, its function %d", v, k*1000+j)
				}
			case 8:
				for k, v := range m.GetStored() {
					if v/1000 != k {
						c.Violate("GetStored has %d under %d", v, k)
					}
				}
			case 9:
				if r.IntN(6) == 0 {
					m.Clear()
				}
				m.Size()
			}
			if r.IntN(30) == 0 {
				time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
			}
		}
	})
	m.Clear()
	if n := m.Size(); n != 0 {
		c.Violate("Size is %d after Clear at rest", n)
	}
	c.Events("soak operations", 6*80)
	c.Events("unloads seen", int(unloads.Load()))
	c.Distinct("soak", c.Idx)
}
