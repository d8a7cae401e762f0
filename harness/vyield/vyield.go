// Package vyield is the target of the calls that cmd/instrument plants before
// every statement of the code under test (in build-time copies, via go's
// -overlay; /repo itself is untouched). It records which statements ran and
// perturbs the schedule. Everything here is deliberately unsynchronised and
// hidden from the race detector: an atomic operation would order the
// goroutines under test and hide their races.
package vyield

import "runtime"

const MaxSites = 8192

const (
	Off     = 0 // record coverage only
	Uniform = 1 // yield at random statements
	Target  = 2 // park arrivals at one or two chosen statements until others make progress
)

var (
	hits   [MaxSites]uint32
	mode   int32
	t1, t2 int32 = -1, -1
	left   int32 // how many more arrivals at the targets are parked
	need   uint64
	limit  int32
	prog   uint64
	rng    uint64 = 0x9e3779b97f4a7c15
	parked uint64
	yields uint64
)

//go:norace
func next() uint64 {
	x := rng
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	if x == 0 {
		x = 0x9e3779b97f4a7c15
	}
	rng = x
	return x
}

// P is called before statement number site.
//
//go:norace
func P(site int32) {
	hits[site]++
	prog++
	switch mode {
	case Off:
		return
	case Uniform:
		r := next()
		if r&7 == 0 {
			n := int(r>>8)&3 + 1
			if r>>16&15 == 0 {
				n = 40
			}
			yields++
			for i := 0; i < n; i++ {
				runtime.Gosched()
			}
		}
	case Target:
		if (site == t1 || site == t2) && left > 0 {
			left--
			parked++
			start := prog
			idle := 0
			last := prog
			for i := int32(0); i < limit; i++ {
				runtime.Gosched()
				p := prog
				if p-start >= need {
					break
				}
				if p == last {
					if idle++; idle > 150 {
						break
					}
				} else {
					idle, last = 0, p
				}
			}
			return
		}
		if r := next(); r&31 == 0 {
			yields++
			runtime.Gosched()
		}
	}
}

// Configure picks the perturbation for the next case. Call it while no
// goroutine of the code under test is running.
//
//go:norace
func Configure(r1, r2 uint64) {
	rng ^= r1
	prog = 0
	switch r1 % 8 {
	case 0:
		mode = Off
	case 1, 2:
		mode = Uniform
	default:
		mode = Target
		t1 = pick(r1 >> 8)
		t2 = -1
		if r2&1 == 0 {
			t2 = pick(r2 >> 8)
		}
		left = int32(r2>>4&7) + 1
		need = []uint64{3, 10, 30, 100}[r2>>2&3]
		limit = 600
	}
}

// SetOff disables the perturbation.
//
//go:norace
func SetOff() { mode = Off }

// pick chooses among the statements that ran so far in this process.
//
//go:norace
func pick(r uint64) int32 {
	start := int32(r % MaxSites)
	for i := int32(0); i < MaxSites; i++ {
		s := (start*61 + i*67) & (MaxSites - 1)
		if s < 0 {
			s += MaxSites
		}
		if hits[s] > 0 {
			return s
		}
	}
	return -1
}

// Snapshot returns the statements hit and how often the schedule was perturbed.
//
//go:norace
func Snapshot() (sites []int32, nparked, nyields uint64) {
	for i := range hits {
		if hits[i] > 0 {
			sites = append(sites, int32(i))
		}
	}
	return sites, parked, yields
}
