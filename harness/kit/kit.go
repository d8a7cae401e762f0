// Package kit runs the cases of a property and reports what they observed.
//
// A property is a list of parts, each a function run on a fixed number of
// cases. Everything random in a case comes from a generator seeded by
// (VERIF_SEED, property, part, case number), so a case can be run again on its
// own; the schedule of concurrent cases is perturbed, not determined, by it.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"axverif/vyield"
)

// Part is one workload of a property together with its oracle.
type Part struct {
	Name string
	// 3*N cases are run by the quick check, N*Factor (default 60) by the thorough
	// one; N by both with Factor 1 (exhaustive parts).
	N, Factor int
	// Stress parts run with schedule perturbation.
	Stress bool
	Fn     func(c *Case)
}

// Prop is what decides one property.
type Prop struct {
	ID    string
	Rule  string
	Parts []Part
}

var props = map[string]*Prop{}

// Register makes a property available to Main.
func Register(p *Prop) { props[p.ID] = p }

// Case is one run of a part.
type Case struct {
	T    *testing.T
	R    *rand.Rand
	Prop string
	Part string
	Idx  int
	Seed uint64

	mu    sync.Mutex
	trace []string
}

type stats struct {
	Property     string                    `json:"property"`
	Rule         string                    `json:"rule"`
	Cases        map[string]int            `json:"cases"`
	Events       map[string]int            `json:"events"`
	Hashes       []uint64                  `json:"hashes"`
	Samples      map[string][]string       `json:"samples"`
	Known        []string                  `json:"known"`
	Sites        []int32                   `json:"sites"`
	Parked       uint64                    `json:"parked"`
	Yields       uint64                    `json:"yields"`
	Inconclusive map[string]int            `json:"inconclusive"`
	MaxOf        map[string]int            `json:"max"`
	Require      map[string]map[string]int `json:"-"`
}

var (
	st = stats{
		Cases: map[string]int{}, Events: map[string]int{}, Samples: map[string][]string{},
		Inconclusive: map[string]int{}, MaxOf: map[string]int{},
	}
	stMu   sync.Mutex
	hashes = map[uint64]struct{}{}
	ticks  atomic.Int64
	cur    atomic.Pointer[Case]
)

func seedOf(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}

// Rand returns another generator of the case, for goroutine or purpose k.
func (c *Case) Rand(k int) *rand.Rand { return rand.New(rand.NewPCG(c.Seed, uint64(k)+1)) }

// Logf adds a line to the case's trace. It synchronises: stress parts keep
// their own per-goroutine records instead.
func (c *Case) Logf(format string, a ...any) {
	c.mu.Lock()
	if len(c.trace) < 4000 {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Trace returns the trace so far.
func (c *Case) Trace() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.trace...)
}

// Events counts observations the oracle judged.
func (c *Case) Events(name string, n int) {
	stMu.Lock()
	st.Events[name] += n
	stMu.Unlock()
}

// Max keeps the largest value observed.
func (c *Case) Max(name string, n int) {
	stMu.Lock()
	if n > st.MaxOf[name] {
		st.MaxOf[name] = n
	}
	stMu.Unlock()
}

// Inconclusive counts a case whose oracle could not decide.
func (c *Case) Inconclusive(why string) {
	stMu.Lock()
	st.Inconclusive[why]++
	stMu.Unlock()
}

// Distinct records a non-trivial behaviour that was observed and judged.
func (c *Case) Distinct(parts ...any) {
	h := seedOf(append([]any{c.Part, "|"}, parts...)...)
	stMu.Lock()
	if len(hashes) < 400000 {
		hashes[h] = struct{}{}
	}
	stMu.Unlock()
}

// Sample keeps a written-out case, a few per part.
func (c *Case) Sample(f func() string) {
	stMu.Lock()
	defer stMu.Unlock()
	if len(st.Samples[c.Part]) < 1 {
		s := f()
		if len(s) > 1200 {
			s = s[:1200] + " ..."
		}
		st.Samples[c.Part] = append(st.Samples[c.Part], s)
	}
}

// Tick tells the watchdog that the case is advancing.
func (c *Case) Tick() { ticks.Add(1) }

// KnownFinding reports that the listed finding key showed, returns false if it
// is not listed.
func (c *Case) KnownFinding(key string) bool {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if k == key {
			stMu.Lock()
			defer stMu.Unlock()
			for _, x := range st.Known {
				if x == key {
					return true
				}
			}
			st.Known = append(st.Known, key)
			return true
		}
	}
	return false
}

var violated atomic.Bool

// Violate reports a violation and ends the process.
func (c *Case) Violate(format string, a ...any) {
	if !violated.CompareAndSwap(false, true) {
		select {} // another goroutine is reporting
	}
	msg := fmt.Sprintf(format, a...)
	report(c, msg)
}

func report(c *Case, msg string) {
	rec := map[string]any{"message": msg}
	if c != nil {
		rec["property"], rec["part"], rec["case"] = c.Prop, c.Part, c.Idx
		if c.mu.TryLock() {
			rec["trace"] = c.trace
			c.mu.Unlock()
		}
	}
	data, _ := json.Marshal(rec)
	fmt.Fprintf(os.Stdout, "\nKIT-VIOLATION %s\n", data)
	os.Stdout.Sync()
	os.Exit(3)
}

// Fatal ends the process with an error of the harness, not a verdict.
func (c *Case) Fatal(format string, a ...any) {
	fmt.Fprintf(os.Stdout, "\nKIT-ERROR %s/%s case %d: %s\n", c.Prop, c.Part, c.Idx, fmt.Sprintf(format, a...))
	os.Exit(4)
}

// Guard runs f and turns a panic into a violation. Goroutines of workloads that
// call the code under test run inside it.
func (c *Case) Guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate("panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
}

// Bubble runs f in a synctest bubble: virtual time, all goroutines of which
// must have ended when f returns.
// The clock of a bubble starts at midnight; the case begins at some odd moment.
func (c *Case) Bubble(f func()) {
	off := time.Duration(c.R.Int64N(int64(50 * time.Hour)))
	synctest.Test(c.T, func(t *testing.T) {
		time.Sleep(off)
		c.Guard(f)
	})
}

//go:norace
func spin(p *int32, n int32) {
	for i := 0; *p < n; i++ {
		if i > 100000 {
			return
		}
		if i%64 == 63 {
			runtime.Gosched()
		}
	}
}

//go:norace
func bump(p *int32) { *p++ }

// Go runs fn in n goroutines that start about together, and waits for them.
// It orders nothing between the goroutines.
func (c *Case) Go(n int, fn func(g int, r *rand.Rand)) {
	var wg sync.WaitGroup
	var at int32
	wg.Add(n)
	for g := 0; g < n; g++ {
		go func() {
			defer wg.Done()
			r := c.Rand(g)
			bump(&at)
			spin(&at, int32(n))
			c.Guard(func() { fn(g, r) })
		}()
	}
	wg.Wait()
}

var base = time.Now()

// Now is a monotonic clock that orders nothing.
func Now() int64 { return int64(time.Since(base)) }

func envInt(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return def
}

// Main runs the property named by VERIF_PROP.
func rank(p Part) int {
	if p.Name == "concurrent" {
		return 0
	}
	return 1
}

func Main(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	if id == "" {
		t.Skip("VERIF_PROP not set")
	}
	p := props[id]
	if p == nil {
		fmt.Printf("\nKIT-ERROR unknown property %s\n", id)
		os.Exit(4)
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	onlyPart, onlyCase := os.Getenv("VERIF_PART"), envInt("VERIF_CASE", -1)
	repeat := envInt("VERIF_REPEAT", 1)
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	st.Property, st.Rule = p.ID, p.Rule
	go watchdog()
	// Concurrent parts first: what a process does only once, the first time,
	// is then done by several goroutines.
	slices.SortStableFunc(p.Parts, func(a, b Part) int {
		return rank(a) - rank(b)
	})
	for _, part := range p.Parts {
		if onlyPart != "" && part.Name != onlyPart {
			continue
		}
		n := part.N
		if thorough {
			f := part.Factor
			if f == 0 {
				f = 60
			}
			n *= f
		} else if part.Factor != 1 {
			n *= 3
		}
		t0 := time.Now()
		for i := shard; i < n; i += shards {
			if onlyCase >= 0 {
				i = onlyCase
			}
			for k := 0; k < repeat; k++ {
				cs := seedOf(seed, "/", p.ID, "/", part.Name, "/", i)
				c := &Case{T: t, R: rand.New(rand.NewPCG(cs, 0)), Prop: p.ID, Part: part.Name, Idx: i, Seed: cs}
				cur.Store(c)
				if part.Stress {
					vyield.Configure(rand.Uint64(), rand.Uint64())
				} else {
					vyield.SetOff()
				}
				c.Guard(func() { part.Fn(c) })
				stMu.Lock()
				st.Cases[part.Name]++
				stMu.Unlock()
				ticks.Add(1)
			}
			if onlyCase >= 0 {
				break
			}
		}
		vyield.SetOff()
		if os.Getenv("VERIF_TIMING") != "" {
			fmt.Printf("TIMING %s %s %d cases %.2fs\n", p.ID, part.Name, st.Cases[part.Name], time.Since(t0).Seconds())
		}
	}
	if t.Failed() {
		fmt.Printf("\nKIT-ERROR the test failed without a verdict\n")
		os.Exit(4)
	}
	st.Sites, st.Parked, st.Yields = vyield.Snapshot()
	for h := range hashes {
		st.Hashes = append(st.Hashes, h)
	}
	sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
	data, _ := json.Marshal(&st)
	if out := os.Getenv("VERIF_STATS"); out != "" {
		if err := os.WriteFile(out, data, 0o644); err != nil {
			fmt.Printf("\nKIT-ERROR %v\n", err)
			os.Exit(4)
		}
	}
}

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	stallChecks = 12               // unchanged all-blocked dumps, one a second, that make a deadlock
	cpuBudget   = 30 * time.Second // CPU time one case may take (they take milliseconds)
	heapLimit   = 1500 << 20
	goLimit     = 20000 // goroutines alive (cases have hundreds)
)

// watchdog turns cases that never end into verdicts that do not depend on how
// fast the machine is: either every goroutine is blocked (a deadlock), or the
// case used orders of magnitude more CPU time or memory than any case needs.
func watchdog() {
	last, lastCPU := ticks.Load(), cpu()
	lastDump, same := "", 0
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	for n := 0; ; n++ {
		time.Sleep(20 * time.Millisecond)
		if k := runtime.NumGoroutine(); k > goLimit {
			stuck("goroutines without bound: %d are alive", k)
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64()+sample[1].Value.Uint64() > heapLimit {
			stuck("memory without bound: one case holds more than %d MB\n%s", heapLimit>>20, dump())
		}
		if n%50 != 0 {
			continue
		}
		if now := ticks.Load(); now != last {
			last, lastCPU, lastDump, same = now, cpu(), "", 0
			continue
		}
		if used := cpu() - lastCPU; used > cpuBudget {
			stuck("no progress within %v of CPU time\n%s", used, dump())
		}
		d := dump()
		states, blocked := allBlocked(d)
		if !blocked || states != lastDump {
			lastDump, same = states, 0
			continue
		}
		if same++; same >= stallChecks {
			stuck("deadlock: every goroutine is blocked\n%s", d)
		}
	}
}

func stuck(format string, a ...any) {
	c := cur.Load()
	if !violated.CompareAndSwap(false, true) {
		select {}
	}
	report(c, fmt.Sprintf(format, a...))
}

var (
	dumpMu  sync.Mutex
	dumpBuf = make([]byte, 1<<20) // not allocated anew: C43 watches the heap
)

func dump() string {
	dumpMu.Lock()
	defer dumpMu.Unlock()
	return string(dumpBuf[:runtime.Stack(dumpBuf, true)])
}

// allBlocked tells whether no goroutine but the watchdog can run. Waiting times
// are removed from the states so that they can be compared.
func allBlocked(d string) (string, bool) {
	var states []string
	for i, g := range strings.Split(d, "\n\n") {
		if i == 0 { // the watchdog
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		a, b := strings.Index(head, "["), strings.LastIndex(head, "]")
		if a < 0 || b < a {
			continue
		}
		var keep []string
		for _, s := range strings.Split(head[a+1:b], ",") {
			if s = strings.TrimSpace(s); !strings.HasSuffix(s, "minutes") {
				keep = append(keep, s)
			}
		}
		s := strings.Join(keep, ",")
		if strings.HasPrefix(s, "run") || strings.HasPrefix(s, "syscall") || strings.HasPrefix(s, "IO wait") || strings.HasPrefix(s, "copystack") || strings.HasPrefix(s, "preempted") {
			return "", false
		}
		states = append(states, head[:a]+s)
	}
	return strings.Join(states, "\n"), true
}
