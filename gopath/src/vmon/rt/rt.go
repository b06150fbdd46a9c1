// Package rt is the runtime of the monitors: it counts and remembers the
// observed events, collects the oracle's verdicts, watches for lost progress
// and writes the evidence file and the witnesses.
package rt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type R struct {
	Prop, Tier, Out, ReplayDir, KnownFile string
	Seed                                  int64
	Rand                                  *rand.Rand
	Thorough                              bool

	Level, Rule string
	Notes       map[string]interface{}
	Assume      []string

	mu        sync.Mutex
	evals     int64
	events    int64
	kinds     map[string]int64
	states    map[uint64]struct{}
	samples   []string
	nsample   map[string]int
	ring      [96]event
	seq       int
	fails     []fail
	failKinds map[string]int
	known     []string
	start     time.Time
	floors    map[string]int64
	local     []*time.Location // the process's time zone changes among these
	nlocal    map[string]int
}

// places are the time zones a process is put in.
var places = []string{"UTC", "Asia/Bangkok", "America/Los_Angeles", "Pacific/Kiritimati", "Europe/London", "Asia/Kathmandu", "Pacific/Apia"}

// Wander has the time zone of the process change while the monitor runs.
func (r *R) Wander() {
	r.local = append(r.local, time.FixedZone("odd", -(11*3600+20*60+13)))
	for _, n := range places {
		if l, err := time.LoadLocation(n); err == nil {
			r.local = append(r.local, l)
		}
	}
	r.nlocal = map[string]int{}
	r.Notes["process_time_zones"] = r.nlocal
}

// wander is called with the lock held.
func (r *R) wander() {
	if r.local == nil || r.seq%41 != 0 {
		return
	}
	l := r.local[(r.seq/41*7919+int(r.Seed))%len(r.local)]
	r.nlocal[l.String()]++
	time.Local = l
}

type event struct {
	f string
	a [4]int64
	n int
	s string
}

func (e event) String() string {
	if e.n == 0 {
		return e.f + e.s
	}
	a := make([]interface{}, e.n)
	for i := range a {
		a[i] = e.a[i]
	}
	return fmt.Sprintf(e.f, a...)
}

type fail struct {
	Kind, Msg, Replay string
}

func New(prop, tier string, seed int64) *R {
	h := fnv.New64a()
	h.Write([]byte(prop))
	r := &R{Prop: prop, Tier: tier, Seed: seed, Thorough: tier == "thorough",
		Rand:  rand.New(rand.NewSource(seed*1000003 + int64(h.Sum64()%1000000007))),
		kinds: map[string]int64{}, states: map[uint64]struct{}{}, nsample: map[string]int{},
		failKinds: map[string]int{}, floors: map[string]int64{}, start: time.Now(),
		Notes: map[string]interface{}{}, Level: "exploration"}
	return r
}

// N picks the size of a workload by tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Ev records that an operation is about to be performed on the library.
func (r *R) Ev(f string, a ...int64) {
	r.mu.Lock()
	e := &r.ring[r.seq%len(r.ring)]
	e.f, e.s, e.n = f, "", copy(e.a[:], a)
	r.seq++
	r.wander()
	r.mu.Unlock()
	atomic.AddInt64(&r.events, 1)
}

// EvS is Ev with a text.
func (r *R) EvS(kind, s string) {
	r.mu.Lock()
	e := &r.ring[r.seq%len(r.ring)]
	e.f, e.s, e.n = kind, s, 0
	r.seq++
	r.wander()
	r.mu.Unlock()
	atomic.AddInt64(&r.events, 1)
}

// OK counts one oracle decision of a kind.
func (r *R) OK(kind string) { r.Add(kind, 1) }

func (r *R) Add(kind string, n int64) {
	r.mu.Lock()
	r.kinds[kind] += n
	r.evals += n
	r.mu.Unlock()
}

// Floor demands that at least n decisions of a kind were made; fewer make the run inconclusive.
func (r *R) Floor(kind string, n int64) { r.floors[kind] = n }

// State notes an abstract state that was seen.
func (r *R) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	r.StateH(h.Sum64())
}

func (r *R) StateH(h uint64) {
	r.mu.Lock()
	if len(r.states) < 4000000 {
		r.states[h] = struct{}{}
	}
	r.mu.Unlock()
}

// Mix hashes a few integers into a state key.
func Mix(a ...int64) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range a {
		h ^= uint64(v)
		h *= 1099511628211
		h ^= h >> 29
	}
	return h
}

// Sample keeps a few cases of each kind for the evidence.
func (r *R) Sample(kind, format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.nsample[kind] >= 2 || len(r.samples) >= 24 {
		return
	}
	r.nsample[kind]++
	r.samples = append(r.samples, kind+": "+fmt.Sprintf(format, a...))
}

// Fail records a violation. ident names the failing input or site for the known-findings file.
func (r *R) Fail(kind, ident, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k == kind+" "+ident {
			if r.failKinds["known "+k] == 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, k, msg)
			}
			r.failKinds["known "+k]++
			return
		}
	}
	r.failKinds[kind]++
	if r.failKinds[kind] > 1 {
		if r.failKinds[kind] > 200000 {
			r.finish()
		}
		return
	}
	r.record(kind, ident, msg)
	if len(r.fails) >= 6 {
		r.finish()
	}
}

func (r *R) record(kind, ident, msg string) {
	var hist []string
	for i := r.seq - len(r.ring); i < r.seq; i++ {
		if i >= 0 {
			hist = append(hist, r.ring[i%len(r.ring)].String())
		}
	}
	os.MkdirAll(r.ReplayDir, 0755)
	path := filepath.Join(r.ReplayDir, fmt.Sprintf("%s-%s-%d.json", r.Prop, clean(kind), len(r.fails)))
	w := map[string]interface{}{"property": r.Prop, "kind": kind, "ident": ident, "message": msg, "process_time_zone": time.Local.String(),
		"seed": r.Seed, "tier": r.Tier, "last_events": hist,
		"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s", r.Seed, r.Tier, r.Prop)}
	b, _ := json.MarshalIndent(w, "", " ")
	os.WriteFile(path, b, 0644)
	r.fails = append(r.fails, fail{kind, msg, path})
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	fmt.Printf("  %s: %s\n", kind, msg)
}

func clean(s string) string {
	return strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' {
			return c
		}
		return '_'
	}, s)
}

// Eq decides one comparison.
func (r *R) Eq(kind, ident string, got, want interface{}) bool {
	r.OK(kind)
	if got != want {
		r.Fail(kind, ident, "%s: got %v, want %v", ident, got, want)
		return false
	}
	return true
}

// EqI decides one comparison without building its description unless it fails.
func (r *R) EqI(kind string, got, want int64, f string, a ...int64) bool {
	r.OK(kind)
	if got != want {
		x := make([]interface{}, len(a))
		for i := range a {
			x[i] = a[i]
		}
		id := fmt.Sprintf(f, x...)
		r.Fail(kind, id, "%s: got %d, want %d", id, got, want)
		return false
	}
	return true
}

func (r *R) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.fails) > 0
}

// Stop ends the process with what has been decided so far.
func (r *R) Stop() {
	r.mu.Lock()
	r.finish()
}

func (r *R) loadKnown() {
	f, err := os.Open(r.KnownFile)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		p := "known: property=" + r.Prop + " "
		if strings.HasPrefix(sc.Text(), p) {
			r.known = append(r.known, strings.TrimSpace(strings.SplitN(strings.TrimPrefix(sc.Text(), p), " -- ", 2)[0]))
		}
	}
}

// Run performs a monitor and ends the process: 0 held, 1 violated, 3 inconclusive, 2 monitor error.
func (r *R) Run(f func(*R)) {
	r.loadKnown()
	go r.watch()
	done := false
	defer func() {
		// done is false without a panic value where the library ended the goroutine
		if e := recover(); e != nil || !done {
			stack := string(debug.Stack())
			if InLibrary(stack) {
				r.mu.Lock()
				r.record("panic", "panic", fmt.Sprintf("the library panicked: %v\n%s", e, stack))
				r.finish()
			}
			fmt.Fprintf(os.Stderr, "monitor error: %v\n%s\n", e, stack)
			if r.Violated() {
				// what went wrong before may be what the monitor stumbled over
				r.mu.Lock()
				r.finish()
			}
			os.Exit(2)
		}
	}()
	f(r)
	done = true
	r.mu.Lock()
	r.finish()
}

// InLibrary tells from a stack which of the library and the monitor was innermost.
func InLibrary(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "vmon/rt.(*R).Run.func") {
			continue
		}
		if strings.Contains(l, "splendidmoons/suriya-go.") {
			return true
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "vmon/") {
			return false
		}
	}
	return false
}

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watch looks for operations that never come back: one that burns 150 s of
// processor time (measured, not elapsed, time), or one that is blocked for good.
func (r *R) watch() {
	last, lastCPU, lastWall := int64(-1), cpu(), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		n := atomic.LoadInt64(&r.events)
		if n != last {
			last, lastCPU, lastWall = n, cpu(), time.Now()
			continue
		}
		burnt, wall := cpu()-lastCPU, time.Since(lastWall)
		if burnt < 150*time.Second && wall < 400*time.Second {
			continue
		}
		buf := make([]byte, 1<<20)
		stack := string(buf[:runtime.Stack(buf, true)])
		lib := false
		for _, g := range strings.Split(stack, "\n\n") {
			if !strings.Contains(g, "splendidmoons/suriya-go.") {
				continue
			}
			head := strings.SplitN(g, "\n", 2)[0]
			blocked := strings.Contains(head, "[sync.") || strings.Contains(head, "[semacquire") || strings.Contains(head, "[chan ") || strings.Contains(head, "[select")
			if burnt >= 150*time.Second || blocked {
				lib = true
			}
		}
		r.mu.Lock()
		if lib {
			r.record("no-progress", "no-progress", fmt.Sprintf("the last call did not come back (%v of processor time since)\n%s", burnt, stack))
			r.finish()
		}
		fmt.Printf("INCONCLUSIVE property=%s: no progress\n%s\n", r.Prop, stack)
		os.Exit(3)
	}
}

// finish is called with the mutex held.
func (r *R) finish() {
	code := 0
	if len(r.fails) > 0 {
		code = 1
	}
	var low []string
	for k, n := range r.floors {
		if r.kinds[k] < n {
			low = append(low, fmt.Sprintf("%s: %d < %d", k, r.kinds[k], n))
		}
	}
	sort.Strings(low)
	if code == 0 && (len(low) > 0 || r.evals == 0) {
		fmt.Printf("INCONCLUSIVE property=%s: too few observations: %v\n", r.Prop, low)
		code = 3
	}
	cov := map[string]interface{}{
		"evaluations": r.evals, "distinct_nontrivial": len(r.states), "rule": r.Rule,
		"samples": r.samples, "library_operations_observed": r.events, "decisions_by_kind": r.kinds, "fewest_required": r.floors,
	}
	for k, v := range r.Notes {
		cov[k] = v
	}
	ev := map[string]interface{}{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.fails)}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	if r.Out != "" {
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			os.MkdirAll(filepath.Dir(r.Out), 0755)
			err = os.WriteFile(r.Out, append(b, '\n'), 0644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			os.Exit(2)
		}
	}
	if code == 0 {
		fmt.Printf("held: property=%s %d decisions, %d library operations, %d distinct states\n", r.Prop, r.evals, r.events, len(r.states))
	}
	flushCoverage()
	os.Exit(code)
}
