package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"log"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/rt"
)

// footprint is what a process shows of itself besides its answers.
type footprint struct {
	Settings   map[string]string
	Files      []string
	Descs      []string
	Goroutines int
	Heap       uint64
}

func footprints(heap bool) (f footprint) {
	f.Settings = map[string]string{}
	env := os.Environ()
	sort.Strings(env)
	f.Settings["environment"] = strings.Join(env, " ")
	f.Settings["working directory"], _ = os.Getwd()
	f.Settings["arguments"] = fmt.Sprint(os.Args)
	f.Settings["local time zone"] = fmt.Sprintf("%p %s", time.Local, time.Local)
	f.Settings["UTC"] = fmt.Sprintf("%p %s", time.UTC, time.UTC)
	f.Settings["standard files"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	f.Settings["log"] = fmt.Sprintf("%d %q %p", log.Flags(), log.Prefix(), log.Writer())
	f.Settings["processors"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	f.Settings["collector"] = fmt.Sprint(gc)
	f.Settings["http"] = fmt.Sprintf("%p %p %p", http.DefaultServeMux, http.DefaultClient, http.DefaultTransport)
	for _, path := range []string{"/", "/data/", "/data/astro/", "/suriya/", "/debug/pprof/", "/debug/vars"} {
		if req, err := http.NewRequest("GET", "http://localhost"+path, nil); err == nil {
			_, pattern := http.DefaultServeMux.Handler(req)
			f.Settings["http handler of "+path] = pattern
		}
	}
	f.Settings["http client"] = fmt.Sprintf("%+v", *http.DefaultClient)
	f.Settings["memory limit"] = fmt.Sprint(debug.SetMemoryLimit(-1))
	stack := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(stack)
	f.Settings["stack limit"] = fmt.Sprint(stack)
	threads := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(threads)
	f.Settings["thread limit"] = fmt.Sprint(threads)
	var flags []string
	flag.VisitAll(func(g *flag.Flag) { flags = append(flags, g.Name+"="+g.Value.String()) })
	f.Settings["flags"] = strings.Join(flags, " ")
	f.Settings["UseExceptions"] = fmt.Sprint(suriya.UseExceptions)
	f.Settings["AdhikavaraExceptions"] = fmt.Sprint(suriya.AdhikavaraExceptions, reflect.ValueOf(suriya.AdhikavaraExceptions).Pointer())
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "Umask") || strings.HasPrefix(l, "Uid") || strings.HasPrefix(l, "SigIgn") || strings.HasPrefix(l, "SigCgt") {
				k := strings.SplitN(l, ":", 2)
				f.Settings["status "+k[0]] = strings.TrimSpace(k[1])
			}
		}
	}
	f.Files = tree(".")
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, e := range l {
			t, err := os.Readlink("/proc/self/fd/" + e.Name())
			if err == nil && !strings.HasPrefix(t, "/proc/") {
				f.Descs = append(f.Descs, t)
			}
		}
	}
	f.Goroutines = runtime.NumGoroutine()
	if heap {
		var m runtime.MemStats
		for i := 0; i < 4; i++ {
			runtime.GC()
			time.Sleep(5 * time.Millisecond)
		}
		runtime.ReadMemStats(&m)
		f.Heap = m.HeapAlloc
	}
	return
}

// tree lists what is below a directory, links followed.
func tree(dir string) (out []string) {
	l, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	for _, e := range l {
		p := filepath.Join(dir, e.Name())
		st, err := os.Stat(p)
		if err != nil {
			out = append(out, p)
			continue
		}
		if st.IsDir() {
			out = append(out, p+"/")
			out = append(out, tree(p)...)
		} else {
			out = append(out, fmt.Sprintf("%s %d %d %v", p, st.Size(), st.ModTime().UnixNano(), st.Mode()))
		}
	}
	return
}

// localOps asks for files by every route, also where there are none.
func localOps(seed int64) {
	names := []string{"/data/astro/astro-2015.json", "/data/astro/astro-1970.json", "/data/astro/astro-1902.json", "/data/astro/astro-1900.json", "/data/astro/astro-2039.json", "/data//astro/../astro/astro-1901.json", "/data/astro", "/data", "/", "/data/astro/none.json", "/etc/passwd", ""}
	for _, n := range names {
		for route := 0; route < routes; route++ {
			func() {
				defer func() { recover() }() // the must-variants
				access(route, n)
			}()
		}
	}
}

type quietReport struct {
	Before, After, End footprint
	Ops                int
	Rounds             int
	Panics             []string
	Grown              map[string][2]int64
}

// quietWorker: -mode quiet FILE SEED COUNT ROUNDS GC EXCEPTIONS
func quietWorker(args []string) {
	file := args[0]
	var seed int64
	var n, rounds, gc, exc int
	fmt.Sscan(strings.Join(args[1:], " "), &seed, &n, &rounds, &gc, &exc)
	if gc == 0 {
		debug.SetGCPercent(-1) // what is not closed stays open
	}
	suriya.UseExceptions = exc != 0
	rep := quietReport{Rounds: rounds, Ops: n}
	first := footprints(false)
	ops := genOps(seed, n, "")
	prepareShared()
	round := func() {
		for _, o := range ops {
			if p, ok := runOp(o).(panicked); ok && len(rep.Panics) < 3 {
				rep.Panics = append(rep.Panics, o.String()+": "+p.msg+" "+p.stack)
			}
		}
		localOps(seed)
	}
	round()
	rep.Before = footprints(gc != 0)
	for k := 0; k < rounds; k++ {
		round()
	}
	rep.After = footprints(gc != 0)
	if gc != 0 {
		rep.Grown = growth(seed)
	}
	for i := 0; i < 100 && rep.After.Goroutines > rep.Before.Goroutines; i++ {
		time.Sleep(50 * time.Millisecond)
		rep.After.Goroutines = runtime.NumGoroutine()
	}
	rep.End = first
	b, err := json.Marshal(rep)
	if err == nil {
		err = os.WriteFile(file, b, 0644)
	}
	if err != nil {
		os.Exit(7)
	}
}

// growth asks the same few questions of each kind many times and tells how many
// bytes more are in use afterwards, and after how many calls.
func growth(seed int64) map[string][2]int64 {
	out := map[string][2]int64{}
	used := func() int64 {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	kinds := append([]string{"local files"}, opNames...)
	for _, kind := range kinds {
		var ops []op
		if kind != "local files" {
			ops = genOps(seed, 25, kind)
		}
		round := func() int64 {
			if ops == nil {
				localOps(seed)
				return 6 * routes
			}
			for _, o := range ops {
				runOp(o)
			}
			return int64(len(ops))
		}
		round()
		before := used()
		calls := int64(0)
		for start := time.Now(); calls < 30000 && (calls < 500 || time.Since(start) < 150*time.Millisecond); {
			calls += round()
		}
		out[kind] = [2]int64{used() - before, calls}
	}
	return out
}

func quietRun(r *rt.R, k int, seed int64, n, rounds, gc, exc int) {
	base, err := os.MkdirTemp("", "quiet")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(base)
	dir := filepath.Join(base, "cwd")
	wd, _ := os.Getwd()
	os.Mkdir(dir, 0755)
	os.Mkdir(filepath.Join(base, "tmp"), 0755)
	os.Symlink(filepath.Join(wd, "data"), filepath.Join(dir, "data"))
	os.WriteFile(filepath.Join(dir, "years.csv"), []byte("old\n"), 0644)
	report := filepath.Join(base, "report.json")
	zone := []string{"UTC", "Asia/Bangkok", "Pacific/Apia", "America/New_York"}[k%4]
	env := []string{"HOME=" + dir, "TMPDIR=" + filepath.Join(base, "tmp"), "PATH=/usr/bin:/bin", "TZ=" + zone, "LANG=C.UTF-8", "VERBOSE=1", "DEBUG=1", "SURIYA_VERBOSE=1", "verbose=1"}
	before := append(tree(dir), tree(filepath.Join(base, "tmp"))...)
	self, _ := os.Executable()
	what := fmt.Sprintf("seed %d, %d operations, %d rounds, gc %d, exceptions %d", seed, n, rounds, gc, exc)
	r.EvS("process: ", what)
	w := worker(self, dir, env, "-mode", "quiet", report, fmt.Sprint(seed), fmt.Sprint(n), fmt.Sprint(rounds), fmt.Sprint(gc), fmt.Sprint(exc))
	b, err := os.ReadFile(report)
	var rep quietReport
	if err == nil {
		err = json.Unmarshal(b, &rep)
	}
	if w.timedOut {
		if t := libraryTrouble(w.err); t != "" && w.cpu >= 100*time.Second {
			r.Fail("no-progress", what, "the calls did not come back (%s): %s", what, shorten(t))
			r.Stop()
		}
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: worker did not end:", what)
		os.Exit(3)
	}
	if w.out != "" || w.err != "" {
		r.Fail("output", what, "the library printed %.2000q on standard output and %.4000q on standard error (%s)", w.out, w.err, what)
		return
	}
	r.OK("output")
	if err != nil || w.code != 0 {
		// a process that ended by itself without a word
		r.Fail("exit", what, "the process ended with code %d and no report (%s): %v", w.code, what, err)
		return
	}
	r.Add("operations", int64(rep.Ops*(rep.Rounds+1)))
	if len(rep.Panics) > 0 {
		r.Fail("panic", what, "%s: %.3000s", what, rep.Panics[0])
	}
	settings := func(name string, a, b footprint) {
		for k := range a.Settings {
			r.OK("setting")
			if a.Settings[k] != b.Settings[k] {
				r.Fail("setting "+k, what, "%s changed from %q to %q %s (%s)", k, a.Settings[k], b.Settings[k], name, what)
			}
		}
		r.OK("files")
		if d := diff2(a.Files, b.Files); d != "" {
			r.Fail("files", what, "files in the working directory changed %s: %s (%s)", name, d, what)
		}
	}
	settings("by the first round of queries", rep.End, rep.Before)
	settings("by repeating the queries", rep.Before, rep.After)
	after := append(tree(dir), tree(filepath.Join(base, "tmp"))...)
	r.OK("files")
	if d := diff2(before, after); d != "" {
		r.Fail("files", what, "files changed: %s (%s)", d, what)
	}
	r.OK("descriptors")
	if len(rep.After.Descs) > len(rep.Before.Descs)+20 {
		r.Fail("descriptors", what, "%d files open after one round, %d after %d more, the last %q (%s)", len(rep.Before.Descs), len(rep.After.Descs), rounds, rep.After.Descs[len(rep.After.Descs)-1], what)
	}
	r.OK("goroutines")
	if rep.After.Goroutines > rep.Before.Goroutines+4 {
		r.Fail("goroutines", what, "%d goroutines after one round, %d after %d more (%s)", rep.Before.Goroutines, rep.After.Goroutines, rounds, what)
	}
	if gc != 0 {
		r.OK("memory")
		grown := int64(rep.After.Heap) - int64(rep.Before.Heap)
		if m, ok := r.Notes["largest_memory_growth_bytes"].(int64); !ok || grown > m {
			r.Notes["largest_memory_growth_bytes"] = grown
		}
		if grown > 200000 {
			r.Fail("memory", what, "%d bytes in use after one round, %d after %d more of the same %d queries (%s)", rep.Before.Heap, rep.After.Heap, rounds, n, what)
		}
	}
	for kind, g := range rep.Grown {
		r.OK("growth")
		r.Add("operations", g[1])
		if m, ok := r.Notes["largest_growth_of_a_kind_bytes"].(int64); !ok || g[0] > m {
			r.Notes["largest_growth_of_a_kind_bytes"] = g[0]
			r.Notes["largest_growth_of_a_kind"] = fmt.Sprintf("%s, %d calls", kind, g[1])
		}
		if g[0] > 60000 {
			r.Fail("growth", kind, "%d bytes more in use after %d calls %q of the same 25 questions (%s)", g[0], g[1], kind, what)
		}
	}
	r.State(zone, gc, exc, rep.Ops, len(rep.Before.Descs), rep.Before.Goroutines)
	r.Sample("process", "%s: %d descriptors, %d goroutines, heap %d then %d", what, len(rep.After.Descs), rep.After.Goroutines, rep.Before.Heap, rep.After.Heap)
}

func diff2(a, b []string) string {
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	var out []string
	for _, x := range b {
		if n[x]--; n[x] < 0 {
			out = append(out, "+"+x)
		}
	}
	for _, x := range a {
		if n[x] > 0 {
			n[x]--
			out = append(out, "-"+x)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " ")
}

func init() {
	core("C25", "fresh processes that perform lists of calls of every kind over and over, with their output, files, descriptors, goroutines, memory, settings and switches watched; every query method on a receiver compared before and after; answers compared with themselves after hundreds of later calls; distinct: (environment, setting of the run) and (method, receiver)", func(r *rt.R) {
		for k := 0; k < r.N(8, 40); k++ {
			n, rounds, gc := 600, 8, 1
			if k%2 == 0 {
				n, rounds, gc = 150, 3, 0
			} else if k%4 == 1 {
				n, rounds = 60, 60
			}
			if r.Thorough && k%8 == 3 {
				n, rounds = 1500, 20
			}
			quietRun(r, k, r.Rand.Int63n(1<<40), n, rounds, gc, k/2%2)
		}
		// answers already given stay as they were, whatever is asked later
		prepareShared()
		for k := 0; k < r.N(12, 120); k++ {
			ops := genOps(r.Rand.Int63(), r.N(150, 300), "")
			vals, texts := make([]interface{}, len(ops)), make([]string, len(ops))
			for i, o := range ops {
				r.EvS("held ", o.kind)
				vals[i] = runOp(o)
				texts[i] = opText(o, vals[i])
			}
			for i, o := range ops {
				r.OK("answer-kept")
				if t := opText(o, vals[i]); t != texts[i] {
					r.Fail("answer-kept", o.kind, "%s: after %d later calls the answer once given has turned from %.600s into %.600s", o, len(ops)-i-1, texts[i], t)
					break
				}
				r.State("kept", o.kind)
			}
		}
		// asking a year never changes it
		for k := 0; k < r.N(4000, 40000); k++ {
			y := 639 + r.Rand.Int63n(2900)
			su := newYear(y)
			if r.Rand.Intn(4) == 0 { // the receiver may hold anything
				su.Tithi, su.Avoman, su.Kammacubala = r.Rand.Intn(30), r.Rand.Intn(692), 1+r.Rand.Intn(800)
				su.FirstDay = time.Unix(r.Rand.Int63n(1e9), 0)
			}
			switch r.Rand.Intn(12) {
			case 0:
				su = suriya.SuriyaYear{Year: int(y)}
			case 1:
				su = junk(r)
				su.Year = int(y) // years-since are looked for by year
			case 2: // one of them missing or altered
				f := []*int{&su.BE_Year, &su.CS_Year, &su.Horakhun, &su.Kammacubala, &su.Uccabala, &su.Avoman, &su.Masaken, &su.Tithi}[r.Rand.Intn(8)]
				*f = []int{0, -1, *f + 1}[r.Rand.Intn(3)]
			}
			was := su
			for _, q := range []struct {
				n string
				f func()
			}{
				{"Is_Adhikamasa", func() { su.Is_Adhikamasa() }}, {"Would_Be_Adhikamasa", func() { su.Would_Be_Adhikamasa() }},
				{"Is_Adhikavara", func() { su.Is_Adhikavara() }}, {"Would_Be_Adhikavara", func() { su.Would_Be_Adhikavara() }},
				{"Has_Carried_Adhikavara", func() { su.Has_Carried_Adhikavara() }}, {"Is_Suriya_Leap", func() { su.Is_Suriya_Leap() }},
				{"YearLength", func() { su.YearLength() }}, {"AdhikamasaCyclePos", func() { su.AdhikamasaCyclePos() }}, {"AdhikavaraCyclePos", func() { su.AdhikavaraCyclePos() }},
				{"DeltaAdhikamasa", func() { su.DeltaAdhikamasa() }}, {"DeltaAdhikavara", func() { su.DeltaAdhikavara() }}, {"AsalhaPuja", func() { su.AsalhaPuja() }},
				{"String", func() { _ = su.String() }}, {"SuriyaValuesString", func() { su.SuriyaValuesString() }}, {"fmt", func() { fmt.Sprint(su, &su) }},
			} {
				r.EvS(q.n, " of a year")
				q.f()
				r.OK("receiver")
				if su != was {
					r.Fail("receiver", q.n, "%s changed the year it was asked of from %+v to %+v", q.n, was, su)
					su = was
				}
				r.State(q.n)
			}
		}
		r.Floor("answer-kept", 1500)
		r.Floor("receiver", 40000)
		r.Floor("operations", 20000)
		r.Floor("descriptors", 8)
		r.Floor("memory", 4)
		r.Floor("growth", 40)
	})
}
