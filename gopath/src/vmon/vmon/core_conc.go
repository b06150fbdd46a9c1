package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vmon/rt"
)

type workerRun struct {
	code     int
	out, err string
	timedOut bool
	cpu      time.Duration
}

func init() { syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{}) }

func worker(bin, dir string, env []string, args ...string) workerRun {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Cancel = func() error { return c.Process.Signal(syscall.SIGQUIT) } // it tells where it is
	c.WaitDelay = 10 * time.Second
	c.Dir = dir
	c.Env = append(append([]string{}, env...), "GOTRACEBACK=crash") // of what runs, too
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	w := workerRun{0, o.String(), e.String(), ctx.Err() != nil, 0}
	if c.ProcessState != nil {
		w.cpu = c.ProcessState.UserTime()
	}
	if w.timedOut {
		w.err = "STUCK\n" + w.err
	}
	if err != nil {
		w.code = -1
		if x, ok := err.(*exec.ExitError); ok {
			w.code = x.ExitCode()
		} else {
			w.err += err.Error()
		}
	}
	return w
}

// lines reads "index<TAB>op<TAB>result" lines; ok tells whether the worker came to its end.
func (w workerRun) lines() (l [][3]string, overlap []string, ok bool) {
	for _, s := range strings.Split(w.out, "\n") {
		if s == "end" {
			ok = true
			continue
		}
		f := strings.SplitN(s, "\t", 3)
		if len(f) == 3 && f[0] == "overlap" {
			overlap = strings.Split(f[2], "\t")
			overlap = append([]string{f[1]}, overlap...)
		} else if len(f) == 3 {
			l = append(l, [3]string{f[0], f[1], f[2]})
		}
	}
	return
}

// libraryTrouble finds reports of crashes and stuck goroutines whose innermost
// frame that is not the runtime's or a standard one is the library's.
func libraryTrouble(text string) string {
	i := strings.Index(text, "fatal error:")
	j := strings.Index(text, "panic:")
	k := strings.Index(text, "STUCK")
	s := strings.Index(text, "SIGSEGV")
	at := -1
	for _, x := range []int{i, j, k, s} {
		if x >= 0 && (at < 0 || x < at) {
			at = x
		}
	}
	if at < 0 {
		return ""
	}
	text = text[at:]
	for _, g := range strings.Split(text, "\n\n") {
		if !strings.Contains(g, "goroutine ") {
			continue
		}
		if rt.InLibrary(g) {
			return text
		}
		if i >= 0 || j >= 0 {
			if strings.Contains(g, "[running") {
				break // the goroutine that crashed is not in the library
			}
		}
	}
	return ""
}

// decoyFiles writes files such as a program might look for beside it or at home:
// tables of years, settings, records of moons.
func decoyFiles(dir string) (l []string) {
	years := map[string]bool{}
	var lines, pairs []string
	var list []int
	for y := 600; y < 3000; y++ {
		years[fmt.Sprint(y)] = y%2 == 0
		lines = append(lines, fmt.Sprint(y))
		pairs = append(pairs, fmt.Sprintf("%d,true", y))
		list = append(list, y)
	}
	table, _ := json.Marshal(years)
	numbers, _ := json.Marshal(list)
	for _, f := range []struct{ name, text string }{
		{"years.json", string(table)}, {"list.json", string(numbers)}, {"years.txt", strings.Join(lines, "\n") + "\n"}, {"years.csv", strings.Join(pairs, "\n") + "\n"},
		{"one", "1\n"}, {"empty", ""}, {"true", "true"}, {"zone", "Asia/Bangkok"},
		{"settings.json", `{"exceptions":true,"useExceptions":true,"verbose":true,"useLocal":true,"local":true,"timezone":"Asia/Bangkok","location":"Asia/Bangkok","calendar":"dhammayut","offset":1,"days":1,"epoch":"2014-11-06"}`},
		{"moons.json", `{"success":true,"error":null,"response":[{"timestamp":1420405980,"dateTimeISO":"2015-01-04T21:13:00+00:00","code":2,"name":"full moon"}]}`},
	} {
		p := filepath.Join(dir, "decoy-"+f.name)
		if err := os.WriteFile(p, []byte(f.text), 0644); err != nil {
			monitorError("%v", err)
		}
		l = append(l, p)
	}
	return append(l, dir)
}

type raceReport struct{ text, key string }

// races reads the race detector's reports. Only reports with an access made
// inside the library count; others would be the harness's own.
func races(logs string) (lib, own []raceReport) {
	for _, block := range strings.Split(logs, "==================") {
		if !strings.Contains(block, "WARNING: DATA RACE") {
			continue
		}
		var frames []string
		in := false
		for _, part := range strings.Split(block, "\n\n") {
			head := strings.TrimSpace(strings.SplitN(strings.TrimPrefix(strings.TrimSpace(part), "WARNING: DATA RACE\n"), "\n", 2)[0])
			if !strings.Contains(head, " by goroutine") && !strings.Contains(head, " by main goroutine") {
				continue
			}
			for _, l := range strings.Split(part, "\n") {
				l = strings.TrimSpace(l)
				if strings.Contains(l, "splendidmoons/suriya-go.") {
					frames = append(frames, strings.SplitN(l, "(", 2)[0])
					in = true
					break
				}
				if strings.HasPrefix(l, "main.") {
					break
				}
			}
		}
		sort.Strings(frames)
		rep := raceReport{block, strings.Join(frames, " / ")}
		if in {
			lib = append(lib, rep)
		} else {
			own = append(own, rep)
		}
	}
	return
}

func baseEnv(extra ...string) []string {
	return append([]string{"PATH=/usr/bin:/bin", "TZ=UTC"}, extra...)
}

func monitorError(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "monitor error: "+f+"\n", a...)
	os.Exit(2)
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		monitorError("%v", err)
	}
	return p
}

func shorten(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

func init() {
	core("C17", "fresh processes built with the race detector, goroutines released at once on the same, shuffled or divided lists of calls, over all calls and over families of calls that share data, exceptions off and on, 1 to 8 processors; every result compared with the same call made in a process of its own, one after another; distinct: pairs of calls seen in flight together", func(r *rt.R) {
		bin := tool("VMON_RACE")
		dir, err := os.MkdirTemp("", "vmon-race-")
		if err != nil {
			monitorError("%v", err)
		}
		defer os.RemoveAll(dir)
		cwd, _ := os.Getwd()
		families := []string{"-", "file", "sharedfs,file", "year,predicates,sharedyear,deltas", "kattika,asalha,sharedyear", "day,degree,date", "lookup,yeartext", "kattika", "predicates", "day", "date"}
		if hasCalendar {
			families = append(families, "astro", "window", "generate,next", "texts,ical,halfmoons", "astro,file", "window,generate,kattika", "next", "texts,lookup", "astro,window,sharedfs", "generate,window,astro,next,halfmoons")
		}
		type job struct {
			args []string
			env  []string
		}
		var jobs []job
		n := r.N(260, 4000)
		for i := 0; i < n; i++ {
			fam := families[i%len(families)]
			if i%3 == 2 {
				fam = "-"
			}
			count, g := 24+r.Rand.Intn(60), []int{8, 16, 4, 2, 32}[i%5]
			if fam == "-" {
				count = 120
			}
			style := []string{"same", "shuffled", "same", "split"}[r.Rand.Intn(4)]
			exc := 0
			if r.Rand.Intn(4) == 0 {
				exc = 1
			}
			env := baseEnv("GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=10 history_size=3 log_path="+filepath.Join(dir, fmt.Sprintf("race-%d", i)), fmt.Sprintf("GOMAXPROCS=%d", []int{8, 4, 2, 8, 1, 16}[r.Rand.Intn(6)]), "GOTRACEBACK=all")
			jobs = append(jobs, job{[]string{"-mode", "race", fmt.Sprint(r.Rand.Int63n(1 << 40)), fmt.Sprint(count), fmt.Sprint(g), style, fmt.Sprint(exc), fam}, env})
		}
		// long lists over many different arguments, for what happens only when much has been asked
		long := []struct {
			fam   string
			count int
		}{{"kattika", 2000}, {"asalha,sharedyear", 1500}, {"year,predicates", 12000}, {"deltas,yeartext", 6000}, {"date,degree,lookup", 20000}, {"day", 12000}, {"file,sharedfs", 3000}}
		if hasCalendar {
			long = append(long, struct {
				fam   string
				count int
			}{"generate", 900}, struct {
				fam   string
				count int
			}{"next,texts,ical,halfmoons", 4000}, struct {
				fam   string
				count int
			}{"window,astro", 500})
		}
		for i := 0; i < r.N(1, 12)*len(long); i++ {
			l := long[i%len(long)]
			env := baseEnv("GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=10 history_size=5 log_path="+filepath.Join(dir, fmt.Sprintf("race-%d", len(jobs))), "GOTRACEBACK=all")
			jobs = append(jobs, job{[]string{"-mode", "race", fmt.Sprint(r.Rand.Int63n(1 << 40)), fmt.Sprint(l.count), "8", []string{"split", "shuffled"}[i/len(long)%2], fmt.Sprint(i / len(long) % 3 / 2), l.fam}, env})
		}
		// crowds: many hundreds at once, each with a few calls
		crowds := []string{"file,sharedfs", "kattika,asalha", "-"}
		if hasCalendar {
			crowds = []string{"window", "astro,file", "generate,next", "window,astro", "-"}
		}
		for i := 0; i < r.N(1, 10)*len(crowds); i++ {
			env := baseEnv("GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=10 history_size=3 log_path="+filepath.Join(dir, fmt.Sprintf("race-%d", len(jobs))), "GOTRACEBACK=all")
			jobs = append(jobs, job{[]string{"-mode", "race", fmt.Sprint(r.Rand.Int63n(1 << 40)), "4", fmt.Sprint(500 + r.Rand.Intn(400)), "shuffled", "0", crowds[i%len(crowds)]}, env})
		}
		sem := make(chan struct{}, max(2, runtime.NumCPU()/2))
		var wg sync.WaitGroup
		var mu sync.Mutex
		pairs := map[string]int{}
		calls, overlapping, most, detectorRuns := 0, 0, 0, 0
		var trouble []func()
		later := func(f func()) { mu.Lock(); trouble = append(trouble, f); mu.Unlock() }
		var stopped atomic.Bool // a run that is stuck takes long, one is enough
		for i, j := range jobs {
			wg.Add(1)
			sem <- struct{}{}
			go func(i int, j job) {
				defer func() { <-sem; wg.Done() }()
				if stopped.Load() {
					return
				}
				r.EvS("concurrent run ", strings.Join(j.args, " "))
				id := strings.Join(j.args[2:], " ")
				w := worker(bin, cwd, j.env, j.args...)
				logs := ""
				names, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("race-%d.*", i)))
				for _, n := range names {
					b, _ := os.ReadFile(n)
					logs += string(b)
					os.Remove(n)
				}
				lib, own := races(logs)
				for _, rep := range lib {
					rep := rep
					later(func() {
						r.Fail("data-race", rep.key, "run %s: data race between %s\n%s", id, rep.key, rep.text)
					})
				}
				if len(own) > 0 {
					monitorError("race in the harness: %s", own[0].text)
				}
				conc, overlap, ended := w.lines()
				if !ended {
					if t := libraryTrouble(w.err); t != "" {
						stopped.Store(true)
						later(func() {
							r.Fail("crash", id, "run %s (exit %d):\n%s", id, w.code, shorten(t))
						})
						return
					}
					if w.timedOut || w.code == 77 {
						later(func() {
							fmt.Printf("INCONCLUSIVE property=C17: run %s did not end\n%s\n", id, shorten(w.err))
							os.Exit(3)
						})
						return
					}
					if w.code == 0 || w.code == 1 { // the workers end with neither before their last line
						stopped.Store(true)
						later(func() {
							r.Fail("exit", id, "run %s: the library ended the process with code %d: %s", id, w.code, shorten(w.err))
						})
						return
					}
					monitorError("run %s: exit %d %s", id, w.code, shorten(w.err))
				}
				r.OK("race-run")
				// the same calls alone
				seq := worker(self(), cwd, baseEnv(), "-mode", "ops", j.args[2], j.args[3], "0", "1", j.args[6], j.args[7])
				alone, _, ok := seq.lines()
				if !ok {
					if t := libraryTrouble(seq.err); t != "" {
						later(func() { r.Fail("crash-alone", id, "calls %s made alone: %s", id, shorten(t)) })
						return
					}
					monitorError("calls %s alone: exit %d %s", id, seq.code, shorten(seq.err))
				}
				want := map[string]string{}
				for _, l := range alone {
					want[l[0]] = l[2]
				}
				for _, l := range conc {
					l := l
					r.OK("result")
					if strings.HasPrefix(l[2], "PANIC") {
						later(func() { r.Fail("panic", l[1], "%s panicked in run %s: %s", l[1], id, shorten(l[2])) })
					} else if want[l[0]] != l[2] {
						later(func() {
							r.Fail("result", l[1], "%s gives, in run %s,\n%s\nand alone\n%s", l[1], id, shorten(l[2]), shorten(want[l[0]]))
						})
					}
				}
				mu.Lock()
				defer mu.Unlock()
				detectorRuns++
				if len(overlap) == 4 {
					a, _ := strconv.Atoi(overlap[0])
					b, _ := strconv.Atoi(overlap[1])
					m, _ := strconv.Atoi(overlap[2])
					calls, overlapping = calls+a, overlapping+b
					if m > most {
						most = m
					}
					for _, p := range strings.Split(overlap[3], ",") {
						if p != "" {
							pairs[p]++
						}
					}
				}
			}(i, j)
		}
		wg.Wait()
		for _, f := range trouble {
			f()
		}
		for p := range pairs {
			r.State(p)
		}
		r.Notes["concurrent_calls"] = calls
		r.Notes["calls_begun_while_another_was_in_flight"] = overlapping
		r.Notes["most_calls_in_flight"] = most
		r.Notes["pairs_of_calls_in_flight_together"] = len(pairs)
		r.Notes["race_detector_runs"] = detectorRuns
		r.Sample("run", "%s", strings.Join(jobs[0].args, " "))
		r.Sample("run", "%s", strings.Join(jobs[len(jobs)-1].args, " "))
		if !r.Violated() && (overlapping < 500 || len(pairs) < 20) {
			fmt.Printf("INCONCLUSIVE property=C17: %d overlapping calls, %d pairs\n", overlapping, len(pairs))
			os.Exit(3)
		}
		r.Floor("race-run", int64(n))
	})

	core("C23", "lists of calls performed in a fresh process are performed again in processes with other time zones, locales, working directories, garbage collector and scheduler settings, in other orders, repeated, each as the first call of its process, and by builds for 32-bit x86 and for processors with fused multiply-add; every result compared; distinct: (environment, kind of call)", environment)
}

func environment(r *rt.R) {
	cwd, _ := os.Getwd()
	tmp, err := os.MkdirTemp("", "vmon-env-")
	if err != nil {
		monitorError("%v", err)
	}
	defer os.RemoveAll(tmp)
	perform := func(bin, dir string, env []string, args ...string) (map[string][]string, map[string]string, workerRun, bool) {
		r.EvS("process ", strings.Join(env, " ")+" in "+dir+": "+filepath.Base(bin)+" "+strings.Join(args, " "))
		w := worker(bin, dir, env, append([]string{"-mode", "ops"}, args...)...)
		l, _, ok := w.lines()
		res, ops := map[string][]string{}, map[string]string{}
		for _, x := range l {
			res[x[0]] = append(res[x[0]], x[2])
			ops[x[0]] = x[1]
		}
		return res, ops, w, ok
	}
	bad := func(name string, w workerRun) {
		if t := libraryTrouble(w.err); t != "" {
			r.Fail("crash", name, "%s: %s", name, shorten(t))
			return
		}
		if w.code == 0 || w.code == 1 {
			r.Fail("exit", name, "%s: the library ended the process with code %d: %s", name, w.code, shorten(w.err))
			return
		}
		monitorError("%s: exit %d %s", name, w.code, shorten(w.err))
	}
	type variant struct {
		name   string
		bin    string
		dir    string
		env    []string
		order  int64
		rep    int
		approx bool
	}
	me := self()
	// directories that look like the library's own
	decoys := map[string]string{}
	for _, n := range []string{"empty data", "other data"} {
		d := filepath.Join(tmp, strings.Replace(n, " ", "-", 1))
		for _, s := range []string{"data/astro", "astro"} {
			if err := os.MkdirAll(filepath.Join(d, s), 0755); err != nil {
				monitorError("%v", err)
			}
			for y := 1890; y < 2050 && n == "other data"; y++ {
				b := `{"success":true,"error":null,"response":[{"timestamp":1,"dateTimeISO":"` + fmt.Sprint(y) + `-06-15T12:00:00+00:00","code":2,"name":"full moon"}]}`
				if err := os.WriteFile(filepath.Join(d, s, fmt.Sprintf("astro-%d.json", y)), []byte(b), 0644); err != nil {
					monitorError("%v", err)
				}
			}
		}
		decoys[n] = d
	}
	base := []string{"PATH=/usr/bin:/bin"}
	files := decoyFiles(tmp)
	rounds := r.N(4, 25)
	skipped := map[string]string{}
	for round := 0; round < rounds; round++ {
		seed := fmt.Sprint(r.Rand.Int63n(1 << 40))
		count := r.N(4000, 12000)
		exc := "0"
		if round%3 == 2 {
			exc = "1"
		}
		ref, ops, w, ok := perform(me, cwd, append(base, "TZ=UTC"), seed, fmt.Sprint(count), "0", "1", exc, "-", "0", fmt.Sprint(count))
		if !ok {
			bad("reference", w)
			return
		}
		var vs []variant
		add := func(v variant) {
			if v.bin == "" {
				v.bin = me
			}
			if v.dir == "" {
				v.dir = cwd
			}
			if v.rep == 0 {
				v.rep = 1
			}
			vs = append(vs, v)
		}
		for _, z := range []string{"America/New_York", "Pacific/Kiritimati", "Asia/Bangkok", "Australia/Lord_Howe", "Europe/London", "nonsense/zone", "", ":/etc/localtime", "XXX-25"} {
			add(variant{name: "TZ=" + z, env: append(base, "TZ="+z)})
		}
		add(variant{name: "no TZ", env: base})
		add(variant{name: "empty environment", env: []string{}})
		for _, l := range []string{"th_TH.UTF-8", "tr_TR.UTF-8", "C", "ar_SA.UTF-8"} {
			add(variant{name: "locale " + l, env: append(base, "LC_ALL="+l, "LANG="+l, "LC_TIME="+l, "LANGUAGE="+l)})
		}
		add(variant{name: "another directory", dir: tmp, env: append(base, "PWD="+tmp, "HOME="+tmp)})
		add(variant{name: "root directory", dir: "/", env: base})
		for n, d := range decoys {
			add(variant{name: "directory with " + n, dir: d, env: base})
		}
		add(variant{name: "GOGC=1", env: append(base, "GOGC=1")})
		add(variant{name: "GOGC=off", env: append(base, "GOGC=off")})
		add(variant{name: "one processor", env: append(base, "GOMAXPROCS=1")})
		add(variant{name: "many processors", env: append(base, "GOMAXPROCS=32")})
		add(variant{name: "verbose variables", env: append(base, "VERBOSE=1", "verbose=1", "DEBUG=1", "USE_LOCAL=1", "useLocal=1")})
		for k := 0; k < r.N(5, 12); k++ {
			add(variant{name: "another order", env: base, order: 1 + r.Rand.Int63n(1<<40)})
		}
		add(variant{name: "repeated three times", env: base, rep: 3})
		add(variant{name: "repeated in another order, another zone", env: append(base, "TZ=America/New_York"), rep: 2, order: 99})
		for _, b := range []string{"386", "v3"} {
			if bin := os.Getenv("VMON_BUILD_" + b); bin != "" {
				add(variant{name: "build " + b, bin: bin, env: base, approx: true})
				add(variant{name: "build " + b + ", another zone and order", bin: bin, env: append(base, "TZ=Asia/Tokyo"), order: 7, approx: true})
			} else {
				skipped["build "+b] = "not built"
			}
		}
		if bin := os.Getenv("VMON_BUILD_noopt"); bin != "" {
			add(variant{name: "build without optimisation", bin: bin, env: base})
		}
		if bin := os.Getenv("VMON_BUILD_clock"); bin != "" {
			for _, at := range []int64{0, 1451606399, 951782400, -2000000000, 7258118400, 1420070400 + r.Rand.Int63n(400000000)} {
				add(variant{name: "clock at " + time.Unix(at, 0).UTC().Format(time.RFC3339), bin: bin, env: append(base, fmt.Sprint("VMON_CLOCK=", at))})
			}
			for _, value := range []string{"1", "true", "0", "th_TH.UTF-8", "debug", "Asia/Bangkok", fmt.Sprint(1 + r.Rand.Intn(3000)), tmp} {
				add(variant{name: "every environment variable set to " + value, bin: bin, env: append(base, "VMON_ENVALL="+value)})
			}
			for _, f := range files {
				add(variant{name: "every missing file as " + filepath.Base(f), bin: bin, env: append(base, "VMON_DECOY="+f)})
				add(variant{name: "every environment variable naming " + filepath.Base(f), bin: bin, env: append(base, "VMON_ENVALL="+f)})
			}
		} else {
			skipped["build clock"] = "not built"
		}
		for _, b := range []string{"1.23", "1.24", "1.25", "1.26"} {
			if bin := os.Getenv("VMON_BUILD_go" + b); bin != "" {
				add(variant{name: "built by Go " + b, bin: bin, env: base})
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan struct{}, max(2, runtime.NumCPU()))
		for _, v := range vs {
			v := v
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				res, _, w, ok := perform(v.bin, v.dir, v.env, seed, fmt.Sprint(count), fmt.Sprint(v.order), fmt.Sprint(v.rep), exc, "-", "0", fmt.Sprint(count))
				mu.Lock()
				defer mu.Unlock()
				if !ok {
					if v.approx && libraryTrouble(w.err) == "" {
						// this machine may not run such builds
						skipped[v.name] = shorten(fmt.Sprintf("exit %d %s", w.code, w.err))
						return
					}
					bad(v.name, w)
					return
				}
				compare(r, v.name, ops, ref, res, v.approx)
			}()
		}
		wg.Wait()
		// each of some calls as the first of its process
		n := r.N(60, 200)
		var edge []int // calls that ask about nought or next to it, which is how forgotten variables start
		for i := 0; i < count; i++ {
			if o := ops[fmt.Sprint(i)]; strings.HasPrefix(o, "date(") || strings.HasPrefix(o, "degree(") {
				var a int64
				if _, err := fmt.Sscanf(o[strings.Index(o, "(")+1:], "%d", &a); err == nil && a >= -3 && a <= 3 {
					edge = append(edge, i)
				}
			}
		}
		for k := 0; k < n; k++ {
			i := r.Rand.Intn(count)
			if k%3 == 0 && len(edge) > 0 {
				i = edge[r.Rand.Intn(len(edge))]
			}
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				res, _, w, ok := perform(me, cwd, base, seed, fmt.Sprint(count), "0", "1", exc, "-", fmt.Sprint(i), fmt.Sprint(i+1))
				mu.Lock()
				defer mu.Unlock()
				if !ok {
					bad("first call "+ops[fmt.Sprint(i)], w)
					return
				}
				compare(r, "first call of its process", ops, map[string][]string{fmt.Sprint(i): ref[fmt.Sprint(i)]}, res, false)
			}()
		}
		wg.Wait()
		if round == 0 {
			for k := 0; k < 2; k++ {
				i := fmt.Sprint(k * 17)
				r.Sample("call", "%s in %d environments: %s", ops[i], len(vs), shorten(ref[i][0]))
			}
		}
	}
	r.Notes["skipped_builds"] = skipped
	r.Floor("same", 100000)
}

// compare decides whether two processes gave the same results.
func compare(r *rt.R, name string, ops map[string]string, ref, res map[string][]string, approx bool) {
	for i, want := range ref {
		kind := strings.SplitN(ops[i], "(", 2)[0]
		got := res[i]
		r.OK("same")
		if len(got) == 0 {
			monitorError("%s: no result of %s", name, ops[i])
		}
		for _, g := range got {
			if g == want[0] || approx && near(g, want[0]) {
				continue
			}
			r.Fail("differs-"+kind, ops[i]+" "+name, "%s: %s gives\n%s\nin the reference process\n%s", name, ops[i], shorten(g), shorten(want[0]))
		}
		r.State(name, kind)
	}
}

// near allows builds that round intermediate results differently a last step
// of a 4-decimal position (or of a whole arcminute where one is taken).
func near(a, b string) bool {
	fa, fb := strings.Fields(a), strings.Fields(b)
	if len(fa) != len(fb) {
		return false
	}
	for i := range fa {
		if fa[i] == fb[i] {
			continue
		}
		if !strings.Contains(fa[i]+fb[i], ".") {
			return false
		}
		x, e1 := strconv.ParseFloat(strings.Trim(fa[i], "[]"), 64)
		y, e2 := strconv.ParseFloat(strings.Trim(fb[i], "[]"), 64)
		if e1 != nil || e2 != nil || math.Abs(circ(x, y)) > 0.0168 {
			return false
		}
	}
	return true
}
