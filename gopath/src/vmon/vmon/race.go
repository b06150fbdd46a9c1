package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
)

type done struct {
	op         int
	start, end int64
	v          interface{}
}

// progress counters, kept out of the race detector's sight on purpose: a
// synchronised counter would order the goroutines and hide races.
var progress [1024 * 16]int64

//go:norace
func bump(g int) { progress[g*16]++ }

//go:norace
func total() (n int64) {
	for i := range progress {
		n += progress[i]
	}
	return
}

// raceWorker: -mode race SEED COUNT GOROUTINES STYLE EXCEPTIONS ONLY
// performs the ops in many goroutines released at once. Style "same": every
// goroutine performs all of them in the same order; "shuffled": each in its own
// order; "split": each a part. Prints every distinct result of each op.
func raceWorker(args []string) {
	var seed int64
	var n, g, exc int
	fmt.Sscan(args[0]+" "+args[1]+" "+args[2]+" "+args[4], &seed, &n, &g, &exc)
	style, only := args[3], strings.Trim(args[5], "-")
	suriya.UseExceptions = exc != 0
	ops := genOps(seed, n, only)
	prepareShared()
	results := make([][]done, g)
	release := make(chan struct{})
	var ready, finished sync.WaitGroup
	t0 := time.Now()
	for i := 0; i < g; i++ {
		order := make([]int, 0, n)
		for k := range ops {
			if style != "split" || k%g == i {
				order = append(order, k)
			}
		}
		rd := rand.New(rand.NewSource(seed + int64(i)*7919))
		if style == "shuffled" {
			rd.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		}
		ready.Add(1)
		finished.Add(1)
		results[i] = make([]done, 0, len(order))
		go func(i int) {
			defer finished.Done()
			ready.Done()
			<-release
			for j, k := range order {
				s := time.Since(t0)
				v := runOp(ops[k])
				results[i] = append(results[i], done{k, int64(s), int64(time.Since(t0)), v})
				bump(i)
				if style == "shuffled" && j%5 == int(seed)%5 {
					runtime.Gosched()
				}
			}
		}(i)
	}
	ready.Wait()
	go stuck()
	close(release)
	finished.Wait()
	report(ops, results)
}

func stuck() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		if n := total(); n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > 60*time.Second {
			buf := make([]byte, 1<<20)
			fmt.Fprintf(os.Stderr, "STUCK\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(77)
		}
	}
}

func report(ops []op, results [][]done) {
	seen := map[string]bool{}
	type edge struct {
		at    int64
		kind  string
		enter bool
	}
	var edges []edge
	for _, l := range results {
		for _, d := range l {
			s := fmt.Sprintf("%d\t%s\t%s\n", d.op, ops[d.op], opText(ops[d.op], d.v))
			if !seen[s] {
				seen[s] = true
				fmt.Print(s)
			}
			edges = append(edges, edge{d.start, ops[d.op].kind, true}, edge{d.end, ops[d.op].kind, false})
		}
	}
	sort.Slice(edges, func(i, j int) bool { return edges[i].at < edges[j].at })
	active := map[string]int{}
	pairs := map[string]int{}
	inflight, most, overlapping := 0, 0, 0
	for _, e := range edges {
		if !e.enter {
			active[e.kind]--
			inflight--
			continue
		}
		if inflight > 0 {
			overlapping++
		}
		for k, c := range active {
			if c > 0 {
				a, b := k, e.kind
				if a > b {
					a, b = b, a
				}
				pairs[a+"+"+b]++
			}
		}
		active[e.kind]++
		inflight++
		if inflight > most {
			most = inflight
		}
	}
	var l []string
	for p := range pairs {
		l = append(l, p)
	}
	sort.Strings(l)
	fmt.Printf("overlap\t%d\t%d\t%d\t%s\n", len(edges)/2, overlapping, most, strings.Join(l, ","))
	fmt.Println("end")
}
