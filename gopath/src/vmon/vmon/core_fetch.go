package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"vmon/rt"
)

// The moon service as the download script sees it: the script's own curl is sent
// here by way of http_proxy, whatever host it names.
type service struct {
	mu    sync.Mutex
	asked []asked
	l     net.Listener
	srv   *http.Server
	doc   func(year int) []byte // what is on record for a whole year
	spoil func(year int) string // "", "cut" or "gone"
	slow  time.Duration
	most  int // records a year has
}

type asked struct {
	at                      time.Time
	year                    int
	what                    string
	place, from, to         string
	limit                   string
	id, secret, method, raw string
	wrong                   string
}

func (s *service) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	at := time.Now()
	v := q.URL.Query()
	a := asked{at: at, raw: q.URL.String(), method: q.Method, place: q.URL.Path, from: v.Get("from"), to: v.Get("to"), limit: v.Get("limit"), id: v.Get("client_id"), secret: v.Get("client_secret")}
	day := func(t string) (time.Time, bool) {
		for _, f := range []string{"2006/01/02", "2006-01-02", "01/02/2006", "2006/1/2"} {
			if d, err := time.Parse(f, t); err == nil {
				return d, true
			}
		}
		return time.Time{}, false
	}
	from, ok := day(a.from)
	to, ok2 := day(a.to)
	var limit int
	fmt.Sscan(a.limit, &limit)
	a.year = from.Year()
	switch {
	case q.Method != "GET" && q.Method != "POST":
		a.wrong = "method " + q.Method
	case q.URL.Host != "api.aerisapi.com" && q.URL.Host != "api.aerisapi.com:80":
		a.wrong = "host " + q.URL.Host
	case q.URL.Path != "/sunmoon/moonphases/london,uk":
		a.wrong = "path " + q.URL.Path + ", not the phases of the moon at London"
	case !ok || !ok2:
		a.wrong = "dates " + a.from + " to " + a.to
	case from.Format("01-02") != "01-01" || to.Format("01-02") != "12-31" || to.Year() != from.Year():
		a.wrong = "from " + a.from + " to " + a.to + ", not the whole of a year"
	case limit < s.most || limit > 250:
		a.wrong = "limit " + a.limit
	case a.id != "the-id" || a.secret != "s3cret_Key":
		a.wrong = "credentials " + a.id + ", " + a.secret
	}
	s.mu.Lock()
	s.asked = append(s.asked, a)
	s.mu.Unlock()
	time.Sleep(s.slow)
	if a.wrong != "" {
		fmt.Fprintf(w, `{"success":false,"error":{"code":"refused","description":%q},"response":[]}`, a.wrong)
		return
	}
	b := s.doc(a.year)
	how := ""
	if s.spoil != nil {
		how = s.spoil(a.year)
	}
	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	switch how {
	case "cut", "gone":
		c, rw, err := w.(http.Hijacker).Hijack()
		if err == nil {
			if how == "cut" {
				fmt.Fprintf(rw, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(b)+10, b[:len(b)/2])
				rw.Flush()
			}
			c.Close()
		}
	default:
		w.Write(b)
	}
}

func init() {
	core("C35", "the script run with its own curl against a service of the monitor's, its clock (and the sleeping) ten times as fast: single years, long ranges, other directories and environments, slow answers, answers cut short, missing arguments; requests, their times and the files written against the service's records; distinct: (scenario, years, outcome)", func(r *rt.R) {
		script, err := filepath.Abs("utils/get-astromoons.sh")
		if err != nil {
			monitorError("%v", err)
		}
		if _, err := os.Stat(script); err != nil {
			monitorError("%v", err)
		}
		curl, err := exec.LookPath("curl")
		if err != nil {
			monitorError("%v", err)
		}
		_ = curl
		root, err := os.MkdirTemp("", "vmon-fetch-")
		if err != nil {
			monitorError("%v", err)
		}
		defer os.RemoveAll(root)
		shim := os.Getenv("VMON_FASTCLOCK")
		const speed = 10
		shipped := func(y int) []byte {
			b, err := os.ReadFile(fmt.Sprintf("data/astro/astro-%d.json", y))
			if err != nil {
				return []byte(fmt.Sprintf(`{"success":true,"error":{"code":"warn_no_data","description":"No data was returned for the request of %d."},"response":[]}`, y))
			}
			return b
		}
		most := 0
		for y := 1900; y <= 2040; y++ {
			if n := bytes.Count(shipped(y), []byte(`"timestamp"`)); n > most {
				most = n
			}
		}
		oddSeed := r.Rand.Int63()
		odd := func(y int) []byte {
			k := int(oddSeed%7) + y
			return []byte([]string{
				`{"success":true,"error":null,"response":[{"name":"new \"moon\" \\ \u0101 % * $HOME 'x'"}]}` + "\n\n\n",
				"{\r\n\t\"success\": true,\r\n\"error\": null, \"response\": []  }\r\n",
				`{"success":true,"error":null,"response":[` + strings.Repeat(`{"name":"ā`+"\t"+`\\n"},`, 6000) + `{}]}`,
				"-n {}", "\xef\xbb\xbf{}", "", "\\x41\n`echo`\n$(echo)\n",
			}[k%7])
		}
		type scenario struct {
			name     string
			from, to int
			doc      func(int) []byte
			spoil    func(int) string
			slow     time.Duration // of the script's time
			dir      string
			env      []string
			before   bool
			args     []string
			refused  bool
			direct   bool
		}
		year := func() int { return 1900 + r.Rand.Intn(141) }
		y1, y2, y3 := year(), year(), year()
		long := 1900 + r.Rand.Intn(110)
		scs := []scenario{
			{name: "one year", from: y1, to: y1},
			{name: "three years over older files", from: y2, to: y2 + 2, before: true},
			{name: "a range of three minutes", from: long, to: long + r.N(24, 60)},
			{name: "a range of exactly ten", from: y3, to: y3 + 9},
			{name: "a range of eleven", from: y3, to: y3 + 10, before: true},
			{name: "a range of twelve, slow answers", from: y1, to: y1 + 11, slow: 2 * time.Second},
			{name: "a range of twelve, very slow answers", from: y1, to: y1 + 11, slow: 7 * time.Second},
			{name: "odd answers", from: 1990, to: 1998, doc: odd, before: true},
			{name: "years without records", from: 1755, to: 1757},
			{name: "other environment", from: y2, to: y2 + 1, env: []string{"TZ=Pacific/Kiritimati", "LC_ALL=th_TH.UTF-8", "LANG=th_TH.UTF-8"}},
			{name: "a directory with an odd name", from: y2, to: y2 + 1, dir: "a b ' $c"},
			{name: "run by its name", from: y1, to: y1 + 1, direct: true},
			{name: "reversed", from: 2000, to: 1999},
		}
		for _, how := range []string{"gone", "cut"} {
			how := how
			bad := 2001 + r.Rand.Intn(3)
			scs = append(scs, scenario{name: "an answer " + how, from: 2000, to: 2005, before: r.Rand.Intn(2) == 0, spoil: func(y int) string {
				if y == bad {
					return how
				}
				return ""
			}})
		}
		id, secret := "CLIENT_ID=the-id", "CLIENT_SECRET=s3cret_Key"
		for _, f := range []scenario{
			{name: "no years", args: []string{}, env: []string{id, secret}},
			{name: "one year only", args: []string{"2000"}, env: []string{id, secret}},
			{name: "no identity", args: []string{"2000", "2001"}, env: []string{secret}},
			{name: "no secret", args: []string{"2000", "2001"}, env: []string{id}},
			{name: "empty secret", args: []string{"2000", "2001"}, env: []string{id, "CLIENT_SECRET="}},
			{name: "empty years", args: []string{"", ""}, env: []string{id, secret}},
		} {
			f.refused = true
			scs = append(scs, f)
		}
		for k := 0; k < r.N(0, 30); k++ {
			y := year()
			scs = append(scs, scenario{name: fmt.Sprint("range ", k), from: y, to: y + r.Rand.Intn(40), slow: time.Duration(r.Rand.Intn(9000)) * time.Millisecond, before: k%2 == 0})
		}
		var mu sync.Mutex
		perform := func(n int, c scenario, fast bool) {
			pace := 1
			if fast {
				pace = speed
			}
			s := &service{doc: shipped, spoil: c.spoil, slow: c.slow / time.Duration(pace), most: most}
			if c.doc != nil {
				s.doc = c.doc
			}
			var err error
			if s.l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
				monitorError("%v", err)
			}
			s.srv = &http.Server{Handler: s}
			go s.srv.Serve(s.l)
			defer s.srv.Close()
			name := c.dir
			if name == "" {
				name = "d"
			}
			dir := filepath.Join(root, fmt.Sprint(n, fast), name)
			if err := os.MkdirAll(dir, 0755); err != nil {
				monitorError("%v", err)
			}
			defer os.RemoveAll(filepath.Dir(dir))
			older := bytes.Repeat([]byte("older and longer\n"), 1000)
			if c.before {
				for y := c.from - 1; y <= c.to+1; y++ {
					if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("astro-%d.json", y)), older, 0644); err != nil {
						monitorError("%v", err)
					}
				}
			}
			args := c.args
			if args == nil {
				args = []string{fmt.Sprint(c.from), fmt.Sprint(c.to)}
			}
			ctx, cancel := context.WithTimeout(context.Background(), 700*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, "/bin/bash", append([]string{script}, args...)...)
			if c.direct {
				cmd = exec.CommandContext(ctx, script, args...)
			}
			cmd.Dir = dir
			proxy := "http://" + s.l.Addr().String()
			cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "http_proxy=" + proxy, "HTTP_PROXY=" + proxy}, c.env...)
			if !c.refused {
				cmd.Env = append(cmd.Env, id, secret)
			}
			if fast {
				cmd.Env = append(cmd.Env, "LD_PRELOAD="+shim, fmt.Sprint("VMON_SPEED=", speed), fmt.Sprint("VMON_SPEED_FROM=", time.Now().Unix()))
			}
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			cmd.WaitDelay = time.Second
			what := fmt.Sprintf("%s: get-astromoons.sh %s", c.name, strings.Join(args, " "))
			r.EvS("run ", what)
			err = cmd.Run()
			if ctx.Err() != nil {
				fmt.Fprintln(os.Stderr, "INCONCLUSIVE: no end of", what)
				os.Exit(3)
			}
			code := 0
			var x *exec.ExitError
			if errors.As(err, &x) {
				code = x.ExitCode()
			} else if err != nil {
				if c.direct {
					return // not possible for a file system without that permission
				}
				monitorError("%s: %v", what, err)
			}
			s.mu.Lock()
			got := append([]asked{}, s.asked...)
			s.mu.Unlock()
			text := out.String()
			mu.Lock()
			defer mu.Unlock()
			files := map[string][]byte{}
			entries, _ := os.ReadDir(dir)
			for _, e := range entries {
				b, err := os.ReadFile(filepath.Join(dir, e.Name()))
				if err != nil {
					monitorError("%v", err)
				}
				files[e.Name()] = b
			}
			r.State(c.name, len(got), code == 0, len(files))
			if r.Rand.Intn(4) == 0 {
				r.Sample("run", "%s: %d requests, exit %d", what, len(got), code)
			}
			if c.refused {
				r.OK("refusal")
				if code == 0 || len(got) > 0 || len(files) > 0 || !strings.Contains(text, "Usage") {
					r.Fail("refusal", c.name, "%s: exit %d, %d requests, %d files, output %q", what, code, len(got), len(files), shorten(text))
				}
				return
			}
			stop := c.to + 1 // the first year that does not arrive
			for y := c.from; y <= c.to && c.spoil != nil; y++ {
				if c.spoil(y) != "" {
					stop = y
					break
				}
			}
			// the requests
			last := min(stop, c.to)
			for i, a := range got {
				r.OK("request")
				if a.wrong != "" {
					r.Fail("request", a.wrong, "%s: request %d (%s) has %s", what, i, a.raw, a.wrong)
					return
				}
			}
			// an answer that fails may be asked for again
			var years []int
			for _, a := range got {
				if len(years) > 0 && years[len(years)-1] == a.year && a.year == stop {
					continue
				}
				years = append(years, a.year)
			}
			var want []int
			for y := c.from; y <= last; y++ {
				want = append(want, y)
			}
			if stop <= c.to && code != 0 {
				// nor is it said what becomes of the years after it
				for len(years) > len(want) && years[len(want)] > stop {
					years = years[:len(years)-1]
				}
			}
			r.OK("years")
			if fmt.Sprint(years) != fmt.Sprint(want) {
				r.Fail("years", c.name, "%s asked for the years %v, want %v", what, years, want)
				return
			}
			// their pace: no more than ten in fifty seconds, of sixty, to leave room for the way here
			var at []time.Time
			for _, a := range got {
				at = append(at, a.at)
			}
			sort.Slice(at, func(i, j int) bool { return at[i].Before(at[j]) })
			for i := 10; i < len(at); i++ {
				r.OK("pace")
				if gap := at[i].Sub(at[i-10]) * time.Duration(pace); gap < 50*time.Second {
					if fast {
						again = append(again, n)
					} else {
						r.Fail("pace", c.name, "%s: requests %d to %d, eleven, came within %v, the service allows ten a minute", what, i-10, i, gap)
					}
					return
				}
			}
			// the files
			for y := c.from; y < stop && y <= c.to; y++ {
				r.OK("file")
				name := fmt.Sprintf("astro-%d.json", y)
				b, ok := files[name]
				if !ok || !bytes.Equal(b, s.doc(y)) {
					r.Fail("file", c.name, "%s: %s (%v) holds %d bytes %q, the service answered %d bytes %q", what, name, ok, len(b), shorten(string(b)), len(s.doc(y)), shorten(string(s.doc(y))))
					return
				}
			}
			for name, b := range files {
				var y int
				fmt.Sscanf(name, "astro-%d.json", &y)
				mine := y >= c.from && y <= c.to && name == fmt.Sprintf("astro-%d.json", y)
				if !mine && !(c.before && bytes.Equal(b, older)) {
					r.Fail("other-file", name, "%s left %s (%d bytes)", what, name, len(b))
				}
			}
			r.OK("exit")
			if ok := stop > c.to; ok != (code == 0) {
				r.Fail("exit", c.name, "%s ended with exit code %d, the years to %d arrived: %q", what, code, stop-1, shorten(text))
			}
		}
		fast := shim != ""
		sem := make(chan struct{}, 8)
		all := func(list []int, fast bool) {
			var wg sync.WaitGroup
			for _, n := range list {
				n := n
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer func() { <-sem; wg.Done() }()
					perform(n, scs[n], fast)
				}()
			}
			wg.Wait()
		}
		var list []int
		for n, c := range scs {
			if !fast && c.to-c.from > 24 {
				continue
			}
			list = append(list, n)
		}
		all(list, fast)
		r.Notes["clock"] = map[bool]string{true: "ten times as fast", false: "real"}[fast]
		r.Notes["paces_looked_at_again_in_real_time"] = len(again)
		if len(again) > 3 {
			again = again[:3]
		}
		if len(again) > 0 && !r.Violated() {
			all(again, false)
		}
		r.Floor("request", 60)
		r.Floor("file", 60)
		r.Floor("pace", 18)
		r.Floor("refusal", 6)
	})
}

// runs that seemed too fast by the hastened clock; they are repeated by the real one
var again []int
