package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"mime"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/rt"
)

// answer is what is kept of an HTTP response.
type answer struct {
	code  int
	head  http.Header
	body  []byte
	parts []string
}

func ask(h http.Handler, method, target string, head map[string]string) (a answer, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	q := httptest.NewRequest(method, target, nil)
	for k, v := range head {
		q.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, q)
	res := w.Result()
	a = answer{code: res.StatusCode, head: res.Header, body: w.Body.Bytes()}
	return a, a.split()
}

// split reads the parts of a response with several ranges.
func (a *answer) split() error {
	kind, p, err := mime.ParseMediaType(a.head.Get("Content-Type"))
	if err != nil || kind != "multipart/byteranges" || len(a.body) == 0 {
		return nil
	}
	m := multipart.NewReader(bytes.NewReader(a.body), p["boundary"])
	for {
		part, err := m.NextPart()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		b, err := io.ReadAll(part)
		if err != nil {
			return err
		}
		a.parts = append(a.parts, part.Header.Get("Content-Range")+" "+part.Header.Get("Content-Type")+" "+string(b))
	}
}

// same decides whether an answer is that of a server of the shipped files
// themselves. Dates and tags may differ.
func (a answer) same(b answer) string {
	if a.code != b.code {
		return fmt.Sprintf("status %d, want %d", a.code, b.code)
	}
	if len(a.parts) > 0 || len(b.parts) > 0 {
		if strings.Join(a.parts, "\n") != strings.Join(b.parts, "\n") {
			return fmt.Sprintf("%d parts other than the %d wanted", len(a.parts), len(b.parts))
		}
		return ""
	}
	for _, k := range []string{"Content-Type", "Content-Length", "Content-Range", "Accept-Ranges", "Location"} {
		if a.head.Get(k) != b.head.Get(k) {
			return fmt.Sprintf("%s %q, want %q", k, a.head.Get(k), b.head.Get(k))
		}
	}
	if !bytes.Equal(a.body, b.body) {
		return fmt.Sprintf("a body of %d bytes, want other %d bytes", len(a.body), len(b.body))
	}
	return ""
}

func rangeHeader(rd *rand.Rand, size int) string {
	one := func() string {
		a := rd.Intn(size + 20)
		b := a + rd.Intn(size)
		switch rd.Intn(6) {
		case 0:
			return fmt.Sprintf("%d-", a)
		case 1:
			return fmt.Sprintf("-%d", rd.Intn(size+20))
		case 2:
			return fmt.Sprintf("%d-%d", b, a)
		case 3:
			return fmt.Sprintf("0-%d", rd.Intn(size))
		}
		return fmt.Sprintf("%d-%d", a, b)
	}
	switch rd.Intn(8) {
	case 0:
		return "bytes=" + one() + "," + one()
	case 1:
		return "bytes=" + one() + ", " + one() + "," + one()
	case 2:
		return []string{"bytes=", "bytes=x-y", "bits=0-1", "bytes=0-0", "bytes=-0", "bytes=0-", "bytes 0-1", "bytes=--1"}[rd.Intn(8)]
	}
	return "bytes=" + one()
}

func init() {
	core("C31", "file servers over the embedded and the local files (whole, below two prefixes, stripped prefixes), asked for every shipped file whole, by header only, by one and several ranges, conditionally, by other methods, and for names that do not exist; each answer compared with that of a server over the repository's data directory; many clients at once over the loopback network; the reader contract of every opened file checked by testing/iotest; distinct: (server, method, class of condition, status)", httpMonitor)
	core("C33", "random documents of the moon service (successes, warnings and errors; up to hundreds of records; unknown fields, other field orders and letter cases, escapes, instants in any zone) and all shipped files, decoded and compared with an independent reading; encoding and decoding again; distinct: (kind of document, records, phase codes)", aerisMonitor)
}

func httpMonitor(r *rt.R) {
	files := shipped()
	names := sortedNames(files)
	if len(names) == 0 {
		monitorError("no shipped files in the working directory")
	}
	ref := http.FileServer(http.Dir("."))
	// a file may first be asked for under another spelling of its path
	for _, n := range names {
		if r.Rand.Intn(3) == 0 {
			sp := spellings(n)
			s := sp[r.Rand.Intn(len(sp))]
			r.EvS("first access ", s)
			if f, err := suriya.FS(false).Open(s); err != nil {
				r.Fail("open", n, "open %s: %v", s, err)
			} else {
				st, err := f.Stat()
				r.OK("stat")
				if err != nil || st.Name() != path.Base(n) {
					r.Fail("stat", n, "%s opened as %s tells of itself: %v, error %v", n, s, statText(st), err)
				}
				f.Close()
			}
		}
	}
	// what was told of files at the beginning holds at the end as well
	type told struct {
		s    int
		n    string
		date string
	}
	began := time.Now()
	var earlier []told
	var later []func()
	type server struct {
		name   string
		prefix string // of the shipped name that is taken away
		h      http.Handler
	}
	servers := []server{
		{"FS", "", http.FileServer(suriya.FS(false))},
		{"Dir(/data)", "/data", http.FileServer(suriya.Dir(false, "/data"))},
		{"Dir(/data/astro)", "/data/astro", http.FileServer(suriya.Dir(false, "/data/astro"))},
		{"StripPrefix FS", "x", http.StripPrefix("/x", http.FileServer(suriya.FS(false)))},
		{"local FS", "", http.FileServer(suriya.FS(true))},
		{"local Dir(/data)", "/data", http.FileServer(suriya.Dir(true, "/data"))},
		{"local Dir(/data/astro)", "/data/astro", http.FileServer(suriya.Dir(true, "/data/astro"))},
	}
	target := func(s server, n string) string {
		if s.prefix == "x" {
			return "/x" + n
		}
		return strings.TrimPrefix(n, s.prefix)
	}
	for _, i := range r.Rand.Perm(len(names) * len(servers)) {
		n, s := names[i/len(servers)], servers[i%len(servers)]
		size := len(files[n])
		for k := 0; k < r.N(14, 120); k++ {
			method, class, head := "GET", "plain", map[string]string{}
			switch {
			case k == 0:
			case k == 1:
				method = "HEAD"
			case k == 2:
				method = []string{"POST", "OPTIONS", "PUT", "DELETE"}[r.Rand.Intn(4)]
			case k < 11:
				class = "range"
				head["Range"] = rangeHeader(r.Rand, size)
				if r.Rand.Intn(6) == 0 {
					method = "HEAD"
				}
			case k == 11:
				class = "gzip"
				head["Accept-Encoding"] = "gzip, deflate"
			case k == 12:
				class = "modified since long ago"
				head["If-Modified-Since"] = "Mon, 06 Jan 1902 15:04:05 GMT"
			default:
				class = "range"
				head["Range"] = rangeHeader(r.Rand, size)
			}
			id := fmt.Sprintf("%s %s by %s %v", method, target(s, n), s.name, head)
			r.EvS("http ", id)
			got, err := ask(s.h, method, target(s, n), head)
			if err != nil {
				r.Fail("http", id, "%s: %v", id, err)
				continue
			}
			want, err := ask(ref, method, n, head)
			if err != nil {
				monitorError("reference server: %v", err)
			}
			r.OK("http")
			if d := got.same(want); d != "" {
				r.Fail("http", id, "%s: %s", id, d)
			}
			r.State(s.name, method, class, got.code, len(got.parts))
			if k == 0 {
				// what a browser does next: ask whether its copy is still good
				if t := got.head.Get("Last-Modified"); t != "" {
					earlier = append(earlier, told{i % len(servers), n, t})
					again, err := ask(s.h, "GET", target(s, n), map[string]string{"If-Modified-Since": t})
					r.OK("http-conditional")
					if err != nil || again.code != 304 || len(again.body) != 0 {
						r.Fail("http-conditional", id, "%s: asked again whether modified since %s: status %d, %d bytes, %v", id, t, again.code, len(again.body), err)
					}
					part, err := ask(s.h, "GET", target(s, n), map[string]string{"If-Range": t, "Range": "bytes=1-5"})
					r.OK("http-conditional")
					if err != nil || part.code != 206 || string(part.body) != string(files[n][1:6]) {
						r.Fail("http-conditional", id, "%s: a range of the copy of %s: status %d, %q, %v", id, t, part.code, part.body, err)
					}
				}
			}
		}
		// what is not there
		for _, bad := range []string{n + "x", n + "/x", path.Dir(n) + "/astro-99999.json", "/missing", "/data2/x"} {
			if s.prefix != "" && s.prefix != "x" && !strings.HasPrefix(bad, s.prefix) {
				continue
			}
			t := target(s, bad)
			if !strings.HasPrefix(t, "/") {
				continue
			}
			r.EvS("http missing ", s.name+" "+t)
			got, err := ask(s.h, "GET", t, nil)
			r.OK("http-missing")
			if err != nil || got.code != 404 {
				r.Fail("http-missing", s.name+" "+t, "GET %s by %s: status %d, %v", t, s.name, got.code, err)
			}
		}
	}
	// the contract of readers, and what a file tells of itself
	for _, n := range names {
		for k, fs := range []http.FileSystem{suriya.FS(false), suriya.Dir(false, "/data"), suriya.FS(true)} {
			n, k, fs := n, k, fs
			o := n
			if k == 1 {
				o = strings.TrimPrefix(n, "/data")
			}
			r.EvS("open ", o)
			f, err := fs.Open(o)
			if err != nil {
				r.Fail("open", n, "open %s: %v", o, err)
				continue
			}
			r.OK("reader-contract")
			if err := iotest.TestReader(f, files[n]); err != nil {
				r.Fail("reader-contract", n, "%s by file system %d: %v", o, k, err)
			}
			st, err := f.Stat()
			r.OK("stat")
			if err != nil || st.Name() != path.Base(n) || st.Size() != int64(len(files[n])) || st.IsDir() || st.Mode()&os.ModeType != 0 {
				r.Fail("stat", n, "%s by file system %d tells of itself: %v, error %v", o, k, statText(st), err)
			}
			if err == nil {
				g, err := fs.Open(o)
				if err == nil {
					st2, err := g.Stat()
					if err != nil || statText(st) != statText(st2) {
						r.Fail("stat", n, "%s tells of itself first %s, then %s", o, statText(st), statText(st2))
					}
					g.Close()
				}
			}
			f.Close()
			later = append(later, func() {
				g, err := fs.Open(o)
				if err != nil {
					r.Fail("stat", n, "open %s again: %v", o, err)
					return
				}
				defer g.Close()
				st2, err := g.Stat()
				r.OK("stat")
				if err != nil || statText(st) != statText(st2) {
					r.Fail("stat", n, "%s tells of itself first %s, and later %s, %v", o, statText(st), statText(st2), err)
				}
			})
		}
	}
	for _, d := range []string{"/", "/data", "/data/astro"} {
		for k, fs := range []http.FileSystem{suriya.FS(false), suriya.FS(true)} {
			r.EvS("open directory ", d)
			f, err := fs.Open(d)
			if err != nil {
				continue // the local files have no entry for some
			}
			st, err := f.Stat()
			r.OK("stat-directory")
			if err != nil || !st.IsDir() {
				r.Fail("stat-directory", d, "directory %s by file system %d: %v, %v", d, k, statText(st), err)
			}
			f.Close()
		}
	}
	overNetwork(r, names, files)
	time.Sleep(time.Until(began.Add(2500 * time.Millisecond)))
	for _, e := range earlier {
		s := servers[e.s]
		id := "GET " + target(s, e.n) + " by " + s.name
		r.EvS("http again ", id)
		again, err := ask(s.h, "GET", target(s, e.n), map[string]string{"If-Modified-Since": e.date})
		r.OK("http-conditional")
		if err != nil || again.code != 304 || len(again.body) != 0 {
			r.Fail("http-conditional", id, "%s: asked later whether modified since %s: status %d, %d bytes, %v", id, e.date, again.code, len(again.body), err)
		}
	}
	for _, f := range later {
		f()
	}
	r.Sample("request", "%d files by %d servers, %d requests each", len(names), len(servers), r.N(14, 120))
	r.Floor("http", 10000)
	r.Floor("http-conditional", 500)
	r.Floor("reader-contract", 400)
	r.Floor("network", 300)
}

func statText(st os.FileInfo) string {
	if st == nil {
		return "nothing"
	}
	return fmt.Sprintf("%s, %d bytes, mode %v, of %s, directory %v", st.Name(), st.Size(), st.Mode(), st.ModTime().UTC().Format(time.RFC3339Nano), st.IsDir())
}

// overNetwork lets clients fetch files at the same time through a real server.
func overNetwork(r *rt.R, names []string, files map[string][]byte) {
	srv := httptest.NewServer(http.FileServer(suriya.FS(false)))
	defer srv.Close()
	var wg sync.WaitGroup
	clients := 12
	r.EvS("network ", "clients begin")
	for c := 0; c < clients; c++ {
		rd := rand.New(rand.NewSource(r.Rand.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := srv.Client()
			for i := 0; i < r.N(50, 1000); i++ {
				n := names[rd.Intn(len(names))]
				if i%3 == 0 {
					n = names[i%len(names)] // the same as the others
				}
				q, _ := http.NewRequest("GET", srv.URL+n, nil)
				want, code := files[n], 200
				if i%4 == 1 {
					a := rd.Intn(len(want))
					b := a + rd.Intn(len(want)-a)
					q.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", a, b))
					want, code = want[a:b+1], 206
				}
				res, err := cl.Do(q)
				if err != nil {
					r.Fail("network", n, "%s over the network: %v", n, err)
					return
				}
				b, err := io.ReadAll(res.Body)
				res.Body.Close()
				r.EvS("network ", n)
				r.OK("network")
				if err != nil || res.StatusCode != code || !bytes.Equal(b, want) {
					r.Fail("network", n, "%s over the network: status %d, %d bytes, want %d and %d, %v", n, res.StatusCode, len(b), code, len(want), err)
				}
			}
		}()
	}
	wg.Wait()
}

// rawMoon is a record of the service as read without the library.
type rawMoon struct {
	Timestamp   int64
	DateTimeISO string
	Code        int
	Name        string
}

func aerisMonitor(r *rt.R) {
	codes := []string{"new moon", "first quarter", "full moon", "last quarter"}
	decide := func(id, doc string, success bool, code, desc string, moons []rawMoon, indent bool) {
		r.EvS("decode ", id)
		var got suriya.AerisResp
		r.OK("decode")
		if err := json.Unmarshal([]byte(doc), &got); err != nil {
			r.Fail("decode", id, "%s: %v\n%.300s", id, err, doc)
			return
		}
		if got.Success != success || got.Error.Code != code || got.Error.Description != desc || len(got.Response) != len(moons) {
			r.Fail("decode", id, "%s: success %v, error %q %q, %d records; want %v %q %q %d\n%.300s", id, got.Success, got.Error.Code, got.Error.Description, len(got.Response), success, code, desc, len(moons), doc)
			return
		}
		same := func(where string, l []suriya.AerisMoon) {
			for i, m := range moons {
				t, err := time.Parse(time.RFC3339, m.DateTimeISO)
				if err != nil {
					monitorError("%v", err)
				}
				r.OK("record")
				if int64(l[i].Timestamp) != m.Timestamp || !l[i].DateTimeISO.Equal(t) || l[i].Code != m.Code || l[i].Name != m.Name {
					r.Fail("record", id, "%s%s: record %d is %+v, want %+v", id, where, i, l[i], m)
					return
				}
			}
		}
		same("", got.Response)
		// written out and read again
		b, err := json.Marshal(got)
		var again suriya.AerisResp
		if err == nil {
			err = json.Unmarshal(b, &again)
		}
		r.OK("again")
		if err != nil || again.Success != success || again.Error != got.Error || len(again.Response) != len(moons) {
			r.Fail("again", id, "%s: written as %.300s, read again as %+v, %v", id, b, again, err)
			return
		}
		same(" after writing and reading again", again.Response)
		r.State(success, code != "", len(moons), indent)
	}
	// the shipped files: read as plain maps
	files := shipped()
	total := 0
	for _, n := range sortedNames(files) {
		var doc struct {
			Success  bool
			Error    map[string]string
			Response []map[string]interface{}
		}
		d := json.NewDecoder(bytes.NewReader(files[n]))
		d.UseNumber()
		if err := d.Decode(&doc); err != nil {
			r.Fail("shipped", n, "%s is not readable: %v", n, err)
			continue
		}
		var moons []rawMoon
		for i, m := range doc.Response {
			num := func(k string) int64 {
				v, ok := m[k].(json.Number)
				if !ok {
					r.Fail("shipped", n, "%s: record %d has no %s", n, i, k)
					return 0
				}
				x, _ := v.Int64()
				return x
			}
			text := func(k string) string { s, _ := m[k].(string); return s }
			x := rawMoon{num("timestamp"), text("dateTimeISO"), int(num("code")), text("name")}
			moons = append(moons, x)
			// a record agrees with itself: instant, code, name, and the year of its file
			t, err := time.Parse(time.RFC3339, x.DateTimeISO)
			r.OK("shipped")
			if err != nil || t.Unix() != x.Timestamp || x.Code < 0 || x.Code > 3 || codes[x.Code&3] != x.Name || fmt.Sprintf("astro-%d.json", t.UTC().Year()) != path.Base(n) {
				r.Fail("shipped", fmt.Sprintf("%s %d", n, i), "%s: record %d does not agree with itself: %+v", n, i, x)
			}
		}
		total += len(moons)
		decide(n, string(files[n]), doc.Success, doc.Error["code"], doc.Error["description"], moons, false)
	}
	r.Notes["shipped_records"] = total
	words := []string{"", "warn_no_data", "invalid_client", "No data was returned for the request.", "ไม่มีข้อมูล", "a \"quoted\" \\ text", "line\nbreak", "maintenance", "é\u2028"}
	for k := 0; k < r.N(2500, 60000); k++ {
		q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
		var moons []rawMoon
		n := []int{0, 1, 3, 50, 300}[r.Rand.Intn(5)]
		for i := 0; i < n; i++ {
			t := time.Unix(r.Rand.Int63n(1<<32)-(1<<31), 0).In(time.FixedZone("", (r.Rand.Intn(27*4)-13*4)*900))
			if r.Rand.Intn(4) == 0 { // far from now
				t = time.Unix(r.Rand.Int63n(315000000000)-62000000000, 0).In(t.Location())
			}
			if r.Rand.Intn(2) == 0 {
				t = t.UTC()
			}
			c := r.Rand.Intn(4)
			m := rawMoon{t.Unix(), t.Format("2006-01-02T15:04:05-07:00"), c, codes[c]}
			if k%4 == 1 && r.Rand.Intn(3) == 0 { // its parts taken one by one, as they come
				switch r.Rand.Intn(4) {
				case 0:
					m.Timestamp = r.Rand.Int63n(1<<31) - 1<<30
				case 1:
					m.DateTimeISO = t.Add(time.Duration(r.Rand.Int63n(1e9))).Format("2006-01-02T15:04:05.999999999Z07:00")
				case 2:
					m.Code = []int{-1, 4, 7, 100, 1 << 30}[r.Rand.Intn(5)]
				case 3:
					m.Name = words[r.Rand.Intn(len(words))]
				}
			}
			moons = append(moons, m)
		}
		success := r.Rand.Intn(5) > 0
		code, desc := "", ""
		parts := []string{fmt.Sprintf(`"success":%v`, success)}
		switch r.Rand.Intn(3) {
		case 0:
			parts = append(parts, `"error":null`)
		case 1:
			code, desc = words[r.Rand.Intn(len(words))], words[r.Rand.Intn(len(words))]
			if r.Rand.Intn(6) == 0 {
				code += strings.Repeat("_x", r.Rand.Intn(300))
				desc = strings.Repeat(desc+" ", r.Rand.Intn(300))
			}
			switch r.Rand.Intn(8) {
			case 0:
				desc = ""
				parts = append(parts, fmt.Sprintf(`"error":{"code":%s}`, q(code)))
			case 1:
				code = ""
				parts = append(parts, fmt.Sprintf(`"error":{"description":%s,"status":401}`, q(desc)))
			default:
				parts = append(parts, fmt.Sprintf(`"error":{"code":%s,"description":%s}`, q(code), q(desc)))
			}
		}
		var recs []string
		for _, m := range moons {
			f := []string{fmt.Sprintf(`"timestamp":%d`, m.Timestamp), `"dateTimeISO":` + q(m.DateTimeISO), fmt.Sprintf(`"code":%d`, m.Code), `"name":` + q(m.Name)}
			if k%5 == 0 {
				f = append(f, `"illum":0.5,"extra":{"a":[1,2]}`)
			}
			r.Rand.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
			recs = append(recs, "{"+strings.Join(f, ",")+"}")
		}
		switch {
		case n > 0 || r.Rand.Intn(3) > 0:
			parts = append(parts, `"response":[`+strings.Join(recs, ",")+`]`)
		case r.Rand.Intn(2) == 0:
			parts = append(parts, `"response":null`)
		}
		if k%7 == 0 {
			parts = append(parts, `"version":"2","paging":[null,true,{"x":1e9}]`)
		}
		r.Rand.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		doc := "{" + strings.Join(parts, ",") + "}"
		if k%3 == 0 {
			var b bytes.Buffer
			json.Indent(&b, []byte(doc), "", "\t")
			doc = b.String()
		}
		decide(fmt.Sprintf("document %d", k), doc, success, code, desc, moons, k%3 == 0)
		if k%500 == 0 {
			r.Sample("document", "%.200s", doc)
		}
	}
	// broken documents are refused rather than half read
	for i, doc := range []string{"", "{", `{"success":"yes"}`, `{"response":[{"timestamp":"x"}]}`, `{"response":[{"dateTimeISO":"yesterday"}]}`, `{"response":{}}`, `{"response":[{"code":"2"}]}`, `{"error":[1]}`, "[]"} {
		r.EvS("decode broken ", doc)
		var x suriya.AerisResp
		r.OK("broken")
		if json.Unmarshal([]byte(doc), &x) == nil {
			r.Fail("broken", fmt.Sprint(i), "%q was accepted as %+v", doc, x)
		}
	}
	r.Floor("record", 50000)
	r.Floor("shipped", 6000)
}
