package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/rt"
)

// shipped reads the data files of the repository (the working directory).
func shipped() map[string][]byte {
	names, _ := filepath.Glob("data/astro/*")
	out := map[string][]byte{}
	for _, n := range names {
		if b, err := os.ReadFile(n); err == nil {
			out["/"+filepath.ToSlash(n)] = b
		}
	}
	return out
}

func sortedNames(m map[string][]byte) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// localDisk reads from a directory of the monitor's with other contents: what local
// reading gives is what the disk holds at that moment, and embedded files stay as they are.
func localDisk(r *rt.R, names []string, files map[string][]byte) {
	home, err := os.Getwd()
	if err != nil {
		monitorError("%v", err)
	}
	tmp, err := os.MkdirTemp("", "vmon-local-")
	if err != nil {
		monitorError("%v", err)
	}
	defer os.RemoveAll(tmp)
	if err := os.MkdirAll(filepath.Join(tmp, "data", "astro"), 0755); err != nil {
		monitorError("%v", err)
	}
	if err := os.Chdir(tmp); err != nil {
		monitorError("%v", err)
	}
	defer os.Chdir(home)
	held := map[string][]byte{}
	for i := 0; i < r.N(300, 3000); i++ {
		n := names[r.Rand.Intn(len(names))]
		switch r.Rand.Intn(3) {
		case 0:
			if r.Rand.Intn(3) == 0 {
				delete(held, n)
				os.Remove(tmp + n)
				break
			}
			b := append([]byte{}, files[n]...)
			switch r.Rand.Intn(5) {
			case 0:
				b = b[:0]
			case 1:
				b = append(b, b...)
			case 2:
				b = []byte(fmt.Sprintf("edit %d", i))
			case 3:
				b[r.Rand.Intn(len(b))]++
			}
			held[n] = b
			if err := os.WriteFile(tmp+n, b, 0644); err != nil {
				monitorError("%v", err)
			}
		}
		for _, route := range []int{7, 8, 9, 10, 11, 12, 14, 0, 4} {
			if r.Rand.Intn(3) != 0 {
				continue
			}
			id := fmt.Sprintf("%s %s in a directory with other data, step %d", routeNames[route], n, i)
			r.EvS("access ", id)
			var b []byte
			var err error
			func() {
				defer func() {
					if e := recover(); e != nil {
						err = fmt.Errorf("panic: %v", e)
					}
				}()
				b, _, err = access(route, n)
			}()
			want, there := held[n]
			if route == 0 || route == 4 {
				want, there = files[n], true
			}
			r.OK("local")
			if there && (err != nil || !bytes.Equal(b, want)) {
				r.Fail("local", id, "%s: %d bytes, error %v; want the %d there", id, len(b), err, len(want))
			}
			if !there && (err == nil || (route >= 7 && route <= 10 && !os.IsNotExist(err))) {
				r.Fail("local", id, "%s: %d bytes, error %v; there is no file", id, len(b), err)
			}
		}
	}
}

// spellings gives names that clean to the same path.
func spellings(n string) []string {
	d, b := filepath.Dir(n), filepath.Base(n)
	return []string{n, strings.Replace(n, "/data/", "/data//", 1), d + "/./" + b, d + "/../astro/" + b, "/x/.." + n, "//" + n[1:], n + "/", n + "/.", "/../.." + n, n + "//", n + "/x/.."}
}

// access reads a file by one of the routes.
func access(route int, name string) (b []byte, size int64, err error) {
	size = -1
	open := func(fs http.FileSystem, name string) {
		var f http.File
		if f, err = fs.Open(name); err != nil {
			return
		}
		defer f.Close()
		var st os.FileInfo
		if st, err = f.Stat(); err != nil {
			return
		}
		size = st.Size()
		b, err = io.ReadAll(f)
	}
	switch route {
	case 0:
		b, err = suriya.FSByte(false, name)
	case 1:
		b = suriya.FSMustByte(false, name)
	case 2:
		var s string
		s, err = suriya.FSString(false, name)
		b = []byte(s)
	case 3:
		b = []byte(suriya.FSMustString(false, name))
	case 4:
		open(suriya.FS(false), name)
	case 5:
		open(suriya.Dir(false, "/data"), strings.TrimPrefix(name, "/data"))
	case 6:
		open(suriya.Dir(false, "/data/astro/"), strings.TrimPrefix(name, "/data/astro/"))
	case 7:
		b, err = suriya.FSByte(true, name)
	case 8:
		open(suriya.FS(true), name)
	case 9:
		open(suriya.Dir(true, "/data"), strings.TrimPrefix(name, "/data"))
	case 10:
		s := ""
		s, err = suriya.FSString(true, name)
		b = []byte(s)
	case 11:
		b = suriya.FSMustByte(true, name)
	case 12:
		b = []byte(suriya.FSMustString(true, name))
	case 13, 14:
		w := httptest.NewRecorder()
		q := httptest.NewRequest("GET", strings.TrimPrefix(name, "/data"), nil)
		http.FileServer(suriya.Dir(route == 14, "/data")).ServeHTTP(w, q)
		b = w.Body.Bytes()
		if w.Code != 200 {
			err = fmt.Errorf("served with code %d", w.Code)
		}
	}
	return
}

const routes = 15

var routeNames = [routes]string{"FSByte", "FSMustByte", "FSString", "FSMustString", "FS.Open", "Dir.Open(/data)", "Dir.Open(/data/astro/)",
	"local FSByte", "local FS.Open", "local Dir.Open", "local FSString", "local FSMustByte", "local FSMustString", "http.FileServer", "local http.FileServer"}

func init() {
	core("C16", "all shipped files by every access route (bytes, string, opened file, prefixed directory, http file server, each embedded and local) in shuffled order and path spellings; groups of readers of the same and other files with random seeks and reads; unknown names; distinct: (file, route) and (reader operation, position class)", func(r *rt.R) {
		files := shipped()
		names := sortedNames(files)
		r.Notes["shipped_files"] = len(names)
		if len(names) != 141 {
			r.Fail("shipped", "shipped files", "the repository has %d data files, want 141", len(names))
		}
		sums := map[string][32]byte{}
		for n, b := range files {
			sums[n] = sha256.Sum256(b)
		}
		one := func(route int, n, spelled string) {
			r.EvS("access ", routeNames[route]+" "+spelled)
			var b []byte
			var size int64
			var err error
			id := routeNames[route] + " " + spelled
			func() {
				defer func() {
					if e := recover(); e != nil {
						err = fmt.Errorf("panic: %v", e)
					}
				}()
				b, size, err = access(route, spelled)
			}()
			r.OK("access")
			if err != nil {
				r.Fail("access", id, "%s: %v", id, err)
				return
			}
			r.OK("content")
			if sha256.Sum256(b) != sums[n] || !bytes.Equal(b, files[n]) {
				r.Fail("content", id, "%s: %d bytes that are not the %d shipped", id, len(b), len(files[n]))
			}
			if size >= 0 {
				r.OK("size")
				if size != int64(len(files[n])) {
					r.Fail("size", id, "%s: reported size %d, want %d", id, size, len(files[n]))
				}
			}
			r.State(n, route)
		}
		// the first access of each file is by a random route: each process sees another mix
		for round := 0; round < r.N(6, 60); round++ {
			for _, i := range r.Rand.Perm(len(names) * routes) {
				n, route := names[i/routes], i%routes
				if round == 0 && route > 6 && route != 13 {
					continue // embedded first
				}
				s := n
				if round%2 == 1 && route != 6 && route < 13 && r.Rand.Intn(2) == 0 {
					sp := spellings(n)
					s = sp[r.Rand.Intn(len(sp))]
					if !strings.HasPrefix(s, "/data/") || route == 5 || route == 9 {
						if route == 5 || route == 9 {
							s = n
						}
					}
				}
				one(route, n, s)
			}
		}
		// every spelling of every name
		for _, i := range r.Rand.Perm(len(names) * 13) {
			if route := i % 13; route != 5 && route != 6 && route != 9 {
				for _, s := range spellings(names[i/13]) {
					one(route, names[i/13], s)
				}
			}
		}
		// one file of each kind opened and read thousands of times
		for k, n := range []string{names[r.Rand.Intn(len(names))], names[r.Rand.Intn(len(names))], names[len(names)-1]} {
			for i := 0; i < r.N(1700, 20000); i++ {
				switch k {
				case 0:
					one(4, n, n)
				case 1:
					one(i%4, n, n)
				default:
					one([]int{0, 1, 2, 3, 4, 7, 8}[i%7], n, n)
				}
			}
			r.OK("many-times")
		}
		localDisk(r, names, files)
		readers(r, names, files)
		unknown := []string{"", "/nothing", "/dat", "/data/astro2", "/data/astro/astro-1899.json", "/data/astro/astro-2041.json", "/data/astro/astro-20155.json",
			"/data/astro/ASTRO-2015.json", "/data/astro/astro-2015.json.gz", "/data/astro/astro-2015", "/data/astro/../../../etc/passwd", "/etc/passwd", "/suriya.go", "/README.md"}
		for k := 0; k < 3; k++ {
			for _, n := range unknown {
				for _, local := range []bool{false, true} {
					r.EvS("unknown ", n)
					id := fmt.Sprintf("%q local=%v", n, local)
					b, err := suriya.FSByte(local, n)
					r.OK("unknown")
					if err == nil || !os.IsNotExist(err) || len(b) != 0 {
						r.Fail("unknown", id, "FSByte of unknown %s: %d bytes, error %v", id, len(b), err)
					}
					s, err := suriya.FSString(local, n)
					if err == nil || !os.IsNotExist(err) || s != "" {
						r.Fail("unknown", id, "FSString of unknown %s: %q, error %v", id, s, err)
					}
					if f, err := suriya.FS(local).Open(n); err == nil || !os.IsNotExist(err) {
						r.Fail("unknown", id, "Open of unknown %s: %v, error %v", id, f, err)
					}
					for _, must := range []func(){func() { suriya.FSMustByte(local, n) }, func() { suriya.FSMustString(local, n) }} {
						func() {
							defer func() {
								if recover() == nil {
									r.Fail("unknown-must", id, "the must-variant did not panic for unknown %s", id)
								}
							}()
							must()
						}()
						r.OK("unknown-must")
					}
				}
				for _, dir := range []string{"/data", "/data/astro/"} {
					if n == "" || n == "/" {
						continue
					}
					r.EvS("unknown in directory ", dir+" "+n)
					_, err := suriya.Dir(false, dir).Open(n)
					r.Eq("unknown", dir+" "+n, os.IsNotExist(err), true)
				}
			}
		}
		r.Sample("file", "%s: %d bytes, sha256 %x", names[0], len(files[names[0]]), sums[names[0]])
		r.Sample("file", "%s: %d bytes by %d routes", names[115], len(files[names[115]]), routes)
		r.Floor("content", 5000)
		r.Floor("reader", 20000)
	})

	core("C20", "every name of the tables, unknown names (cases, spaces, suffixes, random texts), every season number -50..300;", func(r *rt.R) {
		months := []string{"null", "magasira", "phussa", "magha", "phagguna", "citta", "vesakha", "jettha", "asalha", "savana", "bhaddapada", "assayuja", "kattika", "2nd asalha"}
		seasons := []string{"null", "hemanta", "gimhana", "vassana"}
		calendars := []string{"mahanikaya", "dhammayut", "srilanka", "myanmar"}
		statuses := []string{"draft", "predicted", "confirmed"}
		for _, t := range []struct {
			n    string
			l    []string
			f    func(string) int
			code map[string]int
		}{{"month", months, suriya.MonthToInt, map[string]int{}}, {"season", seasons, suriya.SeasonToInt, map[string]int{}},
			{"calendar", calendars, suriya.CalendarToInt, map[string]int{}}, {"status", statuses, suriya.StatusToInt, map[string]int{}}} {
			for i, n := range t.l {
				t.code[n] = i
			}
			for round := 0; round < 3; round++ {
				for _, all := range [][]string{months, seasons, calendars, statuses} {
					for _, n := range all {
						for _, q := range []string{n, strings.ToUpper(n), strings.Title(n), n + " ", " " + n, n + "s", n[1:], n + n} {
							r.EvS(t.n+" code of ", q)
							r.Eq(t.n+"-code", fmt.Sprintf("%s code of %q", t.n, q), t.f(q), t.code[q])
							r.State(t.n, q)
						}
					}
				}
				for i := 0; i < 2000; i++ {
					b := make([]byte, r.Rand.Intn(12))
					for j := range b {
						b[j] = "aehiklmnpstuvy 2nd"[r.Rand.Intn(18)]
					}
					r.EvS(t.n+" code of ", string(b))
					r.Eq(t.n+"-code", fmt.Sprintf("%s code of %q", t.n, b), t.f(string(b)), t.code[string(b)])
				}
			}
			r.Sample("table", "%s: %v", t.n, t.l)
		}
		names := map[int]string{1: "Hemanta", 2: "Gimha", 3: "Vassāna"}
		for n := -50; n <= 300; n++ {
			r.Ev("SeasonName(%d)", int64(n))
			r.Eq("season-name", fmt.Sprintf("name of season %d", n), suriya.SeasonName(n), names[n])
		}
		for _, n := range []int{1<<31 - 1, -1 << 31} {
			r.Eq("season-name", fmt.Sprintf("name of season %d", n), suriya.SeasonName(n), "")
		}
	})
}

// readers drives opened files side by side and compares each with its own bytes.Reader.
func readers(r *rt.R, names []string, files map[string][]byte) {
	type rd struct {
		name string
		f    http.File
		ref  *bytes.Reader
	}
	for g := 0; g < r.N(120, 2500); g++ {
		var open []*rd
		pick := []string{names[r.Rand.Intn(len(names))], names[r.Rand.Intn(len(names))]}
		for step := 0; step < 250; step++ {
			if len(open) == 0 || len(open) < 8 && r.Rand.Intn(12) == 0 {
				n := pick[r.Rand.Intn(2)]
				var fs http.FileSystem = suriya.FS(false)
				name := n
				switch r.Rand.Intn(4) {
				case 0:
					fs = suriya.FS(true)
				case 1:
					fs, name = suriya.Dir(false, "/data"), strings.TrimPrefix(n, "/data")
				}
				r.EvS("open ", name)
				f, err := fs.Open(name)
				if err != nil {
					r.Fail("open", name, "open %s: %v", name, err)
					return
				}
				open = append(open, &rd{n, f, bytes.NewReader(files[n])})
			}
			i := r.Rand.Intn(len(open))
			o := open[i]
			switch k := r.Rand.Intn(10); {
			case k < 5:
				buf, want := make([]byte, r.Rand.Intn(600)), []byte(nil)
				want = make([]byte, len(buf))
				r.EvS("read ", o.name)
				n1, e1 := io.ReadFull(o.f, buf)
				n2, e2 := io.ReadFull(o.ref, want)
				r.OK("reader")
				if n1 != n2 || !bytes.Equal(buf[:n1], want[:n2]) || e1 != e2 {
					r.Fail("reader", o.name, "reading %d bytes of %s: %d %v, want %d %v", len(buf), o.name, n1, e1, n2, e2)
				}
				r.State("read", n2 == len(buf), e2, len(open))
			case k < 8:
				wh := r.Rand.Intn(3)
				off := int64(r.Rand.Intn(len(files[o.name]) + 50))
				if wh == 1 {
					off -= int64(r.Rand.Intn(400))
				}
				if wh == 2 {
					off = -off
				}
				r.EvS("seek ", o.name)
				p1, e1 := o.f.Seek(off, wh)
				p2, e2 := o.ref.Seek(off, wh)
				r.OK("reader")
				if (e1 == nil) != (e2 == nil) || e2 == nil && p1 != p2 {
					r.Fail("reader", o.name, "seek(%d,%d) in %s: %d %v, want %d %v", off, wh, o.name, p1, e1, p2, e2)
				}
				r.State("seek", wh, e2 == nil, len(open))
			case k < 9:
				st, err := o.f.Stat()
				r.OK("reader")
				if err != nil || st.Size() != int64(len(files[o.name])) || st.IsDir() {
					r.Fail("reader", o.name, "stat of %s: %v %v", o.name, st, err)
				}
			default:
				r.EvS("close ", o.name)
				if err := o.f.Close(); err != nil {
					r.Fail("reader", o.name, "close of %s: %v", o.name, err)
				}
				if r.Rand.Intn(3) == 0 {
					o.f.Close() // once more, as a deferred close does; its result does not matter
				}
				open = append(open[:i], open[i+1:]...)
			}
		}
		for _, o := range open {
			o.f.Close()
		}
	}
}
