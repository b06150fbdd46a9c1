package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
)

// An op is one call (or a few) of the library with its parameters. run
// performs it without formatting anything, so that nothing but the library
// synchronises goroutines; text writes its result out afterwards.
type op struct {
	kind    string
	a, b, c int64
}

func (o op) String() string { return fmt.Sprintf("%s(%d,%d,%d)", o.kind, o.a, o.b, o.c) }

type opKind struct {
	weight int
	gen    func(rd *rand.Rand) op
	run    func(o op) interface{}
	text   func(o op, v interface{}) string
}

var opKinds = map[string]*opKind{}
var opNames []string

func addOp(name string, weight int, gen func(rd *rand.Rand) op, run func(o op) interface{}) *opKind {
	k := &opKind{weight, gen, run, func(o op, v interface{}) string { return fmt.Sprintf("%v", v) }}
	opKinds[name] = k
	opNames = append(opNames, name)
	return k
}

func yearParam(rd *rand.Rand) int64 {
	if rd.Intn(2) == 0 {
		return 1985 + rd.Int63n(40)
	}
	return 660 + rd.Int63n(2800)
}

// sharedYears, sharedDay: read-only receivers used by everyone at once.
var sharedYears []*suriya.SuriyaYear
var sharedFS = suriya.FS(false)
var sharedDir = suriya.Dir(false, "/data/astro/")

func prepareShared() {
	for y := 1980; y < 2020; y++ {
		su := &suriya.SuriyaYear{}
		su.Init(y)
		sharedYears = append(sharedYears, su)
	}
}

func predicates(su suriya.SuriyaYear) [9]int {
	b := func(v bool) int {
		if v {
			return 1
		}
		return 0
	}
	return [9]int{b(su.Is_Adhikamasa()), b(su.Would_Be_Adhikamasa()), b(su.Is_Adhikavara()), b(su.Would_Be_Adhikavara()),
		b(su.Has_Carried_Adhikavara()), b(su.Is_Suriya_Leap()), su.YearLength(), su.AdhikamasaCyclePos(), su.AdhikavaraCyclePos()}
}

func timeText(o op, v interface{}) string { return v.(time.Time).Format(time.RFC3339Nano) }

var lookupNames = []string{"null", "magasira", "phussa", "magha", "phagguna", "citta", "vesakha", "jettha", "asalha", "2nd asalha", "savana", "bhaddapada",
	"assayuja", "kattika", "hemanta", "gimhana", "vassana", "mahanikaya", "dhammayut", "srilanka", "myanmar", "draft", "predicted", "confirmed", "unknown"}

// initially is how the settings stand when a process begins.
var initially = fmt.Sprint(suriya.UseExceptions, suriya.AdhikavaraExceptions)

func init() {
	addOp("initially", 1, func(rd *rand.Rand) op { return op{"initially", 0, 0, 0} }, func(o op) interface{} { return initially })
	one := func(kind string, p func(*rand.Rand) int64) func(*rand.Rand) op {
		return func(rd *rand.Rand) op { return op{kind, p(rd), 0, 0} }
	}
	addOp("year", 3, one("year", yearParam), func(o op) interface{} { return newYear(o.a) }).text = func(o op, v interface{}) string {
		su := v.(suriya.SuriyaYear)
		return fmt.Sprint(su.Year, su.BE_Year, su.CS_Year, su.Horakhun, su.Kammacubala, su.Uccabala, su.Avoman, su.Masaken, su.Tithi)
	}
	addOp("yeartext", 2, one("yeartext", yearParam), func(o op) interface{} { su := newYear(o.a); return su.SuriyaValuesString() + su.String() })
	addOp("predicates", 3, one("predicates", yearParam), func(o op) interface{} { return predicates(newYear(o.a)) })
	addOp("deltas", 2, one("deltas", yearParam), func(o op) interface{} {
		su := newYear(o.a)
		return [2]int{su.DeltaAdhikamasa(), su.DeltaAdhikavara()}
	})
	addOp("sharedyear", 3, func(rd *rand.Rand) op { return op{"sharedyear", rd.Int63n(40), 0, 0} }, func(o op) interface{} {
		su := sharedYears[o.a]
		return [4]interface{}{predicates(*su), su.SuriyaValuesString(), su.DeltaAdhikavara(), su.AsalhaPuja().Unix()}
	})
	addOp("kattika", 3, one("kattika", yearParam), func(o op) interface{} { return suriya.CalculatePreviousKattika(int(o.a)) }).text = timeText
	addOp("asalha", 3, one("asalha", yearParam), func(o op) interface{} { su := newYear(o.a); return su.AsalhaPuja() }).text = timeText
	addOp("date", 3, func(rd *rand.Rand) op {
		if rd.Intn(6) == 0 {
			return op{"date", rd.Int63n(7) - 3, 0, 0}
		}
		if rd.Intn(2) == 0 {
			return op{"date", rd.Int63n(1100000) - 50000, 0, 0}
		}
		return op{"date", rd.Int63n(20000000) - 10000000, 0, 0}
	}, func(o op) interface{} { return suriya.HorakhunToDate(o.a) }).text = timeText
	addOp("day", 4, func(rd *rand.Rand) op {
		if rd.Intn(8) == 0 {
			return op{"day", yearParam(rd), 400 * rd.Int63n(2), 0}
		}
		return op{"day", yearParam(rd), rd.Int63n(401), 0}
	}, func(o op) interface{} {
		var d suriya.SuriyaDay
		d.Init(int(o.a), int(o.b))
		return d
	}).text = func(o op, v interface{}) string {
		d := v.(suriya.SuriyaDay)
		return fmt.Sprintf("%d %d %d %d %d %d %d %d %d %d positions %v %v %v %v %v", d.Year, d.BE_Year, d.CS_Year, d.Day, d.Horakhun, d.Kammacubala, d.Uccabala, d.Avoman, d.Masaken, d.Tithi,
			d.MeanSun, d.TrueSun, d.MeanMoon, d.TrueMoon, d.Raek)
	}
	addOp("degree", 2, func(rd *rand.Rand) op {
		if rd.Intn(6) == 0 {
			return op{"degree", (rd.Int63n(5) - 2) * []int64{1, 3600000, 300000}[rd.Intn(3)], 0, 0}
		}
		return op{"degree", rd.Int63n(14400000) - 7200000, 0, 0}
	}, func(o op) interface{} {
		deg := float64(o.a) / 10000
		x, y, z := suriya.DegreeToRal(deg)
		return [3]interface{}{suriya.DegreeToRalString(deg), suriya.RalToDegree(x, y, z), suriya.NormalizeDegree(deg)}
	})
	addOp("lookup", 2, func(rd *rand.Rand) op { return op{"lookup", rd.Int63n(int64(len(lookupNames))), rd.Int63n(6), 0} }, func(o op) interface{} {
		n := lookupNames[o.a]
		return [5]interface{}{suriya.MonthToInt(n), suriya.SeasonToInt(n), suriya.CalendarToInt(n), suriya.StatusToInt(n), suriya.SeasonName(int(o.b))}
	})
	file := func(kind string, f func(name string, route int) ([]byte, error)) {
		addOp(kind, 4, func(rd *rand.Rand) op {
			y := 1900 + rd.Int63n(141)
			if rd.Intn(2) == 0 {
				y = 2010 + rd.Int63n(6)
			}
			return op{kind, y, rd.Int63n(7), 0}
		}, func(o op) interface{} {
			b, err := f(fileName(o.a), int(o.b))
			if err != nil {
				return err
			}
			return b
		}).text = func(o op, v interface{}) string {
			if err, ok := v.(error); ok {
				return "error " + err.Error()
			}
			h := fnv.New64a()
			h.Write(v.([]byte))
			return fmt.Sprintf("%d bytes %x", len(v.([]byte)), h.Sum64())
		}
	}
	file("file", func(name string, route int) ([]byte, error) { b, _, err := access(route, name); return b, err })
	file("sharedfs", func(name string, route int) ([]byte, error) {
		fs, n := sharedFS, name
		if route%2 == 0 {
			fs, n = sharedDir, strings.TrimPrefix(name, "/data/astro/")
		}
		f, err := fs.Open(n)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		st, err := f.Stat()
		if err != nil {
			return nil, err
		}
		b := make([]byte, st.Size()+1)
		k, _ := f.Read(b)
		f.Seek(0, 0)
		k2, _ := f.Read(b)
		if k != k2 || int64(k) != st.Size() || st.Name() == "" {
			return nil, fmt.Errorf("read %d and %d of %d bytes of %q", k, k2, st.Size(), st.Name())
		}
		return b[:k], nil
	})
}

var yearNames [200]string

func init() {
	for i := range yearNames {
		yearNames[i] = fmt.Sprintf("/data/astro/astro-%d.json", 1900+i)
	}
}

func fileName(y int64) string { return yearNames[y-1900] }

// genOps makes a list of ops; only those of the calendar build when it has them.
func genOps(seed int64, n int, only string) []op {
	rd := rand.New(rand.NewSource(seed))
	var bag []string
	for _, k := range opNames {
		if only != "" && !strings.Contains(","+only+",", ","+k+",") {
			continue
		}
		for i := 0; i < opKinds[k].weight; i++ {
			bag = append(bag, k)
		}
	}
	out := make([]op, n)
	for i := range out {
		out[i] = opKinds[bag[rd.Intn(len(bag))]].gen(rd)
	}
	return out
}

func runOp(o op) (v interface{}) {
	defer func() {
		if e := recover(); e != nil {
			v = panicked{fmt.Sprint(e), string(debug.Stack())}
		}
	}()
	return opKinds[o.kind].run(o)
}

type panicked struct{ msg, stack string }

func opText(o op, v interface{}) string {
	var s string
	if p, ok := v.(panicked); ok {
		s = "PANIC " + p.msg + " " + p.stack
		s = strings.ReplaceAll(s, "\n", " / ")
	} else {
		s = strings.ReplaceAll(opKinds[o.kind].text(o, v), "\n", " / ")
	}
	if len(s) > 1500 && !strings.HasPrefix(s, "PANIC") {
		h := fnv.New64a()
		h.Write([]byte(s))
		s = fmt.Sprintf("%s... %d characters, hash %x", s[:900], len(s), h.Sum64())
	}
	return s
}

// opsWorker: -mode ops SEED COUNT ORDERSEED REPEATS EXCEPTIONS ONLY FROM TO
// performs the ops one after another and prints "index<TAB>op<TAB>result".
func opsWorker(args []string) {
	var seed, orderSeed int64
	var n, repeats, exc, from, to int
	only := ""
	fmt.Sscan(strings.Join(args[:5], " "), &seed, &n, &orderSeed, &repeats, &exc)
	if len(args) > 5 {
		only = strings.Trim(args[5], "-")
	}
	to = n
	if len(args) > 7 {
		fmt.Sscan(args[6]+" "+args[7], &from, &to)
	}
	suriya.UseExceptions = exc != 0
	ops := genOps(seed, n, only)
	for i := from; i < to; i++ {
		if ops[i].kind == "sharedyear" {
			prepareShared() // otherwise the first call is the first
			break
		}
	}
	order := make([]int, 0, n)
	for i := from; i < to; i++ {
		order = append(order, i)
	}
	if orderSeed != 0 {
		rd := rand.New(rand.NewSource(orderSeed))
		rd.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
	}
	var out strings.Builder
	last := make([]string, n)
	for k := 0; k < repeats; k++ {
		for _, i := range order {
			t := opText(ops[i], runOp(ops[i]))
			if k > 0 && t != last[i] {
				fmt.Fprintf(&out, "%d\t%s\t%s\n", i, ops[i], t)
			}
			if k == 0 {
				fmt.Fprintf(&out, "%d\t%s\t%s\n", i, ops[i], t)
			}
			last[i] = t
		}
		runtime.GC()
	}
	fmt.Print(out.String())
	fmt.Println("end")
}
