package main

import (
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime/debug"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/rt"
)

// attempt performs a call that must come back, whatever its arguments.
func attempt(r *rt.R, kind, what string, f func()) {
	r.EvS(kind+" ", what)
	r.OK(kind)
	defer func() {
		if e := recover(); e != nil {
			stack := string(debug.Stack())
			if !rt.InLibrary(after(stack, "panic(")) {
				panic(e)
			}
			r.Fail("panic-"+kind, what, "%s %s panicked: %v\n%s", kind, what, e, stack)
		}
	}()
	f()
}

// after drops what is above the last line that begins with a text.
func after(stack, text string) string {
	if i := strings.LastIndex(stack, "\n"+text); i >= 0 {
		return stack[i+1:]
	}
	return stack
}

var oddYears = []int{-1000000, -999999, -100000, -4713, -4712, -1, 0, 1, 2, 99, 100, 400, 543, 636, 637, 638, 639, 640, 657, 1000, 1582, 1752, 1969, 1970, 2015, 2016, 2038, 2041, 3500, 3501, 4184, 4185, 7987, 7988, 9999, 10000, 12345, 32767, 32768, 65536, 100000, 999999, 1000000}

func oddYear(rd *rand.Rand) int {
	switch rd.Intn(4) {
	case 0:
		return oddYears[rd.Intn(len(oddYears))]
	case 1:
		return rd.Intn(2000001) - 1000000
	}
	return rd.Intn(12000) - 4000
}

var oddTexts = []string{"", "\x00", "%s%d%n", "../../../../etc/shadow", "/", "//", ".", "..", "/data", "/data/", "/data/astro/", "data/astro/astro-2015.json", "/data/astro/astro-2015.json/",
	"/data/astro/astro-2015.json\x00", "\xff\xfe", strings.Repeat("a", 70000), strings.Repeat("../", 3000), "ÄṢĀḶHA", "asalha\n", "/data/astro/astro--1.json", "/data/astro/astro-2015.json?x", "C:\\data", "/data\\astro", " ", "\t/data"}

func oddText(rd *rand.Rand) string {
	if rd.Intn(2) == 0 {
		return oddTexts[rd.Intn(len(oddTexts))]
	}
	b := make([]byte, rd.Intn(30))
	rd.Read(b)
	return string(b)
}

func oddDegree(rd *rand.Rand) float64 {
	odd := []float64{0, math.Copysign(0, -1), 360, -360, 359.99999999999994, -5e-324, 5e-324, 1e-20, -1e-20, 1e9, -1e9, 1e15, 1e18, -1e18, 1e19, 1e22, -1e22, 1e300, -1e300,
		math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 29.999999999999996, 30, -30}
	if rd.Intn(2) == 0 {
		return odd[rd.Intn(len(odd))]
	}
	return math.Float64frombits(rd.Uint64())
}

func oddTable(rd *rand.Rand) map[int]bool {
	switch rd.Intn(4) {
	case 0:
		return nil
	case 1:
		return map[int]bool{}
	case 2: // no extra days at all for a long while
		t := map[int]bool{}
		for y, v := 1900+rd.Intn(200), rd.Intn(2) == 0; len(t) < 60; y++ {
			t[y] = v
		}
		return t
	}
	t := map[int]bool{}
	for i := 0; i < 30; i++ {
		t[oddYear(rd)] = rd.Intn(2) == 0
	}
	return t
}

func oddSuriyaYear(rd *rand.Rand) suriya.SuriyaYear {
	var su suriya.SuriyaYear
	switch rd.Intn(3) {
	case 0: // never initialised
		su.Year = oddYear(rd)
	case 1:
		n := func() int { return rd.Intn(2000001) - 1000000 }
		su = suriya.SuriyaYear{Year: oddYear(rd), BE_Year: n(), CS_Year: n(), Horakhun: n(), Kammacubala: n(), Uccabala: n(), Avoman: n(), Masaken: n(), Tithi: n()}
	default:
		su.Init(oddYear(rd))
	}
	return su
}

func hostileCore(r *rt.R) {
	defer func(t map[int]bool) { suriya.UseExceptions, suriya.AdhikavaraExceptions = false, t }(suriya.AdhikavaraExceptions)
	table := suriya.AdhikavaraExceptions
	slow := time.Duration(0)
	for k := 0; k < r.N(6000, 80000); k++ {
		if r.Rand.Intn(20) == 0 {
			suriya.UseExceptions = !suriya.UseExceptions
			suriya.AdhikavaraExceptions = table
			if r.Rand.Intn(3) > 0 {
				suriya.AdhikavaraExceptions = oddTable(r.Rand)
			}
		}
		start := time.Now()
		switch r.Rand.Intn(8) {
		case 0, 1:
			y := oddYear(r.Rand)
			d := r.Rand.Intn(801) - 400
			if r.Rand.Intn(4) == 0 {
				d = r.Rand.Intn(2000001) - 1000000
			}
			attempt(r, "day", fmt.Sprintf("%d/%d", y, d), func() {
				var x suriya.SuriyaDay
				x.Init(y, d)
				for _, f := range []float64{x.MeanSun, x.TrueSun, x.MeanMoon, x.TrueMoon} {
					if !(f >= 0 && f < 360) {
						r.Fail("day-range", fmt.Sprintf("%d/%d", y, d), "day %d/%d has a position %v outside 0..360: %+v", y, d, f, x)
					}
				}
			})
			r.State("day", y > 0, y > 638, d > 0, d > 400)
		case 2, 3:
			su := oddSuriyaYear(r.Rand)
			attempt(r, "year", fmt.Sprintf("%+v", su), func() {
				predicates(su)
				if n := su.YearLength(); n != 354 && n != 355 && n != 384 {
					r.Fail("year-length", fmt.Sprint(su.Year), "year %+v has %d days", su, n)
				}
				a, b := su.DeltaAdhikamasa(), su.DeltaAdhikavara()
				if a < -1 || a == 0 || b < -1 || b == 0 {
					r.Fail("delta", fmt.Sprint(su.Year), "year %+v: %d and %d years since the last extra month and day", su, a, b)
				}
				_ = su.String() + su.SuriyaValuesString()
				r.State("year", a, b, suriya.UseExceptions)
			})
			if su.Year > -20000 && su.Year < 20000 {
				attempt(r, "asalha", fmt.Sprintf("%+v", su), func() { su.AsalhaPuja() })
			}
		case 4:
			y := oddYear(r.Rand)
			if k%40 != 0 {
				y %= 5000
			}
			attempt(r, "kattika", fmt.Sprint(y), func() {
				if t := suriya.CalculatePreviousKattika(y); y > -4000 && y < 5000 && t.IsZero() {
					r.Fail("kattika-zero", fmt.Sprint(y), "no Kattika before %d", y)
				}
			})
			r.State("kattika", y/500)
		case 5:
			h := r.Rand.Int63n(2e10) - 1e10
			if r.Rand.Intn(2) == 0 {
				h = []int64{0, 1, -1, 1e10, -1e10, math.MaxInt32, math.MinInt32, 1 << 32, 484049, 484048}[r.Rand.Intn(10)]
			}
			attempt(r, "date", fmt.Sprint(h), func() { suriya.HorakhunToDate(h) })
			r.State("date", h > 0)
		case 6:
			d := oddDegree(r.Rand)
			attempt(r, "degree", fmt.Sprint(d), func() {
				x, y, z := suriya.DegreeToRal(d)
				suriya.RalToDegree(x, y, z)
				_ = suriya.DegreeToRalString(d)
				n := suriya.NormalizeDegree(d)
				if !math.IsInf(d, 0) && !math.IsNaN(d) && !(n >= 0 && n < 360) {
					r.Fail("degree-range", fmt.Sprint(d), "NormalizeDegree(%v) = %v", d, n)
				}
			})
			r.State("degree", d > 0, math.Ilogb(d)/40)
		case 7:
			s := oddText(r.Rand)
			short := fmt.Sprintf("%.60q", s)
			attempt(r, "lookup", short, func() {
				suriya.MonthToInt(s)
				suriya.SeasonToInt(s)
				suriya.CalendarToInt(s)
				suriya.StatusToInt(s)
				suriya.SeasonName(int(r.Rand.Uint32()) - 1<<30)
			})
			local := r.Rand.Intn(2) == 0
			attempt(r, "file", short, func() {
				suriya.FSByte(local, s)
				suriya.FSString(local, s)
				if f, err := suriya.FS(local).Open(s); err == nil {
					io.ReadAll(io.LimitReader(f, 1<<20))
					f.Close()
				}
				if f, err := suriya.Dir(local, "/data/astro").Open(s); err == nil {
					f.Readdir(-1)
					f.Stat()
					f.Close()
				}
			})
			r.State("text", len(s), local)
		}
		if d := time.Since(start); d > slow {
			slow = d
		}
	}
	r.Notes["slowest_step_s"] = slow.Seconds()
	for _, k := range []string{"day", "year", "kattika", "date", "degree", "lookup", "file"} {
		r.Floor(k, 400)
	}
}

func init() {
	core("C26", "hostile arguments for every function (years to a million either side, never initialised and junk receivers, tables with no extra days, non-finite angles, far day numbers, odd names and paths);", hostileCore)
}
