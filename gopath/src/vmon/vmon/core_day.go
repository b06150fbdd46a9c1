package main

import (
	"fmt"
	"math"
	"math/big"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

const rad = math.Pi / 180

func circ(a, b float64) float64 {
	d := math.Mod(a-b, 360)
	if d > 180 {
		d -= 360
	}
	if d <= -180 {
		d += 360
	}
	return d
}

func checkCounters(r *rt.R, x *suriya.SuriyaDay, y, d int64, v model.Year) {
	e := d - v.T
	h := v.H + e
	av, ma, ti := model.Moon(h)
	_ = r.EqI("era", int64(x.Year), y, "CE of day %d/%d", y, d) &&
		r.EqI("era", int64(x.BE_Year), y+543, "BE of day %d/%d", y, d) &&
		r.EqI("era", int64(x.CS_Year), y-638, "CS of day %d/%d", y, d) &&
		r.EqI("day", int64(x.Day), d, "day of day %d/%d", y, d) &&
		r.EqI("horakhun", int64(x.Horakhun), h, "horakhun of day %d/%d", y, d) &&
		r.EqI("avoman", int64(x.Avoman), av, "avoman of day %d/%d", y, d) &&
		r.EqI("masaken", int64(x.Masaken), ma, "masaken of day %d/%d", y, d) &&
		r.EqI("tithi", int64(x.Tithi), ti, "tithi of day %d/%d", y, d) &&
		r.EqI("uccabala", int64(x.Uccabala), model.Mod(h+2611, 3232), "uccabala of day %d/%d", y, d) &&
		r.EqI("kammacubala", int64(x.Kammacubala), v.K+800*e, "kammacubala of day %d/%d", y, d)
}

// unit gives a 4-decimal position in units of 0.0001 degree, and whether it is one.
func unit(f float64) (int64, bool) {
	n := math.Round(f * 10000)
	return int64(n), math.Abs(f*10000-n) < 1e-5
}

// checkPositions follows the procedure in whole arcminutes and ten-thousandths
// of a degree, each step from the verified result of the step before. Where
// the exact value lies on the edge of a rounding, either side is accepted.
func checkPositions(r *rt.R, x *suriya.SuriyaDay, y, d int64, v model.Year) bool {
	fail := func(kind, format string, a ...interface{}) bool {
		id := fmt.Sprintf("%d/%d", y, d)
		r.Fail(kind, id, "day %s: %s (%+v)", id, fmt.Sprintf(format, a...), *x)
		return false
	}
	const full = 3600000
	e := d - v.T
	r.Add("positions", 1)
	for _, p := range [...]struct {
		n string
		f float64
	}{{"mean sun", x.MeanSun}, {"true sun", x.TrueSun}, {"mean moon", x.MeanMoon}, {"true moon", x.TrueMoon}} {
		if !(p.f >= 0 && p.f < 360) {
			return fail("range", "%s %v is outside 0..360", p.n, p.f)
		}
	}
	// mean sun
	arcmin := model.FloorDiv((e*800+v.K)*21600, 292207) - 3
	ms := model.FloorDiv(arcmin*500, 3)
	if got, ok := unit(x.MeanSun); !ok || got != model.Mod(ms, full) {
		return fail("mean-sun", "mean sun %v, want %v", x.MeanSun, float64(model.Mod(ms, full))/10000)
	}
	// true sun
	eq := 134 * math.Sin(math.Abs(float64(ms)/10000-80)*rad)
	got, ok := unit(x.TrueSun)
	var ts int64
	found := false
	for _, b := range []int64{int64(math.Floor(eq - 1e-9)), int64(math.Floor(eq + 1e-9))} {
		exact := model.FloorDiv(ms*3+b*500, 3)
		for k := int64(0); k <= 1; k++ {
			if k == 1 && b%3 != 0 {
				continue
			}
			if got == model.Mod(exact-k, full) {
				ts, found = exact-k, true
			}
		}
	}
	if !ok || !found {
		return fail("true-sun", "mean sun %v (%d), equation %v', true sun %v", x.MeanSun, ms, eq, x.TrueSun)
	}
	// mean moon
	av, _, ti := model.Moon(v.H + e)
	mm := float64(ts)/10000 + float64(av+av/25)/60 + float64(ti*12) - 0.6666
	if math.Abs(circ(x.MeanMoon, mm)) > 1e-7 {
		return fail("mean-moon", "mean moon %v, want %v", x.MeanMoon, math.Mod(mm+720, 360))
	}
	// true moon
	apogee := (float64(v.U+e)*90/808*60 + 2) / 60
	eqm := 296 * math.Sin(math.Mod(mm-apogee, 360)*rad) / 60
	tm := math.Mod(mm-eqm+720, 360) * 10000
	got, ok = unit(x.TrueMoon)
	if !ok || got != model.Mod(int64(math.Floor(tm-1e-4)), full) && got != model.Mod(int64(math.Floor(tm+1e-4)), full) {
		return fail("true-moon", "true moon %v, want %v", x.TrueMoon, math.Floor(tm)/10000)
	}
	// raek
	if math.Abs(x.Raek-(x.TrueMoon/13.3333+1)) > 1e-9 || int(x.Raek) < 1 || x.Raek > 28.001 {
		return fail("raek", "raek %v of true moon %v", x.Raek, x.TrueMoon)
	}
	r.StateH(rt.Mix(arcmin/60, int64(x.Raek), ti))
	return true
}

func init() {
	core("C08", "every (year, day) in 639..3500 x 0..400 on fresh and reused objects, day of Asalha Puja cross-checked by civil date; distinct: (tithi, avoman, uccabala) of days", func(r *rt.R) {
		var reused suriya.SuriyaDay
		for y := int64(639); y <= 3500; y++ {
			v := model.YearOf(y)
			for d := int64(0); d <= 400; d++ {
				r.Ev("SuriyaDay.Init(%d,%d)", y, d)
				if (y+d)%2 == 0 || r.Thorough {
					var x suriya.SuriyaDay
					x.Init(int(y), int(d))
					checkCounters(r, &x, y, d, v)
				}
				if (y+d)%2 == 1 || r.Thorough {
					reused.Init(int(y), int(d))
					checkCounters(r, &reused, y, d, v)
				}
				r.StateH(rt.Mix(int64(reused.Tithi), int64(reused.Avoman), int64(reused.Uccabala)))
			}
		}
		for i := 0; i < r.N(200000, 3000000); i++ {
			y, d := 639+r.Rand.Int63n(3500-639+1), r.Rand.Int63n(401)
			r.Ev("SuriyaDay.Init(%d,%d) random", y, d)
			var x suriya.SuriyaDay
			if i%3 == 0 {
				n := r.Rand.Intn(100000)
				x = suriya.SuriyaDay{Year: n, Day: n, Horakhun: n, Kammacubala: n, Uccabala: n, Avoman: n, Masaken: n, Tithi: n, BE_Year: n, CS_Year: n, MeanSun: 7, TrueSun: 8, MeanMoon: 9, TrueMoon: 10, Raek: 11}
			}
			if i%3 == 1 {
				// used for another or the same day of the year, some fields changed since
				x.Init(int(y), []int{r.Rand.Intn(401), int(d)}[r.Rand.Intn(2)])
				for k := r.Rand.Intn(4); k > 0; k-- {
					n := r.Rand.Intn(3000)
					switch r.Rand.Intn(8) {
					case 0:
						x.Horakhun = n
					case 1:
						x.Uccabala = n
					case 2:
						x.Avoman = n
					case 3:
						x.Tithi = n
					case 4:
						x.Day = n
					case 5:
						x.Year = n
					case 6:
						x.MeanMoon, x.TrueSun = float64(n), float64(n)
					case 7:
						x.MeanSun, x.TrueMoon, x.Raek = float64(n), float64(n), float64(n)
					}
				}
			}
			x.Init(int(y), int(d))
			checkCounters(r, &x, y, d, model.YearOf(y))
			if i%3 < 2 {
				var f suriya.SuriyaDay
				f.Init(int(y), int(d))
				f.Date, x.Date = time.Time{}, time.Time{}
				r.OK("used-object")
				if f != x {
					r.Fail("used-object", fmt.Sprintf("%d/%d", y, d), "day %d/%d on a used object: %+v, on a fresh one: %+v", y, d, x, f)
				}
			}
		}
		suriya.UseExceptions = false
		hist := map[string]int{}
		for y := int64(639); y <= 3500; y++ {
			su := newYear(y)
			d := 103
			switch {
			case su.Is_Adhikamasa() && su.Tithi > 5:
				d = 133
			case su.Is_Adhikavara():
				d = 104
			}
			var x suriya.SuriyaDay
			r.Ev("asalha day of %d is %d", y, int64(d))
			x.Init(int(y), d)
			puja := model.DayOf(su.AsalhaPuja()) - day0
			diff := puja - int64(x.Horakhun)
			hist[fmt.Sprint(diff)]++
			r.OK("asalha-day")
			if diff < -1 || diff > 1 {
				r.Fail("asalha-day", fmt.Sprint(y), "Asalha Puja of %d is day %d of the era, lunar day %d is %d", y, puja, d, x.Horakhun)
			}
			if y%700 == 0 {
				r.Sample("asalha", "%d: lunar day %d has horakhun %d, the puja falls on %d", y, d, x.Horakhun, puja)
			}
		}
		r.Notes["asalha_day_differences"] = hist
		r.Floor("kammacubala", 1000000)
		r.Floor("asalha-day", 2800)
	})

	core("C09", "(year, day) in 639..3500 x 0..400: the procedure recomputed in whole arcminutes, ranges, and steps between consecutive days; distinct: (degree of the sun, raek, tithi)", func(r *rt.R) {
		worst := map[string]float64{}
		for y := int64(639); y <= 3500; y++ {
			v := model.YearOf(y)
			var prev suriya.SuriyaDay
			have := false
			for d := int64(0); d <= 400; d++ {
				var x suriya.SuriyaDay
				if d%2 == 1 {
					x = prev // a used object
				}
				r.Ev("SuriyaDay.Init(%d,%d)", y, d)
				x.Init(int(y), int(d))
				checkPositions(r, &x, y, d, v)
				if have {
					for _, s := range [...]struct {
						n        string
						a, b     float64
						min, max float64
					}{{"mean-sun-step", prev.MeanSun, x.MeanSun, .95, 1.03}, {"true-sun-step", prev.TrueSun, x.TrueSun, .9, 1.1}, {"true-moon-step", prev.TrueMoon, x.TrueMoon, 11.5, 15}} {
						step := circ(s.b, s.a)
						if step < worst["min "+s.n] || worst["min "+s.n] == 0 {
							worst["min "+s.n] = step
						}
						if step > worst["max "+s.n] {
							worst["max "+s.n] = step
						}
						if step < s.min || step > s.max {
							r.Fail(s.n, fmt.Sprintf("%d/%d", y, d), "from day %d to %d of %d: %v to %v", d-1, d, y, s.a, s.b)
						}
					}
					r.Add("steps", 3)
				}
				prev, have = x, true
				if d == 103 && y%400 == 163 {
					r.Sample("day", "%d/%d: sun %v (mean %v), moon %v (mean %v), raek %v", y, d, x.TrueSun, x.MeanSun, x.TrueMoon, x.MeanMoon, x.Raek)
				}
				if d == 2 && v.T > 5 && y%400 == 163 {
					r.Sample("before New Year", "%d/%d: sun %v (mean %v), moon %v (mean %v), raek %v", y, d, x.TrueSun, x.MeanSun, x.TrueMoon, x.MeanMoon, x.Raek)
				}
			}
		}
		for i := 0; i < r.N(100000, 3000000); i++ {
			y, d := 639+r.Rand.Int63n(3500-639+1), r.Rand.Int63n(401)
			r.Ev("SuriyaDay.Init(%d,%d) random", y, d)
			var x suriya.SuriyaDay
			x.Init(int(y), int(d))
			checkPositions(r, &x, y, d, model.YearOf(y))
		}
		r.Notes["steps_seen"] = worst
		r.Floor("positions", 1000000)
	})

	core("C10", "every arcminute of -1440..1440 degrees with neighbours, multiples of 30 and 360, random angles of up to 7 decimals to +-100000, random integer triples; distinct: (sign, x mod 12, y, z) of a split", func(r *rt.R) {
		// n is the angle in ten-millionths of a degree
		check := func(n int64) {
			deg := float64(n) / 1e7
			r.Ev("degrees %d e-7", n)
			x, y, z := suriya.DegreeToRal(deg)
			want := model.FloorDiv(n*60, 10000000) // whole arcminutes below
			total := int64(x)*1800 + int64(y)*60 + int64(z)
			ok := total == want
			if model.Mod(n*60, 10000000) == 0 && total == want-1 {
				ok = true // a whole arcminute whose float lies just below it
			}
			r.OK("split")
			if y < 0 || y >= 30 || z < 0 || z >= 60 || !ok {
				r.Fail("split", fmt.Sprint(deg), "%.7f splits into (%d; %d : %d), want %d arcminutes", deg, x, y, z, want)
			}
			if model.Mod(n, 10000000) == 0 && (z != 0 || total != want) {
				r.Fail("split-whole", fmt.Sprint(deg), "%.7f splits into (%d; %d : %d)", deg, x, y, z)
			}
			r.Eq("string", fmt.Sprintf("text of %v", deg), suriya.DegreeToRalString(deg), fmt.Sprintf("%d:%d°%d'", x, y, z))
			back := suriya.RalToDegree(x, y, z)
			r.OK("round-trip")
			if back > deg+1e-9 || deg-back >= 1.0/60+0.0001+1e-9 {
				r.Fail("round-trip", fmt.Sprint(deg), "%.7f splits and joins to %v", deg, back)
			}
			nd := suriya.NormalizeDegree(deg)
			m := float64(model.Mod(n, 3600000000)) / 1e7
			r.OK("normalise")
			if !(nd >= 0 && nd < 360) || math.Abs(circ(nd, m)) > 1e-8 {
				r.Fail("normalise", fmt.Sprint(deg), "%.7f normalises to %v, want %v", deg, nd, m)
			}
			if deg >= 0 && deg < 360 && nd != deg {
				r.Fail("normalise-same", fmt.Sprint(deg), "%v normalises to %v", deg, nd)
			}
			s := int64(0)
			if n < 0 {
				s = 1
			}
			r.StateH(rt.Mix(s, model.Mod(int64(x), 12), int64(y), int64(z)))
		}
		const D = 10000000
		for m := int64(-1440 * 60); m <= 1440*60; m++ {
			base := model.FloorDiv(m*D, 60)
			for k := int64(-1); k <= 2; k++ {
				check(base + k)
			}
		}
		for k := int64(-3300); k <= 3300; k++ {
			for e := int64(-2); e <= 2; e++ {
				check(k*30*D + e)
				check(k*15*D + D/2 + e)
			}
		}
		for n := int64(0); n < 3600000; n += 1 + r.Rand.Int63n(int64(r.N(7, 2))) { // 4-decimal positions
			check(n * 1000)
		}
		for i := 0; i < r.N(300000, 5000000); i++ {
			mag := int64(1)
			for p := r.Rand.Intn(12); p > 0; p-- {
				mag *= 10
			}
			if mag > 100000*D/10 {
				mag = 100000 * D / 10
			}
			check(r.Rand.Int63n(2*10*mag+1) - 10*mag)
		}
		// beyond 7 decimals: normalisation only, against exact arithmetic
		big360 := new(big.Float).SetPrec(2000).SetInt64(360)
		for i := 0; i < r.N(100000, 1000000); i++ {
			deg := (r.Rand.Float64()*2 - 1) * math.Pow(10, r.Rand.Float64()*25-20)
			if i%10 == 5 { // far round
				deg = (r.Rand.Float64()*2 - 1) * math.Pow(10, 5+r.Rand.Float64()*10)
				if i%20 == 5 {
					deg = math.Trunc(deg)
				}
			}
			if i%10 == 0 {
				deg = 360 * float64(r.Rand.Intn(500)-250)
				deg = math.Nextafter(deg, float64(r.Rand.Intn(3)-1)*1e9)
			}
			r.Ev("normalise random")
			nd := suriya.NormalizeDegree(deg)
			q := new(big.Float).SetPrec(2000).Quo(new(big.Float).SetPrec(2000).SetFloat64(deg), big360)
			qi, _ := q.Int(nil)
			rem := new(big.Float).SetPrec(2000).Sub(q, new(big.Float).SetPrec(2000).SetInt(qi))
			rem.Mul(rem, big360)
			m, _ := rem.Float64()
			r.OK("normalise")
			if !(nd >= 0 && nd < 360) || math.Abs(circ(nd, m)) > 1e-8 {
				r.Fail("normalise", fmt.Sprint(deg), "%v normalises to %v, want %v mod 360", deg, nd, m)
			}
			if deg >= 0 && deg < 360 && nd != deg {
				r.Fail("normalise-same", fmt.Sprint(deg), "%v normalises to %v", deg, nd)
			}
		}
		join := func(x, y, z int64) {
			r.Ev("RalToDegree(%d,%d,%d)", x, y, z)
			want := float64(model.FloorDiv((30*x+y)*30000+z*500, 3)) / 10000
			got := suriya.RalToDegree(int(x), int(y), int(z))
			r.OK("join")
			if math.Abs(got-want) > 1e-8 {
				r.Fail("join", fmt.Sprint(x, y, z), "(%d; %d : %d) joins to %v, want %v", x, y, z, got, want)
			}
		}
		for x := int64(-2); x <= 12; x++ {
			for y := int64(-30); y < 60; y++ {
				for z := int64(-61); z <= 121; z++ {
					join(x, y, z)
				}
			}
		}
		for i := 0; i < r.N(100000, 1000000); i++ {
			join(r.Rand.Int63n(4001)-2000, r.Rand.Int63n(4001)-2000, r.Rand.Int63n(20001)-10000)
		}
		for _, deg := range []float64{79.5282796, -28.3, 379.3833, 359.9999} {
			x, y, z := suriya.DegreeToRal(deg)
			r.Sample(fmt.Sprint("split ", deg), "(%d; %d : %d), text %s, joined %v, normalised %v", x, y, z, suriya.DegreeToRalString(deg), suriya.RalToDegree(x, y, z), suriya.NormalizeDegree(deg))
		}
		r.Floor("split", 700000)
		r.Floor("join", 200000)
	})
}
