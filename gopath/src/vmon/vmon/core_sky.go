package main

import (
	"fmt"
	"math"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

func init() {
	core("C28", "every year 639..3500 with sampled days, each against the real sun and moon (Meeus) and against the same civil day counted from the year before; distinct: (century, raek, sign of the sun)", realSky)
}

// sky gives the mean and true tropical longitudes of sun and moon (Meeus,
// Astronomical Algorithms, chapters 25 and 47, main terms).
func sky(jd float64) (ls, ts, lm, tm float64) {
	t := (jd - 2451545) / 36525
	ls = 280.46646 + 36000.76983*t + 0.0003032*t*t
	m := (357.52911 + 35999.05029*t - 0.0001537*t*t) * rad
	ts = ls + (1.914602-0.004817*t)*math.Sin(m) + 0.019993*math.Sin(2*m)
	lm = 218.3164477 + 481267.88123421*t - 0.0015786*t*t
	d := (297.8501921 + 445267.1114034*t - 0.0018819*t*t) * rad
	n := (134.9633964 + 477198.8675055*t + 0.0087414*t*t) * rad
	f := (93.2720950 + 483202.0175233*t - 0.0036539*t*t) * rad
	tm = lm + 6.288774*math.Sin(n) + 1.274027*math.Sin(2*d-n) + .658314*math.Sin(2*d) + .213618*math.Sin(2*n) - .185116*math.Sin(m) - .114332*math.Sin(2*f)
	return
}

// zodiac is how far the procedure's zodiac (whose year has 292207/800 days)
// lags behind the equinox: 24.14 degrees in 2000.
func zodiac(jd float64) float64 {
	return 24.14 + (jd-2451545)*(360/365.2421897-360*800.0/292207)
}

// midnightAfter is the Julian day of the midnight that ends a civil day at 105 deg east.
func midnightAfter(h int64) float64 { return float64(h+day0) + 2440588.5 - 7.0/24 }

func realSky(r *rt.R) {
	var ext [4][2]float64
	names := []string{"mean sun", "true sun", "mean moon", "true moon"}
	limits := []float64{0.15, 4.7, 6.5, 9.8}
	for y := int64(639); y <= 3500; y++ {
		v, w := model.YearOf(y), model.YearOf(y+1)
		start, step := r.Rand.Int63n(7), int64(7)
		if r.Thorough {
			start, step = 0, 1
		}
		// the days counted from both years
		shared := w.H - w.T - v.H + v.T
		for n := start; n <= 400; n++ {
			if n < shared && (n-start)%step != 0 {
				continue
			}
			var x suriya.SuriyaDay
			r.Ev("SuriyaDay.Init(%d,%d)", y, n)
			x.Init(int(y), int(n))
			h := v.H + n - v.T
			id := fmt.Sprintf("%d/%d", y, n)
			jd := midnightAfter(h)
			ls, ts, lm, tm := sky(jd)
			z := zodiac(jd)
			got := [4]float64{x.MeanSun, x.TrueSun, x.MeanMoon, x.TrueMoon}
			for i, real := range [4]float64{ls, ts, lm, tm} {
				off := circ(got[i], real-z)
				ext[i] = [2]float64{math.Min(ext[i][0], off), math.Max(ext[i][1], off)}
				if math.Abs(off) > limits[i] || math.IsNaN(off) {
					r.Fail("real-"+names[i], id, "day %s: %s %v, the real one in this zodiac is %.2f", id, names[i], got[i], math.Mod(real-z+360*2000, 360))
				}
			}
			r.Add("real", 4)
			r.StateH(rt.Mix(y/100, int64(x.Raek), int64(x.TrueSun/30)))
			if n >= shared && y < 3500 && n-shared <= 400 {
				var o suriya.SuriyaDay
				m := n - shared
				r.Ev("SuriyaDay.Init(%d,%d)", y+1, m)
				o.Init(int(y+1), int(m))
				r.OK("shared-day")
				if o.Horakhun != x.Horakhun || o.Tithi != x.Tithi || o.Avoman != x.Avoman || o.Masaken != x.Masaken || o.Uccabala != x.Uccabala ||
					math.Abs(circ(o.MeanSun, x.MeanSun)) > 0.0002 || x.Kammacubala-o.Kammacubala != 292207 {
					r.Fail("shared-day", id, "the same civil day as day %s %+v and as day %d/%d %+v", id, x, y+1, m, o)
				}
			}
		}
	}
	e := map[string][2]float64{}
	for i, n := range names {
		e[n] = ext[i]
	}
	r.Notes["offset_from_the_real_sky_degrees"] = e
	r.Floor("real", 300000)
	r.Floor("shared-day", 50000)
}
