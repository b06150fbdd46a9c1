//go:build calendar

package main

import (
	"math"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

func init() {
	cal("C28", "Every observance day generated for 640..3499: elongation of the moon from the sun on it, and the raek and sun of Asalha Puja.", observanceSky)
}

func observanceSky(r *rt.R) {
	suriya.UseExceptions = false
	e := map[string][2]float64{}
	note := func(k string, v float64) {
		x, ok := e[k]
		if !ok {
			x = [2]float64{v, v}
		}
		e[k] = [2]float64{math.Min(x[0], v), math.Max(x[1], v)}
	}
	for y := int64(640); y <= 3499; y++ {
		r.Ev("GenerateSolarYear(%d)", y)
		for _, ev := range suriya.GenerateSolarYear(int(y)) {
			u, ok := ev.(suriya.UposathaMoon)
			if !ok {
				continue
			}
			h := model.DayOf(u.Date) - day0
			yy := y
			n := h - model.YearOf(yy).H + model.YearOf(yy).T
			if n < 0 {
				yy--
				n = h - model.YearOf(yy).H + model.YearOf(yy).T
			}
			var x suriya.SuriyaDay
			r.Ev("SuriyaDay.Init(%d,%d)", yy, n)
			x.Init(int(yy), int(n))
			id := ymd(model.DayOf(u.Date))
			el := circ(x.TrueMoon, x.TrueSun)
			want := 0.0
			if u.Phase == "full" {
				want = 180
			}
			r.OK("elongation")
			note(u.Phase+" elongation", circ(el, want))
			if int64(x.Horakhun) != h || math.Abs(circ(el, want)) > 21 {
				r.Fail("elongation", id, "on the %s moon of %s (day %d/%d) the moon is %.2f degrees from the sun", u.Phase, id, yy, n, el)
			}
			if u.Event == "asalha" {
				r.OK("asalha")
				note("asalha raek", x.Raek)
				note("asalha sun", x.MeanSun)
				if x.Raek < 19 || x.Raek >= 24 || x.MeanSun < 75 || x.MeanSun > 111 {
					r.Fail("asalha", id, "on Asalha Puja %s the raek is %.4f and the mean sun at %.4f", id, x.Raek, x.MeanSun)
				}
				if y%700 == 0 {
					r.Sample("asalha", "%s: raek %.4f, mean sun %.4f, elongation %.2f", id, x.Raek, x.MeanSun, el)
				}
			}
		}
	}
	r.Notes["on_observance_days"] = e
	r.Floor("elongation", 60000)
	r.Floor("asalha", 2800)
}
