//go:build calendar

package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
)

var sharedDays []suriya.CalDay

func init() {
	span := func(kind string, lo, hi int64) func(rd *rand.Rand) op {
		return func(rd *rand.Rand) op {
			from := lo + rd.Int63n(hi-lo)
			if rd.Intn(2) == 0 {
				from = time.Date(1990+rd.Intn(30), 1, 1, 0, 0, 0, 0, time.UTC).Unix() + rd.Int63n(86400*300)
			}
			to := from + rd.Int63n(86400*[]int64{3, 60, 700}[rd.Intn(3)])
			switch rd.Intn(25) {
			case 0: // the wrong way round
				from, to = to, from
			case 1:
				to = from
			}
			return op{kind, from, to, rd.Int63n(int64(len(zones)))}
		}
	}
	day := int64(86400)
	evs := func(o op, v interface{}) string {
		var out []string
		for _, e := range v.([]suriya.CalendarEvent) {
			out = append(out, evText(e))
		}
		return strings.Join(out, " | ")
	}
	addOp("generate", 3, func(rd *rand.Rand) op { return op{"generate", yearParam(rd), 0, 0} }, func(o op) interface{} { return suriya.GenerateSolarYear(int(o.a)) }).text = evs
	addOp("next", 3, func(rd *rand.Rand) op { return op{"next", yearParam(rd), 1 + rd.Int63n(60), 0} }, func(o op) interface{} {
		m := suriya.UposathaMoon{Date: suriya.CalculatePreviousKattika(int(o.a)), Phase: "full", S_Number: 8, S_Total: 8, U_Days: 15, M_Days: 29, LunarMonth: 12, LunarSeason: 3, LunarYear: int(o.a) + 542}
		var l []suriya.CalendarEvent
		for i := int64(0); i < o.b; i++ {
			m = m.NextUposatha()
			l = append(l, m)
		}
		return l
	}).text = evs
	days := func(o op, v interface{}) string {
		var out []string
		for _, d := range v.([]suriya.CalDay) {
			out = append(out, dayKey(d))
		}
		return strings.Join(out, " || ")
	}
	addOp("window", 4, span("window", -22000*365*day/10, 900*365*day), func(o op) interface{} {
		z := zones[o.c]
		return suriya.GetCalDays(time.Unix(o.a, 0).In(z), time.Unix(o.b, 0).In(z))
	}).text = days
	addOp("astro", 4, span("astro", -70*365*day, 73*365*day), func(o op) interface{} {
		z := zones[o.c]
		return suriya.GetAstroMoons(time.Unix(o.a, 0).In(z), time.Unix(o.b, 0).In(z))
	}).text = func(o op, v interface{}) string {
		var out []string
		for _, m := range v.([]suriya.AstroMoon) {
			out = append(out, astroText(m))
		}
		return strings.Join(out, " | ")
	}
	addOp("halfmoons", 2, func(rd *rand.Rand) op { return op{"halfmoons", yearParam(rd), 0, 0} }, func(o op) interface{} {
		from := time.Date(int(o.a), 1, 1, 0, 0, 0, 0, time.UTC)
		l := suriya.GetCalDays(from, from.AddDate(0, 3, 0))
		return suriya.AddHalfMoonDays(l[:len(l):len(l)])
	}).text = days
	addOp("texts", 2, func(rd *rand.Rand) op { return op{"texts", rd.Int63n(60), 0, 0} }, func(o op) interface{} {
		d := sharedDays[int(o.a)%len(sharedDays)]
		out := d.String() + d.GetUposathaMoon().String() + d.GetHalfMoon().String() + d.GetAstroMoon().String()
		for _, e := range d.MajorEvents {
			out += e.String()
		}
		n := d.GetUposathaMoon()
		if n.Phase != "" {
			n = n.NextUposatha()
			out += n.String()
		}
		return out
	})
	addOp("ical", 2, func(rd *rand.Rand) op { return op{"ical", rd.Int63n(60), 0, 0} }, func(o op) interface{} {
		d := sharedDays[int(o.a)%len(sharedDays)]
		type brief struct {
			start, end int64
			title, tz  string
			all        bool
		}
		e := d.GetUposathaMoon().IcalEvent()
		h := d.GetHalfMoon().IcalEvent()
		return [2]brief{{e.DTSTART.Unix(), e.DTEND.Unix(), e.SUMMARY, e.TZID, e.AllDay}, {h.DTSTART.Unix(), h.DTEND.Unix(), h.SUMMARY, h.TZID, h.AllDay}}
	}).text = func(o op, v interface{}) string { return fmt.Sprintf("%+v", v) }

	// built without the library, so that the first touch is left to the ops
	for i := 0; i < 60; i++ {
		at := time.Date(2000+i, time.Month(1+i%12), 1+i%28, 0, 0, 0, 0, time.UTC)
		d := suriya.CalDay{Date: at}
		if i%2 == 0 {
			d.UposathaMoon = []suriya.UposathaMoon{{Date: at, Phase: []string{"new", "full"}[i/2%2], S_Number: 1 + i%8, S_Total: 8, U_Days: 14 + i%2, M_Days: 29 + i%2, LunarMonth: 1 + i%12, LunarSeason: 1 + i%3, LunarYear: 2543 + i}}
		} else {
			d.HalfMoon = []suriya.HalfMoon{{Date: at, Phase: "waning"}}
		}
		if i%3 == 0 {
			d.AstroMoon = []suriya.AstroMoon{{Date: at, Phase: "full"}}
			d.MajorEvents = []suriya.MajorEvent{{Date: at, Summary: "Māgha Pūjā"}}
		}
		sharedDays = append(sharedDays, d)
	}
}
