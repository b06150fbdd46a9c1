//go:build calendar

package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/rt"
)

func init() {
	cal("C26", "junk observances followed on, junk days and events, generated years -20000..20000, reversed, empty, zero-time and far windows in all zones, the built command with hostile arguments; distinct: (kind, class of the argument)", hostileCalendar)
}

func oddTime(rd *rand.Rand) time.Time {
	switch rd.Intn(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(rd.Int63n(4e11)-2e11, rd.Int63n(1e9)).In(zones[rd.Intn(len(zones))])
	case 2:
		return time.Date(rd.Intn(24000)-12000, time.Month(rd.Intn(40)-20), rd.Intn(80)-40, rd.Intn(60)-30, 0, 0, -1, zones[rd.Intn(len(zones))])
	case 3:
		return time.Date([]int{-1, 0, 1, 637, 638, 9999, 10000}[rd.Intn(7)], 12, 31, 23, 59, 59, 999999999, zones[rd.Intn(len(zones))])
	}
	return someTime(rd)
}

func oddUp(rd *rand.Rand) suriya.UposathaMoon {
	n := func() int {
		if rd.Intn(3) == 0 {
			return rd.Intn(2000001) - 1000000
		}
		return rd.Intn(40) - 10
	}
	m := suriya.UposathaMoon{Date: oddTime(rd), Calendar: n(), Status: n(), Phase: []string{"new", "full", "", "waxing", "NEW", "\xff"}[rd.Intn(6)], Event: oddText(rd),
		S_Number: n(), S_Total: n(), U_Days: n(), M_Days: n(), LunarMonth: n(), LunarSeason: n(), LunarYear: oddYear(rd), HasAdhikavara: rd.Intn(2) == 0, Source: oddText(rd), Comments: oddText(rd)}
	if rd.Intn(3) > 0 {
		m.LunarMonth = rd.Intn(15)
		m.LunarSeason = rd.Intn(5)
	}
	return m
}

func oddCalDay(rd *rand.Rand) (d suriya.CalDay) {
	d.Date = oddTime(rd)
	for i := rd.Intn(3); i > 0; i-- {
		d.UposathaMoon = append(d.UposathaMoon, oddUp(rd))
	}
	for i := rd.Intn(3); i > 0; i-- {
		d.HalfMoon = append(d.HalfMoon, suriya.HalfMoon{Date: oddTime(rd), Phase: oddText(rd)})
	}
	for i := rd.Intn(3); i > 0; i-- {
		d.AstroMoon = append(d.AstroMoon, suriya.AstroMoon{Date: oddTime(rd), Phase: oddText(rd)})
	}
	for i := rd.Intn(3); i > 0; i-- {
		d.MajorEvents = append(d.MajorEvents, suriya.MajorEvent{Date: oddTime(rd), Calendar: rd.Intn(9) - 4, Summary: oddText(rd)})
		d.Events = append(d.Events, suriya.Event{Date: oddTime(rd), Calendar: rd.Intn(9) - 4, Summary: oddText(rd)})
	}
	return
}

func hostileCalendar(r *rt.R) {
	defer func(t map[int]bool) { suriya.UseExceptions, suriya.AdhikavaraExceptions = false, t }(suriya.AdhikavaraExceptions)
	table := suriya.AdhikavaraExceptions
	for k := 0; k < r.N(5000, 60000); k++ {
		if r.Rand.Intn(20) == 0 {
			suriya.UseExceptions = !suriya.UseExceptions
			suriya.AdhikavaraExceptions = table
			if r.Rand.Intn(3) > 0 {
				suriya.AdhikavaraExceptions = oddTable(r.Rand)
			}
		}
		switch r.Rand.Intn(6) {
		case 0, 1:
			m := oddUp(r.Rand)
			attempt(r, "next", cut(upText(m)), func() {
				n := m
				for i := 0; i < 60; i++ {
					n = n.NextUposatha()
				}
				if g := n.Date.Sub(m.Date); g > 0 && g < 60*13*24*time.Hour {
					r.Fail("next-days", cut(upText(m)), "60 observance days on from %s it is only %s", upText(m), upText(n))
				}
				_ = m.String() + n.String()
				m.IcalEvent()
			})
			r.State("next", m.Phase, m.LunarMonth > 0 && m.LunarMonth < 14, m.LunarSeason, suriya.UseExceptions)
		case 2:
			d := oddCalDay(r.Rand)
			attempt(r, "container", cut(dayKey(d)), func() {
				_ = d.String()
				d.GetUposathaMoon().NextUposatha()
				d.GetHalfMoon().IcalEvent()
				d.GetAstroMoon().IcalEvent()
				var l []suriya.CalDay
				for i := r.Rand.Intn(4); i > 0; i-- {
					l = append(l, oddCalDay(r.Rand), d)
				}
				suriya.AddHalfMoonDays(l)
				for _, e := range d.MajorEvents {
					e.IcalEvent()
					e.AddToDay(&d)
				}
				for _, e := range d.Events {
					e.IcalEvent()
					e.AddToDay(&d)
				}
				for _, e := range d.UposathaMoon {
					e.AddToDay(&d)
				}
				var empty suriya.CalDay
				_ = empty.String() + empty.GetUposathaMoon().String()
			})
			r.State("container", len(d.UposathaMoon), len(d.HalfMoon), len(d.AstroMoon), len(d.Events))
		case 3:
			y := r.Rand.Intn(12000) - 4000
			if r.Rand.Intn(10) == 0 {
				y = r.Rand.Intn(40001) - 20000
			}
			attempt(r, "generate", fmt.Sprint(y), func() { suriya.GenerateSolarYear(y) })
			r.State("generate", y/1000)
		default:
			from := oddTime(r.Rand)
			to := from.Add(time.Duration(r.Rand.Int63n(int64(3*366*24*time.Hour))) - 200*24*time.Hour)
			switch r.Rand.Intn(8) {
			case 0:
				to = from
			case 1: // end long before the start
				if o := oddTime(r.Rand); o.Before(from) {
					to = o
				}
			case 2:
				to = from.AddDate(40, 0, 0)
			}
			id := when(from) + " to " + when(to)
			attempt(r, "window", id, func() {
				l := suriya.GetCalDays(from, to)
				if to.Before(from) && len(l) > 0 {
					r.Fail("reversed", id, "the window %s holds %d days", id, len(l))
				}
			})
			attempt(r, "astro", id, func() { suriya.GetAstroMoons(from, to) })
			if k%50 == 0 { // nothing is stored for most of these years
				attempt(r, "astro", "year 1 to 10000", func() {
					suriya.GetAstroMoons(time.Time{}, time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC))
				})
			}
			r.State("window", to.Before(from), to.Equal(from), from.Year()/1000)
		}
	}
	suriya.UseExceptions = false
	for _, k := range []string{"next", "container", "generate", "window", "astro"} {
		r.Floor(k, 300)
	}
	hostileCommand(r)
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

// hostileCommand gives the command arguments no one should: it may refuse, never crash.
func hostileCommand(r *rt.R) {
	bin := os.Getenv("VMON_CLI")
	if bin == "" {
		return
	}
	base, err := os.MkdirTemp("", "hostile")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(base)
	dates := []string{"", "0000-01-01", "0001-01-01", "9999-12-31", "2015-02-29", "2016-02-29", "2015-13-01", "2015-00-00", "-001-01-01", "10000-01-01", "2015-1-1", "2015-01-01T00:00:00Z", "today", "%s%n", strings.Repeat("9", 5000), "２０１５-01-01", "2015-01-01\n", "1899-12-31", "2041-01-01", "0637-12-31", "0638-03-24"}
	for k := 0; k < r.N(60, 600); k++ {
		from, to := dates[r.Rand.Intn(len(dates))], dates[r.Rand.Intn(len(dates))]
		span := func(a, b string) bool { return len(a) == 10 && len(b) == 10 && a[:1] != b[:1] } // thousands of years
		if span(from, to) || from == "" || to == "" {
			to = from
		}
		args := []string{[]string{"caldays", "ical"}[k%2], "--from", from, "--to", to}
		if r.Rand.Intn(4) == 0 {
			args = append(args, "--output", []string{"/nonexistent/x", base, "", "a\nb", strings.Repeat("x", 300)}[r.Rand.Intn(5)])
		}
		line := cut(fmt.Sprintf("%q", args))
		o := command(r, base, []string{"TZ=" + []string{"", "UTC", "Pacific/Apia", "nonsense/zone"}[k%4]}, bin, args...)
		r.OK("command")
		if strings.Contains(o.err, "goroutine ") || strings.Contains(o.err, "panic:") || o.code == 2 && strings.Contains(o.err, "fatal error") {
			r.Fail("command-crash", line, "suriya %s crashed with code %d:\n%.3000s", line, o.code, o.err)
		}
		r.State("command", o.code, k%2)
	}
	r.Floor("command", 50)
}
