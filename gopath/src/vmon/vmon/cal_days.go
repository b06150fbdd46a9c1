//go:build calendar

package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

var phases = []string{"new", "waxing", "full", "waning"}

func someWord(rd *rand.Rand) string {
	w := []string{"", "Kathina", "Ajahn Chah's birthday", "Sīma", "100% — \"quoted\"", "two\nlines", "a"}
	if rd.Intn(12) == 0 {
		// a long text, cut at no particular place
		n := 20 + rd.Intn(400)
		if rd.Intn(8) == 0 {
			n = 4000 + rd.Intn(3000)
		}
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(w[1+rd.Intn(len(w)-1)])
			b.WriteString([]string{" ", ", ", "ā", "\t", ""}[rd.Intn(5)])
		}
		return b.String()
	}
	return w[rd.Intn(len(w))]
}

func someUp(rd *rand.Rand, at time.Time) suriya.UposathaMoon {
	if rd.Intn(8) == 0 {
		n := func() int { return []int{0, 1, -1, -15, 100, 1 << 30, rd.Intn(60) - 30}[rd.Intn(7)] }
		return suriya.UposathaMoon{Date: at, Calendar: n(), Status: n(), Phase: []string{"new", "full"}[rd.Intn(2)],
			Event: someWord(rd), S_Number: n(), S_Total: n(), U_Days: n(), M_Days: n(), LunarMonth: n(), LunarSeason: n(), LunarYear: n(),
			HasAdhikavara: rd.Intn(2) == 0, Source: someWord(rd), Comments: someWord(rd)}
	}
	return suriya.UposathaMoon{Date: at, Calendar: rd.Intn(4), Status: rd.Intn(3), Phase: []string{"new", "full"}[rd.Intn(2)],
		Event: []string{"", "magha", "asalha"}[rd.Intn(3)], S_Number: 1 + rd.Intn(10), S_Total: 8 + 2*rd.Intn(2), U_Days: 14 + rd.Intn(2),
		M_Days: 29 + rd.Intn(2), LunarMonth: 1 + rd.Intn(13), LunarSeason: 1 + rd.Intn(3), LunarYear: 1500 + rd.Intn(1200),
		HasAdhikavara: rd.Intn(2) == 0, Source: someWord(rd), Comments: someWord(rd)}
}

func someTime(rd *rand.Rand) time.Time {
	t := time.Date(700+rd.Intn(2300), time.Month(1+rd.Intn(12)), 1+rd.Intn(31), 0, 0, 0, 0, time.UTC)
	switch rd.Intn(3) {
	case 0:
		t = t.Add(time.Duration(rd.Int63n(86400e9)))
	case 1:
		t = time.Date(t.Year(), t.Month(), t.Day(), rd.Intn(24), rd.Intn(60), 0, 0, zones[rd.Intn(len(zones))])
	}
	return t
}

func title(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

func wantUpText(m suriya.UposathaMoon) string {
	if m.Phase == "" {
		return ""
	}
	season := map[int]string{1: "Hemanta", 2: "Gimha", 3: "Vassāna"}[m.LunarSeason]
	return fmt.Sprintf("%s Moon - %d day %s %d/%d", title(m.Phase), m.U_Days, season, m.S_Number, m.S_Total)
}

func wantMoonText(phase string) string {
	if phase == "" {
		return ""
	}
	return title(phase) + " Moon"
}

// same compares two texts of a day or a moon.
func dayKey(d suriya.CalDay) string {
	return when(d.Date) + fmt.Sprint(len(d.UposathaMoon), len(d.HalfMoon), len(d.AstroMoon), len(d.MajorEvents), len(d.Events)) + strings.Join(dayLists(d), "|")
}

func dayLists(d suriya.CalDay) (out []string) {
	for _, m := range d.UposathaMoon {
		out = append(out, upText(m))
	}
	for _, m := range d.HalfMoon {
		out = append(out, halfText(m))
	}
	for _, m := range d.AstroMoon {
		out = append(out, astroText(m))
	}
	for _, m := range d.MajorEvents {
		out = append(out, majorText(m))
	}
	for _, m := range d.Events {
		out = append(out, eventText(m))
	}
	return
}

func init() {
	cal("C20", "texts of all combinations of phase, days, season and place in season, of random moons and events, of days holding each subset; distinct: (table, queried text), (kind, parts present)", func(r *rt.R) {
		for _, phase := range []string{"new", "full", ""} {
			for days := 14; days <= 15; days++ {
				for season := 0; season <= 3; season++ {
					for n := 1; n <= 10; n++ {
						for _, total := range []int{8, 10} {
							m := someUp(r.Rand, someTime(r.Rand))
							m.Phase, m.U_Days, m.LunarSeason, m.S_Number, m.S_Total = phase, days, season, n, total
							r.Ev("String of an observance %d, %d, %d/%d", int64(days), int64(season), int64(n), int64(total))
							r.Eq("uposatha-text", upText(m), m.String(), wantUpText(m))
						}
					}
				}
			}
		}
		for i := 0; i < r.N(5000, 100000); i++ {
			at := someTime(r.Rand)
			if r.Rand.Intn(6) == 0 {
				at = time.Time{} // undated
			}
			p := append([]string{""}, phases...)[r.Rand.Intn(5)]
			h, a := suriya.HalfMoon{Date: at, Phase: p}, suriya.AstroMoon{Date: at, Phase: p}
			e := suriya.Event{Date: at, Calendar: r.Rand.Intn(4), Summary: someWord(r.Rand), Description: someWord(r.Rand)}
			u := someUp(r.Rand, at)
			r.Ev("texts")
			r.Eq("half-text", halfText(h), h.String(), wantMoonText(p))
			r.Eq("astro-text", astroText(a), a.String(), wantMoonText(p))
			r.Eq("event-text", eventText(e), e.String(), e.Summary)
			r.Eq("major-text", eventText(e), suriya.MajorEvent(e).String(), e.Summary)
			for k, ev := range []suriya.CalendarEvent{h, a, e, suriya.MajorEvent(e), u} {
				r.Eq("event-date", evText(ev), ev.GetDate() == at, true)
				_ = k
			}
			var d suriya.CalDay
			want := []string{"", "", ""}
			mask := r.Rand.Intn(32)
			if mask&1 != 0 {
				u.AddToDay(&d)
				want[0] = wantUpText(u)
			}
			if mask&2 != 0 {
				a.AddToDay(&d)
				want[1] = wantMoonText(p)
			}
			if mask&4 != 0 {
				h.AddToDay(&d)
				want[2] = wantMoonText(p)
			}
			if mask&8 != 0 {
				e.AddToDay(&d)
			}
			if mask&16 != 0 {
				suriya.MajorEvent(e).AddToDay(&d)
			}
			r.Eq("day-text", dayKey(d), d.String(), strings.Join(want, ", "))
			r.State("day", mask, p)
			if i%2000 == 0 {
				r.Sample("day", "%q", d.String())
			}
		}
		r.Floor("day-text", 4000)
	})

	cal("C22", "random sequences of additions (through AddToDay by value and by pointer, and the setters) to single days, half-moon expansion of random lists, sorting of random lists, with copies checked for not being changed behind their back; distinct: (kinds and counts held)", func(r *rt.R) {
		for i := 0; i < r.N(6000, 150000); i++ {
			var d suriya.CalDay
			var up, half, astro string
			var majors, events []string
			var date time.Time
			var hist []string
			n := 1 + r.Rand.Intn(14)
			if i%1000 == 500 {
				n = 60 + r.Rand.Intn(200)
			}
			var at0 time.Time
			var lastWords []string
			close := r.Rand.Intn(2) == 0
			words := func() (string, string, int) {
				if close && len(lastWords) > 0 && r.Rand.Intn(2) == 0 {
					return lastWords[0], lastWords[1], 1 // the very same again
				}
				lastWords = []string{someWord(r.Rand), someWord(r.Rand)}
				return lastWords[0], lastWords[1], r.Rand.Intn(4)
			}
			for s := 0; s < n; s++ {
				at := someTime(r.Rand)
				p := phases[r.Rand.Intn(4)]
				if s > 0 && close {
					// the day itself, next to it, or eight days after
					at = at0.Add([]time.Duration{0, 0, 1, 3600e9, 24 * 3600e9, 8 * 24 * 3600e9, -1}[r.Rand.Intn(7)])
				}
				if r.Rand.Intn(10) == 0 {
					at = time.Time{}
				}
				at0 = at
				if r.Rand.Intn(12) == 0 {
					p = ""
				}
				k := r.Rand.Intn(8)
				if len(lastWords) > 0 && close && r.Rand.Intn(2) == 0 {
					k = 3 + r.Rand.Intn(2)
				}
				hist = append(hist, fmt.Sprint(k))
				r.Ev("add kind %d", int64(k))
				switch k {
				case 0:
					m := someUp(r.Rand, at)
					m.AddToDay(&d)
					up, date = upText(m), at
				case 1:
					m := suriya.HalfMoon{Date: at, Phase: p}
					m.AddToDay(&d)
					half, date = halfText(m), at
				case 2:
					m := suriya.AstroMoon{Date: at, Phase: p}
					m.AddToDay(&d)
					astro, date = astroText(m), at
				case 3:
					sum, desc, c := words()
					m := suriya.MajorEvent{Date: at, Calendar: c, Summary: sum, Description: desc}
					m.AddToDay(&d)
					majors, date = append(majors, majorText(m)), at
				case 4:
					sum, desc, c := words()
					m := suriya.Event{Date: at, Calendar: c, Summary: sum, Description: desc}
					m.AddToDay(&d)
					events, date = append(events, eventText(m)), at
				case 5:
					m := someUp(r.Rand, at)
					d.SetUposathaMoon(m)
					up = upText(m)
				case 6:
					m := suriya.HalfMoon{Date: at, Phase: p}
					d.SetHalfMoon(m)
					half = halfText(m)
				case 7:
					m := suriya.AstroMoon{Date: at, Phase: p}
					d.SetAstroMoon(m)
					astro = astroText(m)
				}
				var want []string
				num := [3]int{}
				for j, t := range []string{up, half, astro} {
					if t != "" {
						want = append(want, t)
						num[j] = 1
					}
				}
				want = append(append(want, majors...), events...)
				r.OK("additions")
				id := strings.Join(hist, ",")
				if got := dayLists(d); strings.Join(got, "\n") != strings.Join(want, "\n") ||
					len(d.UposathaMoon) != num[0] || len(d.HalfMoon) != num[1] || len(d.AstroMoon) != num[2] || len(d.MajorEvents) != len(majors) || len(d.Events) != len(events) {
					r.Fail("additions", id, "after additions %s the day holds\n%s\nwant\n%s", id, strings.Join(got, "\n"), strings.Join(want, "\n"))
				}
				if !d.Date.Equal(date) {
					r.Fail("addition-date", id, "after additions %s the date is %v, want %v", id, d.Date, date)
				}
				gu, gh, ga := d.GetUposathaMoon(), d.GetHalfMoon(), d.GetAstroMoon()
				eu, eh, ea := up, half, astro
				if eu == "" {
					eu = upText(suriya.UposathaMoon{})
				}
				if eh == "" {
					eh = halfText(suriya.HalfMoon{})
				}
				if ea == "" {
					ea = astroText(suriya.AstroMoon{})
				}
				r.OK("readers")
				if upText(gu) != eu || halfText(gh) != eh || astroText(ga) != ea {
					r.Fail("readers", id, "after additions %s the readers give %s, %s, %s; want %s, %s, %s", id, upText(gu), halfText(gh), astroText(ga), eu, eh, ea)
				}
				// what a reader returned is the caller's own
				gu.Phase, gh.Phase, ga.Phase = "mine", "mine", "mine"
				if len(dayLists(d)) != len(want) || strings.Contains(strings.Join(dayLists(d), ""), "mine") {
					r.Fail("readers-own", id, "changing a moon read from a day changed the day")
				}
				r.State(num, len(majors), len(events))
			}
			if i%1500 == 0 {
				r.Sample("additions", "%s: %s", strings.Join(hist, ","), dayKey(d))
			}
		}
		expand(r)
		r.Floor("additions", 20000)
		r.Floor("expansion", 1000)
		r.Floor("sorted", 1000)
	})
}

// expand drives AddHalfMoonDays and the sorting of days.
func expand(r *rt.R) {
	for i := 0; i < r.N(2500, 60000); i++ {
		n := r.Rand.Intn(12)
		if i%100 == 3 {
			n = 50 + r.Rand.Intn([]int{100, 400, 1500}[r.Rand.Intn(3)])
		}
		if i == 803 || i%10000 == 9003 {
			n = 5000 + r.Rand.Intn(3000)
		}
		days := make([]suriya.CalDay, 0, n+r.Rand.Intn(20))
		var want []string
		var halves []string
		var source []suriya.CalDay
		if i%20 == 7 {
			// a piece of a real calendar, half moons and all
			from := time.Date(1950+r.Rand.Intn(100), time.Month(1+r.Rand.Intn(12)), 1, 0, 0, 0, 0, time.UTC)
			source = suriya.GetCalDays(from, from.AddDate(0, 1+r.Rand.Intn(4), 0))
			n = len(source)
		}
		base := time.Date(700+r.Rand.Intn(2300), time.Month(1+r.Rand.Intn(12)), 1, 0, 0, 0, 0, time.UTC)
		near := r.Rand.Intn(2) == 0
		half := func(at time.Time, phase string) {
			if p := map[string]string{"new": "waxing", "full": "waning"}[phase]; p != "" {
				h := model.Midnight(model.DayOf(at) + 8).Add(at.Sub(model.Midnight(model.DayOf(at))))
				e := suriya.CalDay{Date: h, HalfMoon: suriya.HalfMoonSliceSingle{{Date: h, Phase: p}}}
				halves = append(halves, dayKey(e))
			}
		}
		for j := 0; j < n; j++ {
			if source != nil {
				d := source[j]
				for _, m := range d.UposathaMoon {
					half(d.Date, m.Phase)
				}
				days = append(days, d)
				want = append(want, dayKey(d))
				continue
			}
			at := time.Date(700+r.Rand.Intn(2300), time.Month(1+r.Rand.Intn(12)), 1+r.Rand.Intn(31), 0, 0, 0, 0, time.UTC)
			if near {
				at = base.AddDate(0, 0, []int{0, 1, 8, 14, 15, 16, 22, 23}[r.Rand.Intn(8)]) // days the half moons may fall on
			}
			if r.Rand.Intn(4) == 0 {
				at = at.Add(time.Duration(r.Rand.Int63n(86400)) * time.Second)
			}
			d := suriya.CalDay{Date: at}
			if r.Rand.Intn(3) == 0 {
				suriya.MajorEvent{Date: at, Summary: someWord(r.Rand)}.AddToDay(&d)
			}
			if r.Rand.Intn(3) != 0 {
				m := someUp(r.Rand, at)
				m.Phase = []string{"new", "full", "new", "full", "waxing", "waning", "", "odd"}[r.Rand.Intn(8)]
				if r.Rand.Intn(4) == 0 {
					m.Date = []time.Time{{}, at.Add(9 * time.Hour), at.AddDate(0, 0, -1)}[r.Rand.Intn(3)] // the day's date is what counts
				}
				d.SetUposathaMoon(m)
				half(at, m.Phase)
			}
			if r.Rand.Intn(4) == 0 {
				d.SetAstroMoon(suriya.AstroMoon{Date: at, Phase: "full"})
			}
			if r.Rand.Intn(6) == 0 {
				d.SetHalfMoon(suriya.HalfMoon{Date: at, Phase: "waning"})
			}
			days = append(days, d)
			want = append(want, dayKey(d))
		}
		r.Ev("AddHalfMoonDays of %d days", int64(n))
		got := suriya.AddHalfMoonDays(days)
		var have []string
		for _, d := range got {
			have = append(have, dayKey(d))
		}
		r.OK("expansion")
		all := append(append([]string{}, want...), halves...)
		id := fmt.Sprintf("expansion %d", i)
		if strings.Join(have, "\n") != strings.Join(all, "\n") {
			r.Fail("expansion", id, "expanding %d days gives\n%s\nwant\n%s", n, strings.Join(have, "\n"), strings.Join(all, "\n"))
		}
		for j := range days {
			if dayKey(days[j]) != want[j] {
				r.Fail("expansion-given", id, "expanding changed a given day")
			}
		}
		r.State("expand", n, len(halves))
		// sorting
		list := append([]suriya.CalDay{}, got...)
		for j := range list {
			if r.Rand.Intn(5) == 0 {
				list[j].Date = list[j].Date.In(zones[r.Rand.Intn(len(zones))])
			}
			if j > 0 && r.Rand.Intn(9) == 0 {
				list[j].Date = list[j-1].Date.Add(time.Duration(r.Rand.Intn(3)-1) * time.Nanosecond)
			}
		}
		r.Rand.Shuffle(len(list), func(a, b int) { list[a], list[b] = list[b], list[a] })
		var before []string
		for _, d := range list {
			before = append(before, dayKey(d))
		}
		r.Ev("sort %d days", int64(len(list)))
		s := suriya.CalDaySlice(list)
		r.Eq("len", id, s.Len(), len(list))
		sort.Sort(s)
		var after []string
		for j, d := range list {
			after = append(after, dayKey(d))
			if j > 0 && d.Date.Before(list[j-1].Date) {
				r.Fail("sorted", id, "%s comes after %s", when(d.Date), when(list[j-1].Date))
			}
		}
		r.OK("sorted")
		if d := diff(after, before); d != "" {
			r.Fail("sorted-content", id, "sorting changed the days: %s", d)
		}
		for k := 0; k < 10 && len(list) > 1; k++ {
			a, b := r.Rand.Intn(len(list)), r.Rand.Intn(len(list))
			r.Eq("less", id, s.Less(a, b), list[a].Date.Before(list[b].Date))
			x, y := dayKey(list[a]), dayKey(list[b])
			s.Swap(a, b)
			if dayKey(list[a]) != y || dayKey(list[b]) != x {
				r.Fail("swap", id, "swapping %d and %d", a, b)
			}
			s.Swap(b, a)
		}
	}
}
