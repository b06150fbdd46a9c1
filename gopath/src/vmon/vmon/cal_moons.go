//go:build calendar

package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

func kattikaMoon(c *model.Cal, y int64) suriya.UposathaMoon {
	d := c.Kattika(y)
	return suriya.UposathaMoon{Date: model.Midnight(d), Phase: "full", S_Number: 8, S_Total: 8, U_Days: 15, M_Days: 29,
		LunarMonth: 12, LunarSeason: 3, LunarYear: int(y-1) + 543}
}

// checkNext decides one step of the succession; what comes next is a draft whatever it follows.
func checkNext(r *rt.R, from suriya.UposathaMoon, want model.Uposatha) suriya.UposathaMoon {
	got := from.NextUposatha()
	w := wantUp(want, 0)
	r.OK("next")
	if g, t := upText(got), upText(w); g != t {
		r.Fail("next", when(w.Date), "after %s\n  got  %s\n  want %s", upText(from), g, t)
	}
	r.StateH(rt.Mix(want.LunarMonth, want.UDays, want.MDays, want.SNumber, want.STotal, int64(len(want.Event)), model.Mod(want.Day, 7)))
	return got
}

func checkGenerated(r *rt.R, c *model.Cal, y int64, id string) {
	r.Ev("GenerateSolarYear(%d)", y)
	evs := suriya.GenerateSolarYear(int(y))
	var got []string
	for _, e := range evs {
		got = append(got, evText(e))
	}
	want := texts(yearItems(c, y))
	r.Add("generated", int64(len(want)))
	if d := diff(got, want); d != "" {
		r.Fail("generated", id, "generated year %d (%s): %s", y, id, d)
	}
}

func init() {
	queryCal = func(r *rt.R, id string, y int64, c *model.Cal) { checkGenerated(r, c, y, id) }
	querySteps = func(r *rt.R, id string, y int64, c *model.Cal) {
		from := kattikaMoon(c, y)
		l := c.LunarYear(y)
		first := 0
		switch r.Rand.Intn(4) {
		case 0: // any
			first = r.Rand.Intn(len(l))
		case 1, 2: // where the extra day goes
			for l[first].LunarMonth != 8 {
				first++
			}
		}
		if first > 0 {
			from = wantUp(l[first-1], 0)
		}
		for i, w := range l[first:] {
			got, want := from.NextUposatha(), wantUp(w, 0)
			r.OK("step")
			if g, t := upText(got), upText(want); g != t {
				r.Fail("step", fmt.Sprint(id, " ", i), "%s: after %s\n  got  %s\n  want %s", id, upText(from), g, t)
				return
			}
			from = got
			if w.LunarMonth == 8 && w.Phase == "new" && r.Rand.Intn(2) == 0 {
				return
			}
		}
	}

	cal("C04", "every generated observance day of 638..3500 against Meeus' mean new and full moons; distinct: (lunar day of Asalha, accumulated difference, offset in 1/20 day)", func(r *rt.R) {
		suriya.UseExceptions = false
		lo, hi := 99.0, -99.0
		tlo, thi := 99.0, -99.0
		for y := 638; y <= 3500; y++ {
			r.Ev("GenerateSolarYear(%d)", int64(y))
			n := 0
			for _, e := range suriya.GenerateSolarYear(y) {
				u, ok := e.(suriya.UposathaMoon)
				if !ok {
					continue
				}
				n++
				off := model.NearestLunation(model.DayOf(u.Date), u.Phase == "full")
				q := 0
				if u.Phase == "full" {
					q = 2
				}
				toff := model.NearestPhase(float64(model.DayOf(u.Date))+2440588-7.0/24, q)
				tlo, thi = math.Min(tlo, toff), math.Max(thi, toff)
				lo, hi = math.Min(lo, off), math.Max(hi, off)
				r.OK("observance-moon")
				if math.Abs(toff) > 2.5 {
					r.Fail("observance-true-moon", when(u.Date), "%s is %.2f days from the true %s moon", upText(u), toff, u.Phase)
				}
				if math.Abs(off) > 2 {
					r.Fail("observance-moon", when(u.Date), "%s is %.2f days from the mean %s moon", upText(u), off, u.Phase)
				}
				r.StateH(rt.Mix(7, int64(off*20), int64(u.LunarMonth)))
			}
			if n < 23 {
				r.Fail("observance-count", fmt.Sprint(y), "%d observance days in %d", n, y)
			}
		}
		r.Notes["observance_offset_from_mean_moon_days"] = []float64{lo, hi}
		r.Notes["observance_offset_from_true_moon_days"] = []float64{tlo, thi}
		r.Floor("observance-moon", 60000)
	})

	cal("C06", "and the Asalha the generated calendar marks", func(r *rt.R) {
		suriya.UseExceptions = false
		for _, p := range r.Rand.Perm(3500 - 638 + 1) {
			y := p + 638
			r.Ev("GenerateSolarYear(%d)", int64(y))
			su := newYear(int64(y))
			puja := su.AsalhaPuja()
			var ups, majors []time.Time
			for _, e := range suriya.GenerateSolarYear(y) {
				switch v := e.(type) {
				case suriya.UposathaMoon:
					if v.Event == "asalha" {
						ups = append(ups, v.Date)
					}
				case suriya.MajorEvent:
					if v.Summary == "Āsāḷha Pūjā" {
						majors = append(majors, v.Date)
					}
				}
			}
			r.OK("asalha-marked")
			if len(ups) != 1 || len(majors) != 1 || !ups[0].Equal(puja) || !majors[0].Equal(puja) {
				r.Fail("asalha-marked", fmt.Sprint(y), "Asalha Puja of %d is %v, the generated calendar has %v and %v", y, puja, ups, majors)
			}
		}
		r.Floor("asalha-marked", 2800)
	})

	cal("C12", "the chain followed link by link from the Kattika of 638 to 3500, from each Kattika on its own, and single steps from every observance day in shuffled order with the other fields at random; with exceptions off; distinct: (month, days, season place, event, weekday)", func(r *rt.R) {
		suriya.UseExceptions = false
		c := prepared(nil)
		var all []model.Uposatha
		for y := int64(638); y <= 3500; y++ {
			all = append(all, c.LunarYear(y)...)
		}
		// one long chain, each link from the library's own previous answer
		m := kattikaMoon(c, 638)
		for _, w := range all {
			r.Ev("NextUposatha after day %d", model.DayOf(m.Date))
			m = checkNext(r, m, w)
			if w.LunarMonth == 8 && w.Lunar%600 == 12 {
				r.Sample("link", "%s", upText(m))
			}
		}
		// each lunar year on its own, judged by what the property says of a whole year
		for _, p := range r.Rand.Perm(3500 - 638 + 1) {
			y := int64(p) + 638
			m := kattikaMoon(c, y)
			start := model.DayOf(m.Date)
			events, seen := map[string]int{}, 0
			for i := 0; i < 26; i++ {
				r.Ev("NextUposatha in lunar year %d, %d", y, int64(i))
				n := m.NextUposatha()
				if n.LunarMonth == 1 && n.Phase == "new" && i > 0 {
					break
				}
				m = n
				seen++
				if n.Event != "" {
					events[n.Event]++
					r.OK("event-phase")
					if n.Phase != "full" {
						r.Fail("event-phase", when(n.Date), "%s on a %s moon", n.Event, n.Phase)
					}
				}
			}
			su := newYear(y)
			r.EqI("year-sum", model.DayOf(m.Date)-start, int64(su.YearLength()), "days of the succession through lunar year %d", y)
			want := 24
			if su.Is_Adhikamasa() {
				want = 26
			}
			r.EqI("year-count", int64(seen), int64(want), "observance days of lunar year %d", y)
			r.OK("events-once")
			if len(events) != 4 || events["magha"] != 1 || events["vesakha"] != 1 || events["asalha"] != 1 || events["pavarana"] != 1 {
				r.Fail("events-once", fmt.Sprint(y), "events of lunar year %d: %v", y, events)
			}
		}
		for round := 0; round < r.N(1, 12); round++ {
			for _, p := range r.Rand.Perm(len(all) - 1) {
				from := wantUp(all[p], r.Rand.Intn(3))
				from.Source, from.Comments, from.Calendar = "x", "y", r.Rand.Intn(4)
				if r.Rand.Intn(2) == 0 {
					// what an observance day recalls about itself does not decide what comes next
					from.HasAdhikavara, from.Event, from.U_Days = r.Rand.Intn(2) == 0, "", 14+r.Rand.Intn(2)
				}
				r.Ev("NextUposatha after day %d", all[p].Day)
				checkNext(r, from, all[p+1])
				if p%4 == 0 {
					// as many days later at the same time of day, in whatever zone the day is given
					from.Date = from.Date.Add(time.Duration(r.Rand.Int63n(86400e9))).In(someFixed(r.Rand))
					got := from.NextUposatha()
					got.Date = got.Date.UTC()
					w := wantUp(all[p+1], 0)
					w.Date = from.Date.Add(time.Duration(all[p+1].UDays) * 24 * time.Hour).UTC()
					r.OK("next-time")
					if g, t := upText(got), upText(w); g != t {
						r.Fail("next-time", when(w.Date), "after %s\n  got  %s\n  want %s", upText(from), g, t)
					}
				}
			}
		}
		r.Floor("next", 130000)
	})

	cal("C13", "every year 638..3500 in shuffled order, twice (quick) or ten times, against the calendar laid out month by month; chain of the concatenated years; distinct: (number of events, kind of year, weekday of the first)", func(r *rt.R) {
		suriya.UseExceptions = false
		c := prepared(nil)
		type keptYear struct {
			y      int
			events []suriya.CalendarEvent
			text   string
		}
		all := func(evs []suriya.CalendarEvent) string {
			var b strings.Builder
			for _, e := range evs {
				b.WriteString(evText(e))
			}
			return b.String()
		}
		var kept []keptYear
		for round := 0; round < r.N(2, 10); round++ {
			for _, p := range r.Rand.Perm(3500 - 638 + 1) {
				y := int64(p) + 638
				checkGenerated(r, c, y, fmt.Sprint(y))
				if r.Rand.Intn(4) != 0 {
					continue
				}
				// what becomes of a list that was returned does not show in later ones,
				// nor later calls in it
				evs := suriya.GenerateSolarYear(int(y))
				kept = append(kept, keptYear{int(y), evs, all(evs)})
				if y > 640 && y < 3499 {
					checkGenerated(r, c, y+int64(r.Rand.Intn(5)-2), "beside "+fmt.Sprint(y))
				}
				for _, k := range kept {
					r.OK("kept")
					if t := all(k.events); t != k.text {
						r.Fail("kept", fmt.Sprint(k.y), "the list returned for %d has changed since, from %.400s to %.400s", k.y, k.text, t)
					}
				}
				if len(kept) > 3 {
					k := kept[0]
					kept = append([]keptYear{}, kept[1:]...)
					for i := range k.events {
						k.events[i] = suriya.MajorEvent{Summary: "scribbled"}
					}
					for i := 0; i < 3; i++ {
						k.events = append(k.events, suriya.MajorEvent{Summary: "scribbled"})
					}
					checkGenerated(r, c, int64(k.y), fmt.Sprintf("%d after an earlier answer was overwritten", k.y))
					r.OK("after-overwriting")
				}
			}
		}
		var last suriya.UposathaMoon
		nmajor := map[string]int{}
		for y := 638; y <= 3500; y++ {
			r.Ev("GenerateSolarYear(%d) in sequence", int64(y))
			evs := suriya.GenerateSolarYear(y)
			var ups []suriya.UposathaMoon
			for _, e := range evs {
				r.OK("midnight")
				if !model.IsMidnightUTC(e.GetDate()) || e.GetDate().Year() != y {
					r.Fail("midnight", when(e.GetDate()), "year %d holds %s", y, evText(e))
				}
				switch v := e.(type) {
				case suriya.UposathaMoon:
					ups = append(ups, v)
				case suriya.MajorEvent:
					nmajor[v.Summary]++
				}
			}
			for i := range ups {
				for j := i; j > 0 && ups[j].Date.Before(ups[j-1].Date); j-- {
					ups[j], ups[j-1] = ups[j-1], ups[j]
				}
			}
			for _, u := range ups {
				if !last.Date.IsZero() {
					days := model.DayOf(u.Date) - model.DayOf(last.Date)
					r.OK("gapless")
					if u.Phase == last.Phase || days != int64(u.U_Days) || u.Status != 2 {
						r.Fail("gapless", when(u.Date), "%s\n follows %s", upText(u), upText(last))
					}
				}
				last = u
			}
			if len(ups) == 0 {
				r.Fail("no-observances", fmt.Sprint(y), "the generated year %d has no observance days among its %d events", y, len(evs))
				continue
			}
			r.StateH(rt.Mix(int64(len(evs)), int64(len(ups)), c.Len(int64(y)), model.Mod(model.DayOf(ups[0].Date), 7)))
			if y%900 == 4 {
				r.Sample("year", "%d: %d events, first observance %s", y, len(evs), upText(ups[0]))
			}
		}
		for _, s := range []string{"Māgha Pūjā", "Vesākha Pūjā", "Āsāḷha Pūjā", "First day of Vassa", "Pavāraṇā Day", "Last day of Vassa"} {
			r.EqI("major-count", int64(nmajor[s]), 3500-638+1, "number of "+s)
		}
		r.Floor("generated", 300000)
		r.Floor("after-overwriting", 1000)
		r.Floor("gapless", 60000)
	})
}
