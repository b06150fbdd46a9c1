//go:build calendar

package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

// world is all there is to find in windows of 638..3100.
type world struct {
	items []item // sorted by instant
	cal   *model.Cal
	lo    int64
}

func newWorld(r *rt.R, exc map[int64]bool, lo, hi int64) *world {
	w := &world{cal: prepared(exc), lo: lo}
	for y := lo; y <= hi; y++ {
		w.items = append(w.items, yearItems(w.cal, y)...)
	}
	for _, a := range loadAstro(r) {
		w.items = append(w.items, item{a.at, a.text(), true})
	}
	sort.SliceStable(w.items, func(i, j int) bool { return w.items[i].at.Before(w.items[j].at) })
	return w
}

func (w *world) window(from, to time.Time) []item {
	i := sort.Search(len(w.items), func(i int) bool { return !w.items[i].at.Before(from) })
	j := sort.Search(len(w.items), func(i int) bool { return w.items[i].at.After(to) })
	if j < i {
		return nil
	}
	return w.items[i:j]
}

func dayTexts(d suriya.CalDay) (out []string) {
	for _, m := range d.UposathaMoon {
		out = append(out, upText(m))
	}
	for _, m := range d.HalfMoon {
		out = append(out, halfText(m))
	}
	for _, m := range d.AstroMoon {
		out = append(out, astroText(m))
	}
	for _, m := range d.MajorEvents {
		out = append(out, majorText(m))
	}
	for _, m := range d.Events {
		out = append(out, eventText(m))
	}
	sort.Strings(out)
	return
}

// checkDays decides whether a list of days is exactly the content of the window.
func checkDays(r *rt.R, w *world, days []suriya.CalDay, from, to time.Time, id string) bool {
	want := w.window(from, to)
	perDay := map[int64][]item{}
	var order []int64
	for _, i := range want {
		d := model.DayOf(i.at)
		if perDay[d] == nil {
			order = append(order, d)
		}
		perDay[d] = append(perDay[d], i)
	}
	r.OK("window")
	r.Add("window-item", int64(len(want)))
	fail := func(kind, f string, a ...interface{}) bool {
		r.Fail(kind, id, "window %s: %s", id, fmt.Sprintf(f, a...))
		return false
	}
	for i, d := range days {
		if i > 0 && !(model.DayOf(days[i-1].Date) < model.DayOf(d.Date)) {
			return fail("order", "entry %s follows %s", when(d.Date), when(days[i-1].Date))
		}
		if _, off := d.Date.Zone(); off != 0 {
			return fail("day-zone", "entry %s is not in UTC", when(d.Date))
		}
		if len(d.UposathaMoon) > 1 || len(d.HalfMoon) > 1 || len(d.AstroMoon) > 1 {
			return fail("single", "entry %s holds several moons of a kind", when(d.Date))
		}
		day := model.DayOf(d.Date)
		exp := perDay[day]
		if diff := diff(dayTexts(d), texts(exp)); diff != "" {
			return fail("content", "on %s: %s", ymd(day), diff)
		}
		at := model.Midnight(day)
		onlyAstro := true
		for _, e := range exp {
			onlyAstro = onlyAstro && e.astro
		}
		if onlyAstro {
			at = exp[0].at
		}
		if !d.Date.Equal(at) {
			return fail("day-date", "the entry of %s has date %s, want %s", ymd(day), when(d.Date), when(at))
		}
		r.StateH(rt.Mix(int64(len(exp)), int64(len(d.MajorEvents)), int64(len(d.AstroMoon)), int64(len(d.UposathaMoon)), model.Mod(day, 7)))
	}
	if len(days) != len(order) {
		var missing []string
		have := map[int64]bool{}
		for _, d := range days {
			have[model.DayOf(d.Date)] = true
		}
		for _, d := range order {
			if !have[d] {
				missing = append(missing, texts(perDay[d])...)
			}
		}
		return fail("missing-day", "%d entries, want %d; missing %s", len(days), len(order), diff(nil, missing))
	}
	return true
}

// someWindow makes windows with ends on, next to and between events.
func someWindow(rd *rand.Rand, w *world) (from, to time.Time) {
	end := func(near time.Time) time.Time {
		switch rd.Intn(8) {
		case 0, 1: // on or next to something that happens
			i := sort.Search(len(w.items), func(i int) bool { return !w.items[i].at.Before(near) })
			if i < len(w.items) {
				return w.items[i].at.Add(time.Duration(rd.Intn(3)-1) * time.Nanosecond)
			}
		case 2: // midnight and its neighbours
			return model.Midnight(model.DayOf(near)).Add(time.Duration(rd.Intn(3)-1) * time.Nanosecond)
		case 3: // around New Year
			return time.Date(near.Year(), 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(rd.Intn(5)-2) * 13 * time.Hour)
		case 4: // the last days of a year
			return time.Date(near.Year(), 12, 22+rd.Intn(10), rd.Intn(24), 0, 0, 0, time.UTC)
		}
		return near
	}
	lo, hi := time.Date(700, 1, 2, 0, 0, 0, 0, time.UTC).Unix(), time.Date(2999, 12, 30, 0, 0, 0, 0, time.UTC).Unix()
	if rd.Intn(2) == 0 {
		lo, hi = time.Date(1895, 1, 1, 0, 0, 0, 0, time.UTC).Unix(), time.Date(2045, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	}
	from = time.Unix(lo+rd.Int63n(hi-lo), rd.Int63n(1e9)).UTC()
	spans := []int64{86400, 4 * 86400, 20 * 86400, 40 * 86400, 366 * 86400, 3 * 366 * 86400}
	k := rd.Intn(len(spans))
	if rd.Intn(60) == 0 {
		spans[k] = 60 * 366 * 86400
	}
	to = from.Add(time.Duration(rd.Int63n(spans[k])) * time.Second)
	from, to = end(from), end(to)
	max := time.Date(3000, 12, 31, 23, 0, 0, 0, time.UTC)
	if to.After(max) {
		to = max
	}
	if min := time.Date(700, 1, 1, 0, 0, 0, 0, time.UTC); from.Before(min) {
		from = min
	}
	if rd.Intn(40) == 0 {
		from, to = to, from
	}
	if rd.Intn(30) == 0 {
		to = from
	}
	return from.In(someZone(rd)), to.In(someZone(rd))
}

type keptDays struct {
	days []suriya.CalDay
	text string
	id   string
	at   int
}

func daysText(days []suriya.CalDay) string {
	var b strings.Builder
	for _, d := range days {
		b.WriteString(dayKey(d))
	}
	return b.String()
}

func winID(from, to time.Time) string {
	return from.Format(time.RFC3339Nano) + " .. " + to.Format(time.RFC3339Nano)
}

// scribble overwrites everything reachable from a result.
func scribble(days []suriya.CalDay) {
	for i := range days {
		d := &days[i]
		for j := range d.UposathaMoon {
			d.UposathaMoon[j] = suriya.UposathaMoon{Phase: "scribbled", LunarMonth: 99}
		}
		for j := range d.HalfMoon {
			d.HalfMoon[j] = suriya.HalfMoon{Phase: "scribbled"}
		}
		for j := range d.AstroMoon {
			d.AstroMoon[j] = suriya.AstroMoon{Phase: "scribbled"}
		}
		for j := range d.MajorEvents {
			d.MajorEvents[j] = suriya.MajorEvent{Summary: "scribbled"}
		}
		d.MajorEvents = append(d.MajorEvents, suriya.MajorEvent{Summary: "scribbled"})
		d.Date = time.Time{}
	}
	for i := range days {
		days[i] = suriya.CalDay{}
	}
	_ = append(days[:0], suriya.CalDay{Date: time.Unix(1, 1)})
}

func init() {
	cal("C14", "random windows in 700..3000, half of them where astronomical moons are recorded, ends on/next to events, midnights, year ends, random instants, in 14 time zones, reversed and empty ones; each compared day by day with the calendar laid out month by month plus the shipped moon records; splits at midnights and month ends; answers asked again after the returned lists were overwritten, and looked at again after later calls; the same calendar days, months and years at other times of day; windows of more than a century; windows with the exceptions on; every day of several years as a window; distinct: (content of a day, weekday)", func(r *rt.R) {
		suriya.UseExceptions = false
		w := newWorld(r, nil, 690, 3010)
		ask := func(from, to time.Time) []suriya.CalDay {
			r.Ev("GetCalDays(%d s, %d s) + %d ns, %d ns", from.Unix(), to.Unix(), int64(from.Nanosecond()), int64(to.Nanosecond()))
			return suriya.GetCalDays(from, to)
		}
		var kept []*keptDays
		for i := 0; i < r.N(6000, 120000); i++ {
			from, to := someWindow(r.Rand, w)
			id := winID(from, to)
			days := ask(from, to)
			if to.Before(from) {
				r.OK("reversed")
				if len(days) != 0 {
					r.Fail("reversed", id, "window %s, which ends before it begins, has %d entries", id, len(days))
				}
				continue
			}
			if !checkDays(r, w, days, from, to, id) {
				continue
			}
			if i%500 == 0 {
				r.Sample("window", "%s: %d entries, %d items", id, len(days), len(w.window(from, to)))
			}
			// an answer given some calls ago is still what it was
			for _, k := range kept {
				r.OK("kept")
				if t := daysText(k.days); t != k.text {
					r.Fail("kept", k.id, "the list returned for window %s has changed %d calls later, from %.500s to %.500s", k.id, i-k.at, k.text, t)
					k.text = t
				}
			}
			if i%5 != 0 {
				kept = append(kept, &keptDays{days, daysText(days), id, i})
				if len(kept) > 3 {
					kept = kept[1:]
				}
			}
			if i%5 == 0 {
				scribble(days)
				if !checkDays(r, w, ask(from, to), from, to, id+" after the first answer was overwritten") {
					continue
				}
				r.OK("after-overwriting")
			}
			if i%4 == 0 && to.Sub(from) > 48*time.Hour && to.Sub(from) < 3000*24*time.Hour {
				// whole against parts, without the model
				a, b := model.DayOf(from)+1, model.DayOf(to)
				if a <= b {
					cut := model.Midnight(a + r.Rand.Int63n(b-a+1)).In(someZone(r.Rand))
					var parts, whole []string
					for _, d := range ask(from, cut.Add(-1)) {
						parts = append(parts, dayTexts(d)...)
					}
					for _, d := range ask(cut, to) {
						parts = append(parts, dayTexts(d)...)
					}
					for _, d := range ask(from, to) {
						whole = append(whole, dayTexts(d)...)
					}
					r.OK("split")
					if d := diff(parts, whole); d != "" {
						r.Fail("split", id, "window %s cut at %s: %s", id, when(cut), d)
					}
				}
			}
		}
		// every single day of some years as its own window, in zones
		years := []int{1986, 2012, 2016, 2033}
		for i := 0; i < r.N(4, 60); i++ {
			years = append(years, 700+r.Rand.Intn(2300))
		}
		for _, y := range years {
			for d := -2; d <= 368; d++ {
				from := time.Date(y, 1, 1+d, 0, 0, 0, 0, time.UTC)
				to := from.AddDate(0, 0, 1).Add(-1)
				z := someZone(r.Rand)
				if d%2 == 0 {
					z = time.UTC
				}
				checkDays(r, w, ask(from.In(z), to.In(z)), from, to, winID(from.In(z), to.In(z)))
			}
		}
		// calendar days of a place
		for i := 0; i < r.N(600, 8000); i++ {
			z := zones[r.Rand.Intn(len(zones))]
			y := 1890 + r.Rand.Intn(160)
			from := time.Date(y, time.Month(1+r.Rand.Intn(12)), 1, 0, 0, 0, 0, z)
			to := from.AddDate(0, 1+r.Rand.Intn(3), 0)
			checkDays(r, w, ask(from, to), from, to, winID(from, to))
		}
		// windows whose ends lie in other years at their place than in UTC, with
		// something happening between the two New Years
		for _, it := range w.items {
			t := it.at
			yday := t.YearDay()
			if yday > 1 && yday < 365 || t.Year() < 705 || t.Year() > 2990 || r.Rand.Intn(r.N(4, 1)) != 0 {
				continue
			}
			for k := 0; k < 3; k++ {
				z, z2 := someZone(r.Rand), zones[r.Rand.Intn(len(zones))]
				e := t.Add(time.Duration(r.Rand.Intn(2)*r.Rand.Intn(12*3600)) * time.Second)
				from, to := t.AddDate(0, 0, -r.Rand.Intn(40)), e
				if k == 1 {
					from, to = t.Add(-time.Duration(r.Rand.Intn(2)*r.Rand.Intn(14*3600))*time.Second), t.AddDate(0, 0, r.Rand.Intn(40))
				}
				checkDays(r, w, ask(from.In(z2), to.In(z)), from, to, winID(from.In(z2), to.In(z)))
				r.OK("new-year")
			}
		}
		// the same calendar days, months and years again, with their ends at other
		// times of day and in other zones
		for i := 0; i < r.N(150, 3000); i++ {
			t := w.items[r.Rand.Intn(len(w.items))].at
			if i%2 == 0 {
				t = time.Date(1896+r.Rand.Intn(150), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
			}
			if t.Year() < 702 || t.Year() > 2996 {
				continue
			}
			a, b := model.Midnight(model.DayOf(t)), model.Midnight(model.DayOf(t))
			switch i % 3 {
			case 0:
				a, b = time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC), time.Date(t.Year()+r.Rand.Intn(2), 12, 31, 0, 0, 0, 0, time.UTC)
			case 1:
				a = time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
				b = a.AddDate(0, 1, -1)
			}
			for k := 0; k < 4; k++ {
				from, to := a, b
				if k > 0 && r.Rand.Intn(2) == 0 {
					from = a.Add(time.Duration(r.Rand.Int63n(86400e9)))
				}
				if r.Rand.Intn(3) > 0 {
					to = b.Add(time.Duration(r.Rand.Int63n(86400e9)))
				}
				from, to = from.In(someZone(r.Rand)), to.In(someZone(r.Rand))
				if to.Before(from) {
					continue
				}
				days := ask(from, to)
				checkDays(r, w, days, from, to, winID(from, to))
				scribble(days)
				r.OK("same-days")
			}
		}
		// windows of more than a century
		for i := 0; i < r.N(3, 12); i++ {
			y, n := 1860+r.Rand.Intn(60), r.N(102+r.Rand.Intn(60), 102+r.Rand.Intn(400))
			if i%3 == 2 {
				y = 700 + r.Rand.Intn(2290-n)
			}
			from := time.Date(y, time.Month(1+r.Rand.Intn(12)), 1+r.Rand.Intn(28), 0, 0, 0, 0, time.UTC)
			to := from.AddDate(n, r.Rand.Intn(12), 0)
			checkDays(r, w, ask(from, to), from, to, winID(from, to))
			r.OK("long-window")
		}
		// longer ones whose ends are days that hold an event
		for i, n := range []int{200, 250, 300, 350, 400}[:r.N(1, 5)] {
			at := func(y int) time.Time {
				l := suriya.GenerateSolarYear(y)
				return l[r.Rand.Intn(len(l))].GetDate()
			}
			y := 700 + r.Rand.Intn(2290-n)
			if i == 0 {
				y = 1885 + r.Rand.Intn(40)
			}
			from, to := at(y), at(y+n)
			checkDays(r, w, ask(from, to), from, to, winID(from, to))
			r.OK("long-window")
		}
		suriya.UseExceptions = true
		we := newWorld(r, map[int64]bool{1994: false, 1997: true}, 1900, 2060)
		for i := 0; i < r.N(200, 4000); i++ {
			from := time.Date(1985+r.Rand.Intn(20), time.Month(1+r.Rand.Intn(12)), 1+r.Rand.Intn(28), r.Rand.Intn(24), 0, 0, 0, someZone(r.Rand))
			to := from.AddDate(0, r.Rand.Intn(30), r.Rand.Intn(30))
			checkDays(r, we, ask(from, to), from, to, "exceptions on, "+winID(from, to))
		}
		suriya.UseExceptions = false
		r.Floor("window", 5000)
		r.Floor("window-item", 100000)
		r.Floor("split", 300)
		r.Floor("long-window", 3)
		r.Floor("new-year", 250)
	})

	cal("C15", "the instant of every shipped record as a one-instant window and its +-1 ns neighbours as window ends, all pairs of years 1880..2060 (a sample in quick) with ends inside the years, random windows, in 14 zones, against the files parsed without the library; distinct: (phase, month, hour) of returned moons", func(r *rt.R) {
		recs := loadAstro(r)
		if len(recs) < 6000 {
			r.Fail("shipped", "records", "the data files hold %d records", len(recs))
			return
		}
		r.Notes["records"] = len(recs)
		type keptMoons struct {
			moons []suriya.AstroMoon
			text  string
			id    string
		}
		moonsText := func(l []suriya.AstroMoon) string {
			var b strings.Builder
			for _, m := range l {
				b.WriteString(astroText(m))
			}
			return b.String()
		}
		var kept []keptMoons
		check := func(from, to time.Time) {
			r.Ev("GetAstroMoons(%d s, %d s) + %d ns, %d ns", from.Unix(), to.Unix(), int64(from.Nanosecond()), int64(to.Nanosecond()))
			got := suriya.GetAstroMoons(from, to)
			var want []astroRec
			for _, a := range recs {
				if !a.at.Before(from) && !a.at.After(to) {
					want = append(want, a)
				}
			}
			r.OK("query")
			r.Add("record", int64(len(want)))
			id := winID(from, to)
			for i := 0; i < len(got) || i < len(want); i++ {
				g, x := "nothing", "nothing"
				if i < len(got) {
					g = astroText(got[i])
				}
				if i < len(want) {
					x = want[i].text()
				}
				if g != x {
					r.Fail("moons", id, "window %s: moon %d of %d is %s, want %s", id, i, len(want), g, x)
					return
				}
			}
			if len(got) > 0 && len(got) < 100 && r.Rand.Intn(4) == 0 {
				// an answer given some calls ago is still what it was; overwriting one
				// does not show in those that follow
				kept = append(kept, keptMoons{got, moonsText(got), id})
				if len(kept) > 3 {
					k := kept[0]
					kept = append([]keptMoons{}, kept[1:]...)
					r.OK("kept")
					if t := moonsText(k.moons); t != k.text {
						r.Fail("kept", k.id, "the list returned for window %s has changed since, from %.500s to %.500s", k.id, k.text, t)
					}
					for i := range k.moons {
						k.moons[i] = suriya.AstroMoon{Phase: "scribbled"}
					}
					_ = append(k.moons, suriya.AstroMoon{Phase: "scribbled"})
				}
			}
			for _, a := range want {
				r.StateH(rt.Mix(int64(len(a.phase)), int64(a.phase[0]), int64(a.at.Month()), int64(a.at.Hour())))
			}
		}
		z := func(t time.Time) time.Time { return t.In(someZone(r.Rand)) }
		for _, i := range r.Rand.Perm(len(recs)) {
			t := recs[i].at
			check(z(t), z(t))
			if i%3 == 0 || r.Thorough {
				check(z(t.Add(1)), z(t.AddDate(0, 0, r.Rand.Intn(12))))
				check(z(t.AddDate(0, 0, -r.Rand.Intn(12))), z(t.Add(-1)))
				check(z(t.Add(-1)), z(t.Add(1)))
			}
		}
		for a := 1880; a <= 2060; a++ {
			for b := a; b <= 2060; b++ {
				if !r.Thorough && r.Rand.Intn(40) != 0 {
					continue
				}
				from := time.Date(a, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(r.Rand.Int63n(365*86400)) * time.Second)
				to := time.Date(b, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(r.Rand.Int63n(365*86400)) * time.Second)
				if r.Rand.Intn(3) == 0 {
					from, to = time.Date(a, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(b, 12, 31, 0, 0, 0, 0, time.UTC)
				}
				check(z(from), z(to))
			}
		}
		for i := 0; i < r.N(3000, 60000); i++ {
			from := time.Unix(-2300000000+r.Rand.Int63n(4700000000), r.Rand.Int63n(1e9))
			to := from.Add(time.Duration(r.Rand.Int63n(400*86400)) * time.Second)
			if i%100 == 0 {
				from, to = to, from
			}
			check(z(from), z(to))
		}
		// the turn of each year, in every zone
		for y := 1895; y <= 2045; y++ {
			for _, l := range zones {
				if !r.Thorough && r.Rand.Intn(3) != 0 {
					continue
				}
				t := time.Date(y, 1, 1, 0, 0, 0, 0, l)
				check(t.AddDate(0, 0, -r.Rand.Intn(9)), t.Add(-1))
				check(t, t.AddDate(0, 0, r.Rand.Intn(9)))
			}
		}
		// windows of centuries around the records, and beside them
		for i := 0; i < r.N(30, 300); i++ {
			from := time.Date(1+r.Rand.Intn(2100), time.Month(1+r.Rand.Intn(12)), 1+r.Rand.Intn(28), r.Rand.Intn(24), 0, 0, 0, time.UTC)
			to := time.Date(1850+r.Rand.Intn(3000), time.Month(1+r.Rand.Intn(12)), 1+r.Rand.Intn(28), r.Rand.Intn(24), 0, 0, 0, time.UTC)
			check(z(from), z(to))
			r.OK("centuries")
		}
		// years that are far from the records but share their last digits, or
		// lie on the other side of the year 0: nothing is recorded there
		for i := 0; i < r.N(1200, 12000); i++ {
			y := 1890 + r.Rand.Intn(160)
			y = []int{y + 10000, y + 20000, y + 100000, -y, y - 2000, y % 100, y - 100*(1+r.Rand.Intn(19)), y + 100*(2+r.Rand.Intn(80)), y * 10, y - 65536, y + 65536, y + 32768}[i%12]
			from := time.Date(y, time.Month(1+r.Rand.Intn(12)), 1+r.Rand.Intn(28), r.Rand.Intn(24), 0, 0, 0, time.UTC)
			check(z(from), z(from.AddDate(r.Rand.Intn(3), r.Rand.Intn(12), r.Rand.Intn(28))))
			r.OK("far-years")
		}
		// the same calendar days, months and years of records, in other zones and
		// with their ends at other times of day, one after the other
		for i := 0; i < r.N(400, 4000); i++ {
			t := recs[r.Rand.Intn(len(recs))].at
			a, b := model.Midnight(model.DayOf(t)), model.Midnight(model.DayOf(t))
			switch i % 3 {
			case 0:
				a, b = time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC), time.Date(t.Year()+r.Rand.Intn(2), 12, 31, 0, 0, 0, 0, time.UTC)
			case 1:
				a = time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
				b = a.AddDate(0, 1, -1)
			}
			for k := 0; k < 4; k++ {
				from, to := a, b
				if k > 0 && r.Rand.Intn(2) == 0 {
					from = a.Add(time.Duration(r.Rand.Int63n(86400e9)))
				}
				if r.Rand.Intn(3) > 0 {
					to = b.Add(time.Duration(r.Rand.Int63n(86400e9)))
				}
				check(z(from), z(to))
				l := suriya.GetAstroMoons(z(from), z(to))
				for n := range l {
					l[n] = suriya.AstroMoon{Phase: "scribbled"}
				}
				_ = append(l, suriya.AstroMoon{Phase: "scribbled"})
				r.OK("same-days")
			}
		}
		// the same windows again, each answer overwritten before the next is asked for
		for i := 0; i < r.N(2000, 20000); i++ {
			k := r.Rand.Intn(len(recs))
			from, to := recs[k].at, recs[k].at.AddDate(0, r.Rand.Intn(20), 0)
			for j := 0; j < 2; j++ {
				check(from, to)
				l := suriya.GetAstroMoons(from, to)
				for n := range l {
					l[n] = suriya.AstroMoon{Phase: "scribbled"}
				}
				_ = append(l, suriya.AstroMoon{Phase: "scribbled"})
			}
			r.OK("after-overwriting")
		}
		r.Floor("centuries", 30)
		r.Floor("far-years", 1000)
		r.Floor("kept", 1000)
		r.Sample("record", "%s", recs[0].text())
		r.Sample("record", "%s", recs[len(recs)-1].text())
		r.Floor("record", 20000)
		r.Floor("query", 10000)
	})
}
