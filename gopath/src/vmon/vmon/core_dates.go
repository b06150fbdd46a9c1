package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

var day0 = model.DaysFromCivil(638, 3, 24)

func prepared(exc map[int64]bool) *model.Cal {
	c := &model.Cal{Exc: exc}
	c.Kattika(3600)
	c.Kattika(600)
	return c
}

func ymd(d int64) string {
	y, m, dd := model.CivilFromDays(d)
	return fmt.Sprintf("%04d-%02d-%02d", y, m, dd)
}

// checkDate decides whether a returned instant is midnight UTC of a day.
func checkDate(r *rt.R, kind, what string, got time.Time, want int64) bool {
	r.OK(kind)
	if !model.IsMidnightUTC(got) || model.DayOf(got) != want || got.Location() != time.UTC && got.Location().String() != "UTC" {
		r.Fail(kind, what, "%s: got %v, want midnight UTC of %s", what, got, ymd(want))
		return false
	}
	y, m, d := model.CivilFromDays(want)
	if int64(got.Year()) != y || int64(got.Month()) != m || int64(got.Day()) != d {
		r.Fail(kind, what, "%s: date %v, want %s", what, got, ymd(want))
		return false
	}
	return true
}

func init() {
	core("C04", "Asalha Puja of every year 638..3500 against the era's lunar day and Meeus' mean full moon, cumulative lunar against solar year lengths;", func(r *rt.R) {
		suriya.UseExceptions = false
		lo, hi := 99.0, -99.0
		var lunar int64
		dlo, dhi := int64(1<<40), int64(-1<<40)
		hist := map[string]int64{}
		h0 := int64(newYear(638).Horakhun)
		for y := int64(638); y <= 3500; y++ {
			su := newYear(y)
			r.Ev("AsalhaPuja(%d)", y)
			d := model.DayOf(su.AsalhaPuja())
			_, _, t := model.Moon(d - day0)
			hist[fmt.Sprint("tithi ", t)]++
			r.OK("asalha-tithi")
			if t < 14 || t > 15 {
				r.Fail("asalha-tithi", fmt.Sprint(y), "Asalha Puja of %d, %s, has lunar day %d", y, ymd(d), t)
			}
			off := model.NearestLunation(d, true)
			lo, hi = math.Min(lo, off), math.Max(hi, off)
			r.OK("asalha-full-moon")
			if math.Abs(off) > 1.5 {
				r.Fail("asalha-full-moon", fmt.Sprint(y), "Asalha Puja of %d, %s, is %.2f days from a mean full moon", y, ymd(d), off)
			}
			if toff := model.NearestPhase(float64(d)+2440588-7.0/24, 2); math.Abs(toff) > 2.5 {
				r.Fail("asalha-true-moon", fmt.Sprint(y), "Asalha Puja of %d, %s, is %.2f days from the true full moon", y, ymd(d), toff)
			}
			lunar += int64(su.YearLength())
			next := newYear(y + 1)
			drift := lunar - (int64(next.Horakhun) - h0)
			if drift < dlo {
				dlo = drift
			}
			if drift > dhi {
				dhi = drift
			}
			r.OK("drift")
			if drift < -30 || drift > 30 {
				r.Fail("drift", fmt.Sprint(y), "lunar years 638..%d are %d days ahead of the solar years", y, drift)
			}
			r.StateH(rt.Mix(t, drift, int64(off*20)))
			if y%600 == 0 {
				r.Sample("asalha", "%d: %s, lunar day %d, %.2f days from the mean full moon, accumulated difference %d days", y, ymd(d), t, off, drift)
			}
		}
		r.Notes["asalha_lunar_days"] = hist
		r.Notes["asalha_offset_from_mean_full_moon_days"] = []float64{lo, hi}
		r.Notes["accumulated_difference_days"] = []int64{dlo, dhi}
		r.Floor("asalha-tithi", 2800)
	})

	core("C05", "all years 1800..2200 with the default table off/on/off, then random sequences of switching, table edits (years without an extra month) and queries, in 1800..2200 and anywhere in the era;", func(r *rt.R) {
		r.OK("default-off")
		if suriya.UseExceptions {
			r.Fail("default-off", "default", "the exceptions switch is on by default")
		}
		r.OK("default-table")
		if t := suriya.AdhikavaraExceptions; len(t) != 2 || t[1994] || !t[1997] {
			r.Fail("default-table", "default", "the default table is %v", t)
		}
		original := map[int]bool{}
		for k, v := range suriya.AdhikavaraExceptions {
			original[k] = v
		}
		reset := func() {
			suriya.UseExceptions = false
			t := map[int]bool{}
			for k, v := range original {
				t[k] = v
			}
			suriya.AdhikavaraExceptions = t
		}
		defer reset()
		table := map[int64]bool{1994: false, 1997: true}
		on := false
		hist := ""
		off := prepared(nil)
		cur := off
		set := func() {
			suriya.UseExceptions = on
			cur = off
			if on {
				t := map[int64]bool{}
				for k, v := range table {
					t[k] = v
				}
				cur = prepared(t)
			}
		}
		query := func(y int64, kind int) {
			su := newYear(y)
			s := int64(0)
			if on {
				s = 1
			}
			r.Ev("query kind %d of %d, exceptions %d", int64(kind), y, s)
			id := fmt.Sprintf("year %d, exceptions %v, table %v", y, on, table)
			switch kind {
			case 0:
				r.Eq("is-adhikavara", id, su.Is_Adhikavara(), cur.IsV(y))
			case 1:
				r.Eq("year-length", id, int64(su.YearLength()), cur.Len(y))
			case 2:
				checkDate(r, "asalha", id, su.AsalhaPuja(), cur.Asalha(y))
			case 3:
				checkDate(r, "kattika", id, suriya.CalculatePreviousKattika(int(y)), cur.Kattika(y))
			case 4:
				r.Eq("is-adhikamasa", id, su.Is_Adhikamasa(), model.IsM(y))
				r.Eq("would-be-adhikavara", id, su.Would_Be_Adhikavara(), model.WouldV(y))
				r.Eq("carried", id, su.Has_Carried_Adhikavara(), model.CarryV(y))
			case 5:
				if queryCal != nil {
					queryCal(r, id, y, cur)
				}
			case 6:
				if queryCal != nil {
					querySteps(r, id, y, cur)
				}
			}
			r.StateH(rt.Mix(int64(kind), s, cur.Len(y), y-1994, int64(len(table))))
		}
		for _, v := range []bool{false, true, false, true, false} {
			on = v
			r.Ev("UseExceptions")
			set()
			for y := int64(1800); y <= 2200; y++ {
				for k := 0; k < 7; k++ {
					query(y, k)
				}
			}
		}
		_ = hist
		for round := 0; round < r.N(30, 400); round++ {
			for step := 0; step < 12; step++ {
				switch r.Rand.Intn(4) {
				case 0:
					on = !on
				case 1:
					y := 1900 + r.Rand.Int63n(200)
					if !model.IsM(y) {
						v := r.Rand.Intn(2) == 0
						table[y] = v
						suriya.AdhikavaraExceptions[int(y)] = v
					}
				case 2:
					if len(table) > 0 {
						var listed []int
						for y := range table {
							listed = append(listed, int(y))
						}
						sort.Ints(listed)
						y := listed[r.Rand.Intn(len(listed))]
						delete(table, int64(y))
						delete(suriya.AdhikavaraExceptions, y)
					}
				case 3:
					if r.Rand.Intn(4) == 0 {
						// the table replaced as a whole
						table = map[int64]bool{1994: false, 1997: true}
						t := map[int]bool{1994: false, 1997: true}
						suriya.AdhikavaraExceptions = t
					}
				}
				set()
				for q := 0; q < 40; q++ {
					y := 1800 + r.Rand.Int63n(401)
					if q%2 == 0 {
						y = 1985 + r.Rand.Int63n(20)
					}
					query(y, r.Rand.Intn(7))
				}
				if round%20 == 0 && step == 6 {
					r.Sample("setting", "exceptions %v, table %v, length of 1994 %d, of 1997 %d, Asalha 1996 %s", on, table, cur.Len(1994), cur.Len(1997), ymd(cur.Asalha(1996)))
				}
			}
		}
		// tables of many entries anywhere in the era; each entry asked about
		// just before and just after it is made or taken away
		for round := 0; round < r.N(25, 300); round++ {
			first := 645 + r.Rand.Int63n(2800)
			table = map[int64]bool{}
			suriya.AdhikavaraExceptions = map[int]bool{}
			on = true
			if round%4 == 3 {
				// A long table to begin with, its years kept in step with the
				// sun: the days it adds and takes away nearly cancel.
				left, lead := 20+r.Rand.Intn(300), int64(0)
				for y := first - 150; y < first+190; y++ {
					if y < 645 || model.IsM(y) || r.Rand.Intn(340) >= left {
						continue
					}
					v := r.Rand.Intn(3) != 0
					d := int64(0)
					switch pure := off.IsV(y); {
					case v && !pure:
						d = 1
					case !v && pure:
						d = -1
					}
					if lead+d < -5 || lead+d > 5 {
						v, d = !v, 0
					}
					lead += d
					table[y] = v
					suriya.AdhikavaraExceptions[int(y)] = v
				}
			}
			set()
			for step := 0; step < 12; step++ {
				y := first + r.Rand.Int63n(40)
				switch r.Rand.Intn(3) {
				case 0: // next to a carried day
					for k := int64(0); k < 40; k++ {
						if model.CarryV(first + k) {
							y = first + k + r.Rand.Int63n(3) - 1
						}
					}
				case 1: // next to an extra month
					for k := int64(0); k < 40 && !model.IsM(y-1); k++ {
						y++
					}
				}
				if model.IsM(y) {
					continue
				}
				kind := r.Rand.Intn(7)
				asked := y + []int64{0, 0, 1, -1, 2}[r.Rand.Intn(5)]
				query(asked, kind)
				if _, listed := table[y]; listed && r.Rand.Intn(2) == 0 {
					delete(table, y)
					delete(suriya.AdhikavaraExceptions, int(y))
				} else {
					table[y] = r.Rand.Intn(3) != 0
					suriya.AdhikavaraExceptions[int(y)] = table[y]
				}
				set()
				query(asked, kind)
				r.OK("edit")
				if step%4 == 3 {
					for k := int64(-2); k < 42; k++ {
						query(first+k, r.Rand.Intn(7))
					}
				}
				if r.Rand.Intn(5) == 0 {
					query(asked, kind)
					on = false
					set()
					query(asked, kind)
					on = true
					set()
					query(asked, kind)
				}
			}
			for k := int64(-2); k < 42; k++ {
				for kind := 0; kind < 5; kind++ {
					query(first+k, kind)
				}
			}
		}
		r.Floor("edit", 100)
		reset()
		on = false
		set()
		table = map[int64]bool{1994: false, 1997: true}
		for y := int64(1800); y <= 2200; y++ {
			for k := 0; k < 5; k++ {
				query(y, k)
			}
		}
		r.Floor("asalha", 2000)
		r.Floor("kattika", 2000)
	})

	core("C06", "every year 638..3500 ascending, descending, shuffled: Kattika and Asalha dates against the accumulated lunar years; distinct: (month and day of Kattika, kind of year, direction)", func(r *rt.R) {
		suriya.UseExceptions = false
		c := prepared(nil)
		const lo, hi = 638, 3500
		kat := map[int64]int64{}
		check := func(y, order int64) {
			r.Ev("CalculatePreviousKattika(%d)", y)
			k := suriya.CalculatePreviousKattika(int(y))
			if checkDate(r, "kattika", fmt.Sprintf("Kattika before %d", y), k, c.Kattika(y)) {
				kat[y] = model.DayOf(k)
			}
			r.EqI("kattika-year", int64(k.Year()), y-1, "calendar year of the Kattika before %d", y)
			su := newYear(y)
			r.Ev("AsalhaPuja(%d)", y)
			checkDate(r, "asalha", fmt.Sprintf("Asalha Puja of %d", y), su.AsalhaPuja(), c.Asalha(y))
			_, m, d := model.CivilFromDays(c.Kattika(y))
			r.StateH(rt.Mix(m, d, c.Len(y), order))
		}
		for y := int64(lo); y <= hi; y++ {
			check(y, 0)
		}
		for y := int64(hi); y >= lo; y-- {
			check(y, 1)
		}
		for i := 0; i < r.N(1, 6); i++ {
			for _, p := range r.Rand.Perm(hi - lo + 1) {
				check(int64(p+lo), 2)
			}
		}
		// the library's own answers chain up
		for y := int64(lo); y < hi; y++ {
			su := newYear(y)
			r.EqI("chain", kat[y+1]-kat[y], int64(su.YearLength()), "days between the Kattikas around lunar year %d", y)
			want := int64(236)
			if su.Is_Adhikamasa() {
				want = 266
			} else if su.Is_Adhikavara() {
				want = 237
			}
			r.EqI("asalha-in-year", model.DayOf(su.AsalhaPuja())-kat[y], want, "days from Kattika to Asalha Puja of %d", y)
			if y%500 == 15 {
				r.Sample("year", "%d: Kattika %s, Asalha Puja %s, length %d", y, ymd(kat[y]), su.AsalhaPuja().Format("2006-01-02"), su.YearLength())
			}
		}
		r.Eq("anchor", "Kattika before 2016", ymd(kat[2016]), "2015-11-25")
		r.Floor("chain", 2800)
	})

	core("C07", "every day number in -200000..2000000, all +-3 neighbours of multiples of the step and duration limits, random numbers to +-10^9; distinct: (month, day, leap century position) of dates", func(r *rt.R) {
		check := func(h int64) {
			r.Ev("HorakhunToDate(%d)", h)
			t := suriya.HorakhunToDate(h)
			want := day0 + h
			r.OK("date")
			u := t.Unix()
			y, m, d := model.CivilFromDays(want)
			if model.FloorDiv(u, 86400) != want || int64(t.Year()) != y || int64(t.Month()) != m || int64(t.Day()) != d {
				r.Fail("date", fmt.Sprint(h), "day %d is %v, want %s", h, t, ymd(want))
			}
			if model.Mod(u, 86400) != 86399 || t.Nanosecond() != 0 {
				r.Fail("time-of-day", fmt.Sprint(h), "day %d is %v, not at the last second of its day", h, t)
			}
			if _, off := t.Zone(); off != 0 {
				r.Fail("zone", fmt.Sprint(h), "day %d is %v, not UTC", h, t)
			}
			r.StateH(rt.Mix(m, d, model.Mod(y, 400)))
		}
		lo, hi := int64(-200000), int64(2000000)
		if r.Thorough {
			lo, hi = -3000000, 12000000
		}
		for h := lo; h <= hi; h++ {
			check(h)
		}
		const refH = 484049
		for _, step := range []int64{103240, 105850, 105922, 106751, 106752, 146097, 36524, 292207, 365, 1461} {
			n := int64(10000)
			if step < 30000 {
				n = 3000
			}
			for k := -n; k <= n; k += 1 + r.Rand.Int63n(9) {
				for d := int64(-3); d <= 3; d++ {
					h := refH + k*step + d
					if h >= -1000000000 && h <= 1000000000 && (h > hi || h < lo) {
						check(h)
					}
				}
			}
			for k := int64(-8); k <= 8; k++ {
				for d := int64(-3); d <= 3; d++ {
					check(refH + k*step + d)
				}
			}
		}
		for i := 0; i < r.N(30000, 400000); i++ {
			check(r.Rand.Int63n(2000000001) - 1000000000)
		}
		// no stretch of the range is passed over
		for h, gap := int64(-1000000000), int64(r.N(20000, 1000)); h <= 1000000000; h += gap {
			d := r.Rand.Int63n(gap)
			if h > 0 {
				d = -d
			}
			check(h + d)
		}
		for d := int64(0); d < 50; d++ {
			check(1000000000 - d)
			check(-1000000000 + d)
		}
		for _, h := range []int64{0, 484049, 103240 * 5, -1000000000, 1000000000} {
			r.Sample("day", "%d: %v", h, suriya.HorakhunToDate(h).Format(time.RFC3339))
		}
		for _, h := range []int64{999999999, -7} {
			r.Sample("day ", "%d: %v", h, suriya.HorakhunToDate(h).Format(time.RFC3339))
		}
		r.Floor("date", 2000000)
	})
}

// querySteps compares single steps of the succession through a lunar year; set in the full build.
var querySteps func(r *rt.R, id string, y int64, c *model.Cal)

// queryCal compares a generated year; set in the full build.
var queryCal func(r *rt.R, id string, y int64, c *model.Cal)
