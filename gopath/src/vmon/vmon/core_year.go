package main

import (
	"fmt"
	"strconv"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

func newYear(y int64) suriya.SuriyaYear {
	var su suriya.SuriyaYear
	su.Init(int(y))
	return su
}

// junk fills an object with values no year has.
func junk(r *rt.R) suriya.SuriyaYear {
	v := func() int { return r.Rand.Intn(2000000) - 1000000 }
	return suriya.SuriyaYear{Year: v(), BE_Year: v(), CS_Year: v(), Horakhun: v(), Kammacubala: v(), Uccabala: v(),
		Avoman: v(), Masaken: v(), Tithi: v(), FirstDay: time.Unix(int64(v()), 0)}
}

func checkYear(r *rt.R, su *suriya.SuriyaYear, y int64) {
	m := model.YearOf(y)
	ok := r.EqI("ce", int64(su.Year), m.Year, "CE of year %d", y) &&
		r.EqI("be", int64(su.BE_Year), m.BE, "BE of year %d", y) &&
		r.EqI("cs", int64(su.CS_Year), m.CS, "CS of year %d", y) &&
		r.EqI("horakhun", int64(su.Horakhun), m.H, "horakhun of year %d", y) &&
		r.EqI("kammacubala", int64(su.Kammacubala), m.K, "kammacubala of year %d", y) &&
		r.EqI("uccabala", int64(su.Uccabala), m.U, "uccabala of year %d", y) &&
		r.EqI("avoman", int64(su.Avoman), m.A, "avoman of year %d", y) &&
		r.EqI("masaken", int64(su.Masaken), m.M, "masaken of year %d", y) &&
		r.EqI("tithi", int64(su.Tithi), m.T, "tithi of year %d", y)
	if ok {
		r.StateH(rt.Mix(m.K, m.A, m.T))
	}
}

func checkYearText(r *rt.R, su *suriya.SuriyaYear, y int64) {
	m := model.YearOf(y)
	want := fmt.Sprintf("CE: %d\nBE: %d\nCS: %d\nHorakhun: %d\nKammacubala: %d\nUccabala: %d\nAvoman: %d\nMasaken: %d\nTithi: %d\n",
		m.Year, m.BE, m.CS, m.H, m.K, m.U, m.A, m.M, m.T)
	r.Eq("values-text", fmt.Sprintf("summary of year %d", y), su.SuriyaValuesString(), want)
	r.Eq("year-text", fmt.Sprintf("text of year %d", y), su.String(), strconv.FormatInt(y, 10))
}

// readAll calls every read-only method of a year.
func readAll(su suriya.SuriyaYear) {
	su.Is_Adhikamasa()
	su.Would_Be_Adhikamasa()
	su.Is_Adhikavara()
	su.Would_Be_Adhikavara()
	su.Has_Carried_Adhikavara()
	su.Is_Suriya_Leap()
	su.YearLength()
	su.AdhikamasaCyclePos()
	su.AdhikavaraCyclePos()
}

func init() {
	core("C01", "every year 638..20000 ascending on fresh objects, descending on one reused object, shuffled on objects filled with junk, then every year to 1,000,000 and random ones over junk; non-trivial and distinct: different (kammacubala, avoman, tithi)", func(r *rt.R) {
		const hi = 20000
		for y := int64(638); y <= hi; y++ {
			r.Ev("Init(%d) fresh", y)
			su := newYear(y)
			checkYear(r, &su, y)
		}
		var reused suriya.SuriyaYear
		for y := int64(hi); y >= 638; y-- {
			r.Ev("Init(%d) reused", y)
			reused.Init(int(y))
			checkYear(r, &reused, y)
		}
		for _, p := range r.Rand.Perm(hi - 638 + 1) {
			y := int64(p) + 638
			r.Ev("Init(%d) over junk", y)
			su := junk(r)
			if p%2 == 0 {
				// an object of the very year, but for its other fields
				su.Year = int(y)
				if p%4 == 0 {
					keep := newYear(y)
					keep.Tithi, keep.Avoman = su.Tithi, su.Avoman
					su = keep
				}
			}
			su.Init(int(y))
			checkYear(r, &su, y)
			if p%7 == 0 {
				// reading must not disturb the object
				r.Ev("read methods(%d)", y)
				readAll(su)
				su.SuriyaValuesString()
				checkYear(r, &su, y)
			}
			if p%3 == 0 || r.Thorough {
				checkYearText(r, &su, y)
			}
		}
		// the summary shows what the year holds, whatever that is
		for i := 0; i < 5000; i++ {
			su := junk(r)
			r.Ev("summary of year %d with anything in it", int64(su.Year))
			r.Eq("values-text", fmt.Sprintf("summary of %+v", su), su.SuriyaValuesString(), fmt.Sprintf("CE: %d\nBE: %d\nCS: %d\nHorakhun: %d\nKammacubala: %d\nUccabala: %d\nAvoman: %d\nMasaken: %d\nTithi: %d\n",
				su.Year, su.BE_Year, su.CS_Year, su.Horakhun, su.Kammacubala, su.Uccabala, su.Avoman, su.Masaken, su.Tithi))
			r.Eq("year-text", fmt.Sprintf("text of %+v", su), su.String(), strconv.Itoa(su.Year))
		}
		n := r.N(300000, 3000000)
		for i := 0; i < n; i++ {
			y := 638 + r.Rand.Int63n(1000000-638+1)
			r.Ev("Init(%d) far", y)
			su := junk(r)
			su.Init(int(y))
			checkYear(r, &su, y)
		}
		for y := int64(hi + 1); y <= 1000000; y++ {
			r.Ev("Init(%d) far", y)
			su := newYear(y)
			checkYear(r, &su, y)
			if r.Thorough {
				checkYearText(r, &su, y)
			}
		}
		for y := int64(1000000); y > 1000000-2000; y-- {
			su := newYear(y)
			r.Ev("Init(%d) far", y)
			checkYear(r, &su, y)
			checkYearText(r, &su, y)
		}
		m := model.YearOf(2015)
		r.Sample("year", "%+v", m)
		r.Sample("year", "%+v", model.YearOf(987654))
		r.Floor("tithi", 50000)
	})

	core("C02", "every pair of consecutive years and every 800-year window in 638..20000; distinct: (leap flag, kammacubala, avoman, tithi, uccabala) at a boundary", func(r *rt.R) {
		const lo, hi = 638, 20000
		ys := make([]suriya.SuriyaYear, hi-lo+1)
		// obtained in shuffled order, judged in sequence
		for _, p := range r.Rand.Perm(len(ys)) {
			r.Ev("Init(%d)", int64(lo+p))
			ys[p].Init(lo + p)
		}
		leaps := make([]int64, len(ys)+1)
		for i := range ys {
			a := ys[i]
			y := int64(lo + i)
			leap := a.Is_Suriya_Leap()
			r.Ev("Is_Suriya_Leap(%d)", y)
			in := func(k string, v, lo, hi int) {
				r.OK("range")
				if v < lo || v > hi {
					r.Fail("range-"+k, fmt.Sprint(y), "%s of year %d is %d, outside %d..%d", k, y, v, lo, hi)
				}
			}
			in("kammacubala", a.Kammacubala, 1, 800)
			in("uccabala", a.Uccabala, 0, 3231)
			in("avoman", a.Avoman, 0, 691)
			in("tithi", a.Tithi, 0, 29)
			r.Eq("leap-flag", fmt.Sprintf("leap flag of %d (kammacubala %d)", y, a.Kammacubala), leap, a.Kammacubala <= 207)
			leaps[i+1] = leaps[i]
			if leap {
				leaps[i+1]++
			}
			if i+1 < len(ys) {
				b := ys[i+1]
				days := int64(b.Horakhun - a.Horakhun)
				want := int64(365)
				if leap {
					want = 366
				}
				r.EqI("year-days", days, want, "days from year %d to the next", y)
				r.EqI("uccabala-step", int64(b.Uccabala), model.Mod(int64(a.Uccabala)+days, 3232), "uccabala after year %d", y)
				// avoman grows by 11 a day; each full 692 is one more lunar day
				av := int64(a.Avoman) + 11*days
				r.EqI("avoman-step", int64(b.Avoman), av%692, "avoman after year %d", y)
				la, lb := int64(a.Masaken)*30+int64(a.Tithi), int64(b.Masaken)*30+int64(b.Tithi)
				r.EqI("lunar-days-step", lb-la, days+av/692, "lunar days from year %d to the next", y)
				r.EqI("kammacubala-step", int64(b.Kammacubala), model.Mod(int64(a.Kammacubala)-207-1, 800)+1, "kammacubala after year %d", y)
				if i%97 == 0 {
					r.Sample("boundary", "year %d to %d: %d days, leap=%v, tithi %d to %d, avoman %d to %d", y, y+1, days, leap, a.Tithi, b.Tithi, a.Avoman, b.Avoman)
				}
			}
			var l int64
			if leap {
				l = 1
			}
			r.StateH(rt.Mix(l, int64(a.Kammacubala), int64(a.Avoman), int64(a.Tithi), int64(a.Uccabala)))
			if i >= 800 {
				r.EqI("800-years", int64(a.Horakhun-ys[i-800].Horakhun), 292207, "days of the 800 years before %d", y)
				r.EqI("800-leaps", leaps[i]-leaps[i-800], 207, "leap years in the 800 years before %d", y)
			}
		}
		// the same flags again on a reused object
		var su suriya.SuriyaYear
		for i := len(ys) - 1; i >= 0; i-- {
			su.Init(lo + i)
			r.Ev("Is_Suriya_Leap(%d) reused", int64(lo+i))
			r.Eq("leap-flag", fmt.Sprintf("leap flag of %d", lo+i), su.Is_Suriya_Leap(), model.Leap(int64(lo+i)))
		}
		r.Floor("800-years", 10000)
	})

	core("C03", "every year 638..20000 ascending, descending and shuffled, each predicate and the length against the rules; distinct: (tithi, avoman, leap, kind of year, qualifications)", func(r *rt.R) {
		suriya.UseExceptions = false
		c := &model.Cal{}
		const lo, hi = 638, 20000
		check := func(y int64, su suriya.SuriyaYear) {
			r.Ev("predicates(%d)", y)
			b := func(k string, got, want bool) {
				r.OK(k)
				if got != want {
					r.Fail(k, fmt.Sprint(y), "%s of %d is %v, want %v (%+v)", k, y, got, want, model.YearOf(y))
				}
			}
			b("would-be-adhikamasa", su.Would_Be_Adhikamasa(), model.WouldM(y))
			b("is-adhikamasa", su.Is_Adhikamasa(), model.IsM(y))
			b("would-be-adhikavara", su.Would_Be_Adhikavara(), model.WouldV(y))
			b("carried-adhikavara", su.Has_Carried_Adhikavara(), model.CarryV(y))
			b("is-adhikavara", su.Is_Adhikavara(), c.IsV(y))
			r.EqI("year-length", int64(su.YearLength()), c.Len(y), "length of year %d", y)
			v := model.YearOf(y)
			r.StateH(rt.Mix(v.T, v.A, c.Len(y), v.K/208))
		}
		lastM, lastV := int64(0), int64(0)
		for y := int64(lo); y <= hi; y++ {
			su := newYear(y)
			check(y, su)
			m, v := su.Is_Adhikamasa(), su.Is_Adhikavara()
			r.Eq("not-both", fmt.Sprintf("extra month and extra day in %d", y), m && v, false)
			if m {
				if lastM != 0 && y <= 3500 && (y-lastM < 2 || y-lastM > 3) {
					r.Fail("month-spacing", fmt.Sprint(y), "extra-month years %d and %d", lastM, y)
				}
				if y <= 3500 {
					r.OK("month-spacing")
				}
				lastM = y
			}
			if v {
				if lastV != 0 && y <= 3500 && (y-lastV < 4 || y-lastV > 7) {
					r.Fail("day-spacing", fmt.Sprint(y), "extra-day years %d and %d", lastV, y)
				}
				if y <= 3500 {
					r.OK("day-spacing")
				}
				lastV = y
			}
			if y%500 == 3 {
				r.Sample("year", "%d: tithi %d avoman %d length %d", y, su.Tithi, su.Avoman, su.YearLength())
			}
		}
		var su suriya.SuriyaYear
		for y := int64(hi); y >= lo; y-- {
			su.Init(int(y))
			check(y, su)
		}
		for _, p := range r.Rand.Perm(hi - lo + 1) {
			su.Init(p + lo)
			check(int64(p+lo), su)
		}
		if r.Thorough {
			for i := 0; i < 2000000; i++ {
				y := lo + r.Rand.Int63n(hi-lo+1)
				check(y, newYear(y))
			}
		}
		r.Floor("month-spacing", 900)
		r.Floor("day-spacing", 400)
	})

	core("C11", "cycle positions for every year 638..4000, distances for 660..4000 with exceptions off, on, and on with random tables; distinct: (positions, distances, setting)", func(r *rt.R) {
		defer func() { suriya.UseExceptions = false }()
		for _, on := range []bool{false, true, false} {
			suriya.UseExceptions = on
			c := &model.Cal{}
			if on {
				c.Exc = map[int64]bool{1994: false, 1997: true}
			}
			for _, p := range r.Rand.Perm(4000 - 638 + 1) {
				y := int64(p) + 638
				su := newYear(y)
				r.Ev("cycle positions(%d)", y)
				p57, p19 := model.Mod(y-1984, 57)+1, model.Mod(y-1984, 19)+1
				r.EqI("position-57", int64(su.AdhikavaraCyclePos()), p57, "position of %d in the 57-year cycle", y)
				r.EqI("position-19", int64(su.AdhikamasaCyclePos()), p19, "position of %d in the 19-year cycle", y)
				if y < 660 {
					continue
				}
				dm, dv := int64(1), int64(1)
				for !model.IsM(y - dm) {
					dm++
				}
				for !c.IsV(y - dv) {
					dv++
				}
				r.Ev("deltas(%d)", y)
				r.EqI("since-month", int64(su.DeltaAdhikamasa()), dm, "years since an extra month before %d", y)
				r.EqI("since-day", int64(su.DeltaAdhikavara()), dv, "years since an extra day before %d", y)
				o := int64(0)
				if on {
					o = 1
				}
				r.StateH(rt.Mix(p57, p19, dm, dv, o))
				if p%400 == 0 {
					r.Sample("year", "%d: cycle positions %d and %d, since extra month %d, since extra day %d, exceptions %v", y, p57, p19, dm, dv, on)
				}
			}
		}
		// other tables: the nearest extra day may be further back than the rule alone would put it
		suriya.UseExceptions = true
		old := suriya.AdhikavaraExceptions
		defer func() { suriya.AdhikavaraExceptions = old }()
		for i := 0; i < r.N(150, 3000); i++ {
			c := &model.Cal{Exc: map[int64]bool{}}
			first := 680 + r.Rand.Int63n(3200)
			way := r.Rand.Intn(3) // taking away, adding, both
			for y := first; y < first+60; y++ {
				if model.IsM(y) {
					continue // an entry for an extra-month year is not claimed
				}
				natural := c.IsV(y)
				if natural && way != 1 && r.Rand.Intn(2) == 0 {
					c.Exc[y] = false
				}
				if !natural && way != 0 && r.Rand.Intn(6) == 0 {
					c.Exc[y] = true
				}
				if r.Rand.Intn(9) == 0 {
					c.Exc[y] = natural
				}
			}
			t := map[int]bool{}
			for y, v := range c.Exc {
				t[int(y)] = v
			}
			suriya.AdhikavaraExceptions = t
			for y := first; y < first+60; y++ {
				dv := int64(1)
				for dv <= 13 && !c.IsV(y-dv) {
					dv++
				}
				if dv > 13 {
					continue // further back than the library looks
				}
				r.Ev("delta(%d) under a table of %d", y, int64(len(t)))
				r.EqI("since-day-table", int64(newYear(y).DeltaAdhikavara()), dv, "years since an extra day before %d (table for %d..)", y, first)
				r.StateH(rt.Mix(model.Mod(y-1984, 57)+1, dv, 3))
			}
		}
		r.Floor("since-day", 9000)
		r.Floor("since-day-table", 5000)
	})
}
