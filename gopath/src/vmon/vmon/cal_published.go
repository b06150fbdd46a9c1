//go:build calendar

package main

import (
	"fmt"
	"strings"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

// Asalha Puja (full moon day) in the published Mahanikaya calendars, as collected
// from myhora.com, thaiorc.com, forest sangha calendars and the Bank of Thailand's
// holidays. In the years left out the printed calendar lacked a day that the
// reckoning has, and no exception is recorded for it.
const publishedAsalha = `1970-07-18 1971-07-07 1972-07-25 1973-07-15 1974-07-04 1975-07-23 1976-07-11 1977-07-30
1979-07-09 1980-07-27 1981-07-16 1982-07-05 1983-07-24 1987-07-10 1988-07-28 1990-07-07 1991-07-26 1992-07-14
1993-08-02 1994-07-22 1995-07-11 1996-07-29 1997-07-19 1998-07-08 1999-07-27 2000-07-16 2001-07-05 2002-07-24
2003-07-13 2004-07-31 2005-07-21 2006-07-10 2007-07-29 2008-07-17 2009-07-07 2010-07-26 2011-07-15 2012-08-02
2013-07-22 2014-07-11 2015-07-30 2016-07-19`

// Magha, Vesakha and Asalha Puja as public holidays of Thailand.
const holidays = `2009: 02-09 05-08 07-07; 2010: 02-28 05-28 07-26; 2011: 02-18 05-17 07-15; 2012: 03-07 06-04 08-02;
2013: 02-25 05-24 07-22; 2014: 02-14 05-13 07-11; 2015: 03-04 06-01 07-30; 2016: 02-22 05-20 07-19;
2017: 02-11 05-10 07-08; 2018: 03-01 05-29 07-27; 2019: 02-19 05-18 07-16; 2020: 02-08 05-06 07-05;
2021: 02-26 05-26 07-24; 2022: 02-16 05-15 07-13; 2023: 03-06 06-03 08-01; 2024: 02-24 05-22 07-20; 2025: 02-12 05-11 07-10`

func init() {
	cal("C30", "Asalha Puja of 42 published years and Magha, Vesakha and Asalha Puja of 17 years of public holidays, computed in random order by every route (year, generated calendar, chain of observance days, window) with the exceptions on, and off for the years since 1998; distinct: (year, route, switch)", func(r *rt.R) {
		type year struct{ magha, vesakha, asalha string }
		want := map[int]year{}
		for _, d := range strings.Fields(publishedAsalha) {
			var y int
			fmt.Sscanf(d, "%d", &y)
			want[y] = year{asalha: d}
		}
		for _, l := range strings.Split(holidays, ";") {
			var y int
			var m, v, a string
			if n, err := fmt.Sscanf(strings.TrimSpace(l), "%d: %s %s %s", &y, &m, &v, &a); n != 4 {
				monitorError("table: %q %v", l, err)
			}
			p := fmt.Sprint(y) + "-"
			if o := want[y].asalha; o != "" && o != p+a {
				monitorError("tables disagree on %d", y)
			}
			want[y] = year{p + m, p + v, p + a}
		}
		var years []int
		for y := range want {
			years = append(years, y)
		}
		r.Notes["published_years"] = len(years)
		defer func(v bool) { suriya.UseExceptions = v }(suriya.UseExceptions)
		for round := 0; round < r.N(12, 60); round++ {
			on := round%2 == 0
			suriya.UseExceptions = on
			for _, i := range r.Rand.Perm(len(years)) {
				y := years[i]
				if !on && y >= 1994 && y <= 1997 {
					continue
				}
				w := want[y]
				check := func(route, name, got, want string) {
					if want == "" {
						return
					}
					id := fmt.Sprintf("%s of %d by %s, exceptions %v", name, y, route, on)
					r.Eq("published", id, got, want)
					r.State(y, route, on)
				}
				r.Ev("published calendar of %d", int64(y))
				su := newYear(int64(y))
				check("year", "Asalha", su.AsalhaPuja().Format("2006-01-02"), w.asalha)
				pick := func(route string, l []suriya.MajorEvent) {
					found := map[string]string{}
					for _, e := range l {
						k := e.Summary
						if found[k] != "" {
							r.Fail("published", fmt.Sprint(y), "%s twice in %d by %s", k, y, route)
						}
						found[k] = e.Date.Format("2006-01-02")
					}
					check(route, "Magha", found["Māgha Pūjā"], w.magha)
					check(route, "Vesakha", found["Vesākha Pūjā"], w.vesakha)
					check(route, "Asalha", found["Āsāḷha Pūjā"], w.asalha)
				}
				var l []suriya.MajorEvent
				for _, e := range suriya.GenerateSolarYear(y) {
					switch v := e.(type) {
					case suriya.MajorEvent:
						l = append(l, v)
					case *suriya.MajorEvent:
						l = append(l, *v)
					}
				}
				pick("generated calendar", l)
				l = nil
				for _, d := range suriya.GetCalDays(model.Midnight(model.DaysFromCivil(int64(y), 1, 1)), model.Midnight(model.DaysFromCivil(int64(y), 12, 31))) {
					l = append(l, d.MajorEvents...)
				}
				pick("window", l)
			}
		}
		r.Sample("year", "2015: %+v", want[2015])
		r.Floor("published", 2000)
	})
}
