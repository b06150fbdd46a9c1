// Package model is the reference the oracles compare with. It shares no code
// with suriya-go: whole-number arithmetic with floored division, civil dates
// by day numbers, the lunar calendar laid out month by month.
package model

import (
	"math"
	"time"
)

func FloorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func Mod(a, b int64) int64 { return a - b*FloorDiv(a, b) }

// Days since 1970-01-01 of a proleptic Gregorian date, and back.
func DaysFromCivil(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := FloorDiv(y, 400)
	yoe := y - era*400
	mp := Mod(m+9, 12)
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func CivilFromDays(z int64) (y, m, d int64) {
	z += 719468
	era := FloorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if mp >= 10 {
		m = mp - 9
	}
	if m <= 2 {
		y++
	}
	return
}

// DayOf gives the UTC day number of an instant.
func DayOf(t time.Time) int64 { return FloorDiv(t.Unix(), 86400) }

func YearOfDay(z int64) int64 { y, _, _ := CivilFromDays(z); return y }

// Midnight gives the instant a day begins.
func Midnight(z int64) time.Time { return time.Unix(z*86400, 0).UTC() }

// IsMidnightUTC tells whether t is the start of a UTC day and says so in UTC.
func IsMidnightUTC(t time.Time) bool {
	_, off := t.Zone()
	return off == 0 && Mod(t.Unix(), 86400) == 0 && t.Nanosecond() == 0
}

type Year struct {
	Year, BE, CS, H, K, U, A, M, T int64
}

func Elapsed(cs int64) int64 { return FloorDiv(cs*292207+373, 800) + 1 }

// Moon gives avoman, masaken and tithi of an elapsed-day count.
func Moon(h int64) (avoman, masaken, tithi int64) {
	a := 11*h + 650
	b := FloorDiv(a, 692) + h
	return Mod(a, 692), FloorDiv(b, 30), Mod(b, 30)
}

func YearOf(y int64) Year {
	cs := y - 638
	h := Elapsed(cs)
	a, m, t := Moon(h)
	return Year{y, y + 543, cs, h, 800 - Mod(cs*292207+373, 800), Mod(h+2611, 3232), a, m, t}
}

// Cal is the calendar with or without a table of exceptions.
type Cal struct {
	Exc map[int64]bool
	kat map[int64]int64
}

func WouldM(y int64) bool { t := YearOf(y).T; return t >= 24 || t <= 5 }
func Leap(y int64) bool   { return YearOf(y).K <= 207 }
func WouldV(y int64) bool {
	v := YearOf(y)
	if v.K <= 207 {
		return v.A <= 126
	}
	return v.A < 137
}
func IsM(y int64) bool { return WouldM(y) && !WouldM(y+1) }
func CarryV(y int64) bool {
	return IsM(y-1) && WouldV(y-1)
}

func (c *Cal) IsV(y int64) bool {
	if v, ok := c.Exc[y]; ok {
		return v
	}
	return !IsM(y) && (WouldV(y) || CarryV(y))
}

func (c *Cal) Len(y int64) int64 {
	switch {
	case IsM(y):
		return 384
	case c.IsV(y):
		return 355
	}
	return 354
}

var anchor = DaysFromCivil(2015, 11, 25)

// Kattika is the day number of the Kattika full moon before year y (it falls in y-1).
func (c *Cal) Kattika(y int64) int64 {
	if c.kat == nil {
		c.kat = map[int64]int64{2016: anchor}
	}
	if d, ok := c.kat[y]; ok {
		return d
	}
	// fill outwards from the anchor
	k := anchor
	if y > 2016 {
		for n := int64(2016); n < y; n++ {
			k += c.Len(n)
			c.kat[n+1] = k
		}
	} else {
		for n := int64(2015); n >= y; n-- {
			k -= c.Len(n)
			c.kat[n] = k
		}
	}
	return k
}

func (c *Cal) Asalha(y int64) int64 {
	k := c.Kattika(y)
	switch {
	case IsM(y):
		return k + 266
	case c.IsV(y):
		return k + 237
	}
	return k + 236
}

type Uposatha struct {
	Day                                                               int64
	Phase, Event                                                      string
	SNumber, STotal, UDays, MDays, LunarMonth, LunarSeason, LunarYear int64
	HasAdhikavara                                                     bool
	CalYear                                                           int64 // calendar year of Day
	Lunar                                                             int64 // the lunar year it belongs to, as CE
}

// LunarYear lays out the observance days from the Kattika before y to the Kattika of y.
func (c *Cal) LunarYear(y int64) (out []Uposatha) {
	day := c.Kattika(y)
	am, av := IsM(y), c.IsV(y) && !IsM(y)
	months := []int64{1, 2, 3, 4, 5, 6, 7, 8}
	if am {
		months = append(months, 13)
	}
	months = append(months, 9, 10, 11, 12)
	pujas := map[int64]string{3: "magha", 6: "vesakha", 8: "asalha", 11: "pavarana"}
	if am {
		pujas = map[int64]string{4: "magha", 7: "vesakha", 13: "asalha", 11: "pavarana"}
	}
	seasonOf := func(m int64) (season, total int64) {
		switch {
		case m <= 4:
			return 1, 8
		case m <= 8 || m == 13:
			if am {
				return 2, 10
			}
			return 2, 8
		}
		return 3, 8
	}
	prev, number := int64(0), int64(0)
	for _, m := range months {
		s, total := seasonOf(m)
		if s != prev {
			prev, number = s, 0
		}
		length := int64(29)
		if m%2 == 1 || m == 8 && av {
			length = 30
		}
		for _, phase := range []string{"new", "full"} {
			number++
			u := Uposatha{Phase: phase, SNumber: number, STotal: total, UDays: 15, MDays: length,
				LunarMonth: m, LunarSeason: s, LunarYear: y + 543, Lunar: y}
			if phase == "new" {
				u.UDays = length - 15
				u.HasAdhikavara = m == 8 && av
			} else {
				u.Event = pujas[m]
			}
			day += u.UDays
			u.Day = day
			u.CalYear = YearOfDay(day)
			out = append(out, u)
		}
	}
	return out
}

type HalfMoon struct {
	Day   int64
	Phase string
}

type Major struct {
	Day     int64
	Summary string
}

// Events lists what a generated calendar year holds.
func (c *Cal) Events(y int64) (ups []Uposatha, halfs []HalfMoon, majors []Major) {
	for _, ly := range []int64{y, y + 1} {
		for _, u := range c.LunarYear(ly) {
			if u.CalYear == y {
				ups = append(ups, u)
				switch u.Event {
				case "magha":
					majors = append(majors, Major{u.Day, "Māgha Pūjā"})
				case "vesakha":
					majors = append(majors, Major{u.Day, "Vesākha Pūjā"})
				case "asalha":
					majors = append(majors, Major{u.Day, "Āsāḷha Pūjā"}, Major{u.Day + 1, "First day of Vassa"})
				case "pavarana":
					majors = append(majors, Major{u.Day, "Pavāraṇā Day"}, Major{u.Day, "Last day of Vassa"})
				}
			}
			if YearOfDay(u.Day+8) == y {
				p := "waxing"
				if u.Phase == "full" {
					p = "waning"
				}
				halfs = append(halfs, HalfMoon{u.Day + 8, p})
			}
		}
	}
	return
}

// MeanLunation gives the Julian day (dynamical time) of a mean new moon (k
// whole) or full moon (k+0.5), after Meeus, Astronomical Algorithms, ch. 49.
func MeanLunation(k float64) float64 {
	t := k / 1236.85
	return 2451550.09766 + 29.530588861*k + 0.00015437*t*t - 0.000000150*t*t*t + 0.00000000073*t*t*t*t
}

// NearestLunation gives the distance in days from noon at 105 deg east of the
// given day to the nearest mean new (full=false) or full moon.
func NearestLunation(day int64, full bool) float64 {
	jd := float64(day) + 2440587.5 + 0.5 - 7.0/24
	h := 0.0
	if full {
		h = 0.5
	}
	k := math.Round((jd-2451550.09766)/29.530588861-h) + h
	return jd - MeanLunation(k)
}
