//go:build calendar

package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

func init() {
	cal("C24", "all recorded moons of 1902..2032, asked for as one window, year by year and in random windows: each against Meeus' true phase, each with its successor; distinct: (phase, distance from the true phase in 1/4 minute, gap in 1/4 day)", moonsInSuccession)
	cal("C27", "every observance day and half moon generated for 1902..2032 paired with the recorded astronomical moon of its phase, and back; distinct: (kind, distance in 1/10 day, month of the year)", moonsAgree)
}

// phaseOffset gives the distance in minutes of an instant from the nearest true phase
// (0 new, 1 first quarter, 2 full, 3 last quarter).
func phaseOffset(t time.Time, phase int) float64 {
	return model.NearestPhase(float64(t.Unix())/86400+2440587.5, phase) * 1440
}

func phaseCode(p string) int {
	for i, n := range phases {
		if n == p {
			return i
		}
	}
	return -1
}

func moonsInSuccession(r *rt.R) {
	first, last := time.Date(1902, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2032, 12, 31, 23, 59, 59, 0, time.UTC)
	var widest [4]float64
	glo, ghi := 99.0, 0.0
	// judge follows a list of moons that should be in unbroken succession from one instant to another.
	judge := func(l []suriya.AstroMoon, from, to time.Time, what string) {
		for i, m := range l {
			at := m.Date.UTC().Format("2006-01-02 15:04")
			r.OK("moon")
			c := phaseCode(m.Phase)
			if c < 0 {
				r.Fail("phase", at, "%s: the moon of %s has phase %q", what, at, m.Phase)
				continue
			}
			off := phaseOffset(m.Date, c)
			widest[c] = math.Max(widest[c], math.Abs(off))
			if math.Abs(off) > 5 {
				r.Fail("real", at, "%s: the %s moon of %s is %.1f minutes from the true phase", what, m.Phase, at, off)
			}
			if i == 0 {
				if m.Date.Sub(from) > 8*24*time.Hour+12*time.Hour {
					r.Fail("gap", from.Format("2006-01-02"), "%s: the first moon is only on %s", what, at)
				}
				continue
			}
			p := l[i-1]
			gap := m.Date.Sub(p.Date).Hours() / 24
			id := p.Date.UTC().Format("2006-01-02") + " " + p.Phase + " to " + m.Date.UTC().Format("2006-01-02") + " " + m.Phase
			r.OK("succession")
			if step := (c - phaseCode(p.Phase) + 4) % 4; step != 1 || gap < 6.3 || gap > 8.5 {
				r.Fail("gap", id, "%s: after the %s moon of %s comes the %s moon of %s, %.1f days later", what, p.Phase, p.Date.UTC().Format("2006-01-02"), m.Phase, at, gap)
			} else {
				glo, ghi = math.Min(glo, gap), math.Max(ghi, gap)
			}
			r.StateH(rt.Mix(int64(c), int64(off*4), int64(gap*4)))
		}
		if n := len(l); n > 0 && to.Sub(l[n-1].Date) > 8*24*time.Hour+12*time.Hour {
			p := l[n-1]
			r.Fail("gap", p.Date.UTC().Format("2006-01-02")+" "+p.Phase+" to the end", "%s: after the %s moon of %s comes nothing until %s", what, p.Phase, p.Date.UTC().Format("2006-01-02"), to.Format("2006-01-02"))
		}
	}
	ask := func(from, to time.Time) []suriya.AstroMoon {
		r.EvS("GetAstroMoons ", when(from)+" to "+when(to))
		return suriya.GetAstroMoons(from, to)
	}
	all := ask(first, last)
	if len(all) == 0 {
		r.Fail("empty", "1902..2032", "no moons of 1902..2032 at all")
		return
	}
	judge(all, first, last, "1902..2032")
	seen := map[int64]bool{}
	for _, m := range all {
		if seen[m.Date.Unix()] {
			r.Fail("twice", when(m.Date), "the moon of %s is recorded twice", when(m.Date))
		}
		seen[m.Date.Unix()] = true
	}
	// year by year: no more and no fewer than in one go
	var joined []suriya.AstroMoon
	for y := 1902; y <= 2032; y++ {
		joined = append(joined, ask(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y, 12, 31, 23, 59, 59, 999999999, time.UTC))...)
	}
	judge(joined, first, last, "1902..2032 year by year")
	r.Eq("same-both-ways", "moons of 1902..2032 by year and at once", len(joined), len(all))
	for k := 0; k < r.N(3000, 60000); k++ {
		from := first.Add(time.Duration(r.Rand.Int63n(int64(last.Sub(first)))))
		to := from.Add(time.Duration(r.Rand.Int63n(int64([]int{20, 100, 900}[r.Rand.Intn(3)]) * 86400e9)))
		if to.After(last) {
			continue
		}
		l := ask(from, to)
		// inside a gap found above there is nothing to start or end with
		i := sort.Search(len(all), func(i int) bool { return !all[i].Date.Before(from) })
		if len(l) == 0 {
			if i < len(all) && !all[i].Date.After(to) {
				r.Fail("empty", when(from)+" to "+when(to), "no moons from %s to %s", when(from), when(to))
			}
			continue
		}
		lo, hi := from, to
		if i > 0 && all[i].Date.Sub(all[i-1].Date).Hours() > 8.5*24 {
			lo = l[0].Date
		}
		if j := sort.Search(len(all), func(i int) bool { return all[i].Date.After(to) }); j > 0 && j < len(all) && all[j].Date.Sub(all[j-1].Date).Hours() > 8.5*24 {
			hi = l[len(l)-1].Date
		}
		judge(l, lo, hi, when(from)+" to "+when(to))
	}
	r.Notes["largest_distance_from_true_phase_minutes"] = widest
	r.Notes["gap_days"] = []float64{glo, ghi}
	for i, m := range all {
		if i%1600 == 0 {
			r.Sample("moon", "%s on %s, %.1f minutes from the true phase", m.Phase, when(m.Date), phaseOffset(m.Date, phaseCode(m.Phase)))
		}
	}
	r.Floor("moon", 12000)
	r.Floor("succession", 12000)
}

func moonsAgree(r *rt.R) {
	type day struct {
		at    time.Time
		phase string
		kind  string
	}
	limit := map[string]float64{"uposatha": 2.25, "half": 1.9}
	var ext = map[string][2]float64{}
	noon := func(t time.Time) time.Time { return t.Add(5 * time.Hour) } // in Bangkok
	round := func(exc bool) {
		suriya.UseExceptions = exc
		defer func() { suriya.UseExceptions = false }()
		var days []day
		for y := 1902; y <= 2032; y++ {
			r.Ev("GenerateSolarYear(%d)", int64(y))
			for _, e := range suriya.GenerateSolarYear(y) {
				switch v := e.(type) {
				case suriya.UposathaMoon:
					days = append(days, day{noon(v.Date), v.Phase, "uposatha"})
				case suriya.HalfMoon:
					days = append(days, day{noon(v.Date), v.Phase, "half"})
				}
			}
		}
		sort.SliceStable(days, func(i, j int) bool { return days[i].at.Before(days[j].at) })
		r.EvS("GetAstroMoons ", "1902..2033")
		moons := suriya.GetAstroMoons(time.Date(1902, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2033, 3, 1, 0, 0, 0, 0, time.UTC))
		var gaps [][2]time.Time
		for i := 1; i < len(moons); i++ {
			if moons[i].Date.Sub(moons[i-1].Date) > 204*time.Hour {
				gaps = append(gaps, [2]time.Time{moons[i-1].Date.Add(84 * time.Hour), moons[i].Date.Add(-84 * time.Hour)})
			}
		}
		inGap := func(t time.Time) bool {
			for _, g := range gaps {
				if t.After(g[0]) && t.Before(g[1]) {
					return true
				}
			}
			return false
		}
		if len(gaps) > 25 {
			r.Fail("gaps", "recorded moons", "the recorded moons are broken off %d times", len(gaps))
		}
		used := map[int]int{}
		for _, d := range days {
			lo := sort.Search(len(moons), func(i int) bool { return moons[i].Date.After(d.at.Add(-96 * time.Hour)) })
			best, off := -1, 99.0
			for i := lo; i < len(moons) && moons[i].Date.Before(d.at.Add(96*time.Hour)); i++ {
				if moons[i].Phase == d.phase {
					if o := d.at.Sub(moons[i].Date).Hours() / 24; math.Abs(o) < math.Abs(off) {
						best, off = i, o
					}
				}
			}
			id := fmt.Sprintf("%s %s %s", d.kind, d.phase, d.at.Format("2006-01-02"))
			if best < 0 && inGap(d.at) {
				r.OK("not-recorded")
				continue
			}
			r.OK("pair")
			lim := limit[d.kind]
			if exc {
				lim++ // the official calendar went its own way for a few years
			}
			if best < 0 || math.Abs(off) > lim {
				r.Fail("pair", id, "%s: the nearest recorded %s moon is %.2f days off", id, d.phase, off)
				continue
			}
			if used[best]++; used[best] > 1 {
				r.Fail("one-to-one", id, "%s shares its recorded moon of %s with another", id, when(moons[best].Date))
			}
			e, ok := ext[d.kind+" "+d.phase]
			if !ok {
				e = [2]float64{off, off}
			}
			ext[d.kind+" "+d.phase] = [2]float64{math.Min(e[0], off), math.Max(e[1], off)}
			r.StateH(rt.Mix(int64(len(d.kind)), int64(phaseCode(d.phase)), int64(off*10), int64(d.at.Month())))
			if d.at.Year()%40 == 3 {
				r.Sample(d.kind+" "+d.phase, "%s, %.2f days from the recorded moon", id, off)
			}
		}
		if len(days) == 0 {
			r.Fail("moon-has-a-day", "none", "no observance days or half moons are generated for 1902..2032, %d moons recorded", len(moons))
			return
		}
		for i, m := range moons {
			if m.Date.Before(days[0].at.Add(96*time.Hour)) || m.Date.After(days[len(days)-1].at.Add(-96*time.Hour)) {
				continue
			}
			r.OK("moon-has-a-day")
			if used[i] == 0 {
				r.Fail("moon-has-a-day", when(m.Date), "the recorded %s moon of %s has no day in the calendar", m.Phase, when(m.Date))
			}
		}
	}
	round(false)
	round(true)
	r.Notes["day_minus_recorded_moon_days"] = ext
	r.Floor("pair", 12000)
	r.Floor("moon-has-a-day", 12000)
}
