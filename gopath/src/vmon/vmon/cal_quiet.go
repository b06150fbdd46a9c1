//go:build calendar

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/rt"
)

func init() {
	cal("C25", "Likewise the query methods of days, moons and events, and the windows handed in; the built command in a watched directory.", func(r *rt.R) {
		from := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC)
		days := suriya.GetCalDays(from, from.AddDate(1, 0, 0))
		if len(days) == 0 {
			days = []suriya.CalDay{{Date: from}}
		}
		for k := 0; k < r.N(3000, 30000); k++ {
			d := days[r.Rand.Intn(len(days))]
			if len(days) == 1 || r.Rand.Intn(2) == 0 {
				at := someTime(r.Rand)
				d = suriya.CalDay{Date: at, Events: []suriya.Event{{Date: at, Summary: someWord(r.Rand)}}, HalfMoon: []suriya.HalfMoon{{Date: at, Phase: "waxing"}}}
				if r.Rand.Intn(2) == 0 {
					d.UposathaMoon = []suriya.UposathaMoon{someUp(r.Rand, at)}
					d.AstroMoon = []suriya.AstroMoon{{Date: at.Add(time.Hour), Phase: "full"}}
				}
			}
			was := dayKey(d)
			for _, q := range []struct {
				n string
				f func()
			}{
				{"CalDay.String", func() { _ = d.String() }}, {"GetUposathaMoon", func() { d.GetUposathaMoon() }}, {"GetHalfMoon", func() { d.GetHalfMoon() }}, {"GetAstroMoon", func() { d.GetAstroMoon() }},
				{"AddHalfMoonDays", func() { l := []suriya.CalDay{d}; suriya.AddHalfMoonDays(l); d = l[0] }},
				{"altering a moon got", func() {
					m, h, a := d.GetUposathaMoon(), d.GetHalfMoon(), d.GetAstroMoon()
					m.Phase, h.Phase, a.Phase = "x", "y", "z"
				}},
			} {
				r.EvS(q.n, " of a day")
				q.f()
				r.OK("receiver")
				if now := dayKey(d); now != was {
					r.Fail("receiver", q.n, "%s changed the day it was asked of from %s to %s", q.n, was, now)
				}
				r.State(q.n, len(d.UposathaMoon), len(d.Events))
			}
			var evs []suriya.CalendarEvent
			for i := range d.UposathaMoon {
				u := &d.UposathaMoon[i]
				before := upText(*u)
				for n := 0; n < 3; n++ {
					r.EvS("NextUposatha", "")
					u.NextUposatha()
				}
				r.OK("receiver")
				if upText(*u) != before {
					r.Fail("receiver", "NextUposatha", "NextUposatha changed the moon it was asked of from %s to %s", before, upText(*u))
				}
				evs = append(evs, u)
			}
			for i := range d.HalfMoon {
				evs = append(evs, &d.HalfMoon[i])
			}
			for i := range d.AstroMoon {
				evs = append(evs, &d.AstroMoon[i])
			}
			for i := range d.MajorEvents {
				evs = append(evs, &d.MajorEvents[i])
			}
			for i := range d.Events {
				evs = append(evs, &d.Events[i])
			}
			for _, e := range evs {
				before := evText(e)
				var other suriya.CalDay
				for _, q := range []struct {
					n string
					f func()
				}{{"String", func() { _ = e.String() }}, {"GetDate", func() { e.GetDate() }}, {"IcalEvent", func() { icalOf(e) }}, {"AddToDay", func() { e.AddToDay(&other) }},
					{"AddToDay, then altering the day", func() {
						e.AddToDay(&other)
						for i := range other.UposathaMoon {
							other.UposathaMoon[i].Phase = "x"
						}
						for i := range other.Events {
							other.Events[i].Summary = "x"
						}
					}}} {
					name := fmt.Sprintf("%T.%s", e, q.n)
					r.EvS(name, "")
					q.f()
					r.OK("receiver")
					if evText(e) != before {
						r.Fail("receiver", name, "%s changed the event it was asked of from %s to %s", name, before, evText(e))
					}
					r.State(name)
				}
			}
		}
		quietCommand(r)
	})
}

func icalOf(e suriya.CalendarEvent) {
	switch v := e.(type) {
	case *suriya.UposathaMoon:
		v.IcalEvent()
	case *suriya.HalfMoon:
		v.IcalEvent()
	case *suriya.AstroMoon:
		v.IcalEvent()
	case *suriya.MajorEvent:
		v.IcalEvent()
	case *suriya.Event:
		v.IcalEvent()
	}
}

// quietCommand runs the command where every file it leaves can be seen.
func quietCommand(r *rt.R) {
	bin := os.Getenv("VMON_CLI")
	if bin == "" {
		return
	}
	base, err := os.MkdirTemp("", "quietcli")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(base)
	os.Mkdir(filepath.Join(base, "tmp"), 0755)
	for k := 0; k < r.N(24, 200); k++ {
		dir := filepath.Join(base, fmt.Sprint("d", k))
		os.Mkdir(dir, 0755)
		os.WriteFile(filepath.Join(dir, "mine"), []byte("mine"), 0600)
		y := 1890 + r.Rand.Intn(170)
		args := []string{[]string{"caldays", "ical"}[k%2], "--from", fmt.Sprintf("%d-%02d-%02d", y, 1+r.Rand.Intn(12), 1+r.Rand.Intn(28)), "--to", fmt.Sprintf("%d-12-31", y+r.Rand.Intn(2))}
		out := ""
		if k%4 > 1 {
			out = filepath.Join(dir, "out file")
			args = append(args, "--output", out)
		}
		before := tree(base)
		o := command(r, dir, []string{"TMPDIR=" + filepath.Join(base, "tmp"), "VERBOSE=1", "DEBUG=1", "verbose=1"}, bin, args...)
		line := strings.Join(args, " ")
		var after []string
		for _, f := range tree(base) {
			if out == "" || !strings.Contains(f, "out file ") {
				after = append(after, f)
			}
		}
		r.OK("command")
		if d := diff2(before, after); d != "" {
			r.Fail("command-files", line, "%s: files besides the output changed: %s", line, d)
		}
		if o.code != 0 || o.err != "" {
			r.Fail("command-output", line, "%s: code %d, on standard error %q", line, o.code, o.err)
		}
		os.RemoveAll(dir)
	}
	r.Floor("command", 20)
}
