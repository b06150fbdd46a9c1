//go:build calendar

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
	_ "time/tzdata"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

func init() { hasCalendar = true }

// when writes an instant together with the offset it is expressed in.
func when(t time.Time) string {
	_, off := t.Zone()
	s := t.UTC().Format("2006-01-02T15:04:05.999999999Z")
	if off != 0 {
		s += fmt.Sprintf(" (offset %d)", off)
	}
	return s
}

func upText(m suriya.UposathaMoon) string {
	d := m.Date
	m.Date = time.Time{}
	return fmt.Sprintf("uposatha %s calendar %d status %d %s event %q %d/%d udays %d mdays %d month %d season %d year %d adhikavara %v %q %q",
		when(d), m.Calendar, m.Status, m.Phase, m.Event, m.S_Number, m.S_Total, m.U_Days, m.M_Days, m.LunarMonth, m.LunarSeason, m.LunarYear, m.HasAdhikavara, m.Source, m.Comments)
}

func wantUp(u model.Uposatha, status int) suriya.UposathaMoon {
	return suriya.UposathaMoon{Date: model.Midnight(u.Day), Status: status, Phase: u.Phase, Event: u.Event,
		S_Number: int(u.SNumber), S_Total: int(u.STotal), U_Days: int(u.UDays), M_Days: int(u.MDays),
		LunarMonth: int(u.LunarMonth), LunarSeason: int(u.LunarSeason), LunarYear: int(u.LunarYear), HasAdhikavara: u.HasAdhikavara}
}

func halfText(m suriya.HalfMoon) string   { return fmt.Sprintf("half %s %s", when(m.Date), m.Phase) }
func astroText(m suriya.AstroMoon) string { return fmt.Sprintf("astro %s %s", when(m.Date), m.Phase) }
func majorText(m suriya.MajorEvent) string {
	return fmt.Sprintf("major %s calendar %d %q %q", when(m.Date), m.Calendar, m.Summary, m.Description)
}
func eventText(m suriya.Event) string {
	return fmt.Sprintf("event %s calendar %d %q %q", when(m.Date), m.Calendar, m.Summary, m.Description)
}

func evText(e suriya.CalendarEvent) string {
	switch v := e.(type) {
	case suriya.UposathaMoon:
		return upText(v)
	case *suriya.UposathaMoon:
		return upText(*v)
	case suriya.HalfMoon:
		return halfText(v)
	case *suriya.HalfMoon:
		return halfText(*v)
	case suriya.AstroMoon:
		return astroText(v)
	case *suriya.AstroMoon:
		return astroText(*v)
	case suriya.MajorEvent:
		return majorText(v)
	case *suriya.MajorEvent:
		return majorText(*v)
	case suriya.Event:
		return eventText(v)
	case *suriya.Event:
		return eventText(*v)
	}
	return fmt.Sprintf("%T %v", e, e)
}

// item is one expected thing: when it is, and its full text.
type item struct {
	at    time.Time
	text  string
	astro bool
}

// yearItems lists what the generated year holds.
func yearItems(c *model.Cal, y int64) (out []item) {
	ups, halfs, majors := c.Events(y)
	for _, u := range ups {
		w := wantUp(u, 2)
		out = append(out, item{w.Date, upText(w), false})
	}
	for _, h := range halfs {
		w := suriya.HalfMoon{Date: model.Midnight(h.Day), Phase: h.Phase}
		out = append(out, item{w.Date, halfText(w), false})
	}
	for _, m := range majors {
		w := suriya.MajorEvent{Date: model.Midnight(m.Day), Summary: m.Summary, Description: m.Summary}
		out = append(out, item{w.Date, majorText(w), false})
	}
	return
}

func texts(l []item) (out []string) {
	for _, i := range l {
		out = append(out, i.text)
	}
	sort.Strings(out)
	return
}

// diff tells what two sorted lists do not share.
func diff(got, want []string) string {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	var extra, missing []string
	for _, g := range got {
		n[g]--
		if n[g] < 0 {
			extra = append(extra, g)
		}
	}
	for _, w := range want {
		if n[w] > 0 {
			n[w]--
			missing = append(missing, w)
		}
	}
	if len(extra) == 0 && len(missing) == 0 {
		return ""
	}
	cut := func(l []string) string {
		if len(l) > 3 {
			return fmt.Sprintf("%d: %s ...", len(l), strings.Join(l[:3], " | "))
		}
		return fmt.Sprintf("%d: %s", len(l), strings.Join(l, " | "))
	}
	return fmt.Sprintf("unexpected %s; missing %s", cut(extra), cut(missing))
}

// astroRec is a record of the shipped files, read without the library.
type astroRec struct {
	at    time.Time
	phase string
	year  int // of the file
}

func loadAstro(r *rt.R) (out []astroRec) {
	phases := []string{"new", "waxing", "full", "waning"}
	for y := 1900; y <= 2040; y++ {
		b, err := os.ReadFile(fmt.Sprintf("data/astro/astro-%d.json", y))
		if err != nil {
			r.Fail("shipped", fmt.Sprint(y), "data file of %d: %v", y, err)
			continue
		}
		var doc map[string]interface{}
		if err := json.Unmarshal(b, &doc); err != nil {
			r.Fail("shipped", fmt.Sprint(y), "data file of %d: %v", y, err)
			continue
		}
		l, _ := doc["response"].([]interface{})
		for _, e := range l {
			m := e.(map[string]interface{})
			t := time.Unix(int64(m["timestamp"].(float64)), 0).UTC()
			iso, err := time.Parse(time.RFC3339, m["dateTimeISO"].(string))
			if err != nil || !iso.Equal(t) {
				r.Fail("shipped", m["dateTimeISO"].(string), "record %v has another timestamp", m)
			}
			out = append(out, astroRec{t, phases[int(m["code"].(float64))], y})
		}
	}
	return
}

func (a astroRec) text() string { return astroText(suriya.AstroMoon{Phase: a.phase, Date: a.at}) }

// zones are what windows are expressed in.
var zones []*time.Location

func init() {
	zones = append(zones, time.UTC, time.FixedZone("", 14*3600), time.FixedZone("west", -12*3600), time.FixedZone("odd", 20*60+13),
		time.FixedZone("ict", 7*3600), time.FixedZone("half", -(3*3600+1800)), time.FixedZone("UTC", 3600))
	for _, n := range []string{"Asia/Bangkok", "America/New_York", "Europe/London", "Pacific/Apia", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Kiritimati"} {
		if l, err := time.LoadLocation(n); err == nil {
			zones = append(zones, l)
		}
	}
}

func someZone(rd *rand.Rand) *time.Location {
	if rd.Intn(3) == 0 {
		return time.UTC
	}
	return zones[rd.Intn(len(zones))]
}

// someFixed is a zone without daylight saving.
func someFixed(rd *rand.Rand) *time.Location {
	return zones[rd.Intn(7)]
}
