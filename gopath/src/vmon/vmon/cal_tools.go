//go:build calendar

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

// jsonOf writes an expected day with the field names its readers rely on.
func jsonOf(d suriya.CalDay) map[string]interface{} {
	ts := func(t time.Time) string { return t.Format(time.RFC3339Nano) }
	n := func(i int) interface{} { return float64(i) }
	out := map[string]interface{}{"Date": ts(d.Date)}
	list := func(k string, l []interface{}) {
		if len(l) > 0 {
			out[k] = l
		}
	}
	var l []interface{}
	for _, m := range d.UposathaMoon {
		l = append(l, map[string]interface{}{"Date": ts(m.Date), "Calendar": n(m.Calendar), "Status": n(m.Status), "Phase": m.Phase, "Event": m.Event,
			"S_Number": n(m.S_Number), "S_Total": n(m.S_Total), "U_Days": n(m.U_Days), "M_Days": n(m.M_Days), "LunarMonth": n(m.LunarMonth),
			"LunarSeason": n(m.LunarSeason), "LunarYear": n(m.LunarYear), "HasAdhikavara": m.HasAdhikavara, "Source": m.Source, "Comments": m.Comments})
	}
	list("UposathaMoon", l)
	l = nil
	for _, m := range d.HalfMoon {
		l = append(l, map[string]interface{}{"Date": ts(m.Date), "Phase": m.Phase})
	}
	list("HalfMoon", l)
	l = nil
	for _, m := range d.AstroMoon {
		l = append(l, map[string]interface{}{"Date": ts(m.Date), "Phase": m.Phase})
	}
	list("AstroMoon", l)
	l = nil
	for _, m := range d.MajorEvents {
		l = append(l, map[string]interface{}{"Date": ts(m.Date), "Calendar": n(m.Calendar), "Summary": m.Summary, "Description": m.Description})
	}
	list("MajorEvents", l)
	l = nil
	for _, m := range d.Events {
		l = append(l, map[string]interface{}{"Date": ts(m.Date), "Calendar": n(m.Calendar), "Summary": m.Summary, "Description": m.Description})
	}
	list("Events", l)
	return out
}

func canon(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// checkJSON decides whether a text is the JSON of the days of a window.
func checkJSON(r *rt.R, id, text string, from, to time.Time) {
	var got map[string][]map[string]interface{}
	r.OK("json")
	dec := json.NewDecoder(strings.NewReader(text))
	if err := dec.Decode(&got); err != nil {
		r.Fail("json", id, "%s: the output is not JSON: %v\n%.300s", id, err, text)
		return
	}
	if rest := strings.TrimSpace(text[dec.InputOffset():]); rest != "" {
		r.Fail("json", id, "%s: the output goes on after the JSON: %.100s", id, rest)
	}
	want := map[string][]map[string]interface{}{}
	for _, d := range suriya.GetCalDays(from, to) {
		y := strconv.FormatInt(model.YearOfDay(model.DayOf(d.Date)), 10)
		want[y] = append(want[y], jsonOf(d))
	}
	var years []string
	for y := range want {
		years = append(years, y)
	}
	sort.Strings(years)
	if len(got) != len(want) {
		var g []string
		for y := range got {
			g = append(g, y)
		}
		sort.Strings(g)
		r.Fail("json-years", id, "%s: years %v, want %v", id, g, years)
		return
	}
	for _, y := range years {
		if len(got[y]) != len(want[y]) {
			r.Fail("json-days", id, "%s: %d days in %s, want %d", id, len(got[y]), y, len(want[y]))
			return
		}
		for i, w := range want[y] {
			r.OK("json-day")
			g := got[y][i]
			for k := range g {
				if l, ok := g[k].([]interface{}); (ok && len(l) == 0) || g[k] == nil {
					r.Fail("json-empty", id, "%s: %s has an empty part %s", id, w["Date"], k)
				}
			}
			if canon(g) != canon(w) {
				r.Fail("json-day", id, "%s: day %d of %s is\n%s\nwant\n%s", id, i, y, canon(g), canon(w))
				return
			}
			r.State(len(g), y[:len(y)-1])
		}
	}
}

const calName = "Uposatha Moondays (Mahānikāya)"

type vevent struct {
	start, end, summary, uid string
	lines                    int
}

// parseIcal reads the events of an iCalendar text.
func parseIcal(text string) (out []vevent, err error) {
	out, _, err = parseIcalHead(text)
	return
}

func parseIcalHead(text string) (out []vevent, head map[string]string, err error) {
	head = map[string]string{}
	text = strings.ReplaceAll(text, "\r\n", "\n")
	text = strings.ReplaceAll(strings.ReplaceAll(text, "\n ", ""), "\n\t", "")
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if len(lines) < 2 || lines[0] != "BEGIN:VCALENDAR" || lines[len(lines)-1] != "END:VCALENDAR" {
		return nil, nil, fmt.Errorf("not a VCALENDAR: %.60q", text)
	}
	var e *vevent
	for _, l := range lines[1 : len(lines)-1] {
		switch {
		case l == "BEGIN:VEVENT":
			if e != nil {
				return nil, nil, fmt.Errorf("nested events")
			}
			e = &vevent{}
		case l == "END:VEVENT":
			if e == nil {
				return nil, nil, fmt.Errorf("unbalanced events")
			}
			out = append(out, *e)
			e = nil
		case e == nil:
			k, v, _ := strings.Cut(l, ":")
			if o, twice := head[k]; twice && o != v {
				return nil, nil, fmt.Errorf("%s twice: %q and %q", k, o, v)
			}
			head[k] = v
		default:
			k, v, _ := strings.Cut(l, ":")
			if strings.HasPrefix(k, "DTSTART") || strings.HasPrefix(k, "DTEND") {
				if !strings.Contains(k, "VALUE=DATE") || strings.Contains(k, "DATE-TIME") || len(v) != 8 {
					return nil, nil, fmt.Errorf("not an all-day event: %s", l)
				}
			}
			switch {
			case strings.HasPrefix(k, "DTSTART"):
				e.start = v
			case strings.HasPrefix(k, "DTEND"):
				e.end = v
			case k == "SUMMARY":
				e.summary = v
			case k == "UID":
				e.uid = v
			}
		}
	}
	return
}

func compact(d int64) string { return strings.ReplaceAll(ymd(d), "-", "") }

var nextDay = map[string]string{}

// icalWant lists "date title" of what the calendar should show.
func icalWant(from, to time.Time) (out []string) {
	add := func(t time.Time, s string) {
		d := model.DayOf(t)
		nextDay[compact(d)] = compact(d + 1)
		out = append(out, compact(d)+" "+s)
	}
	for _, d := range suriya.GetCalDays(from, to) {
		for _, m := range d.UposathaMoon {
			add(m.Date, wantUpText(m))
		}
		for _, m := range d.HalfMoon {
			add(m.Date, wantMoonText(m.Phase))
		}
		for _, m := range d.MajorEvents {
			add(m.Date, m.Summary)
		}
		for _, m := range d.Events {
			add(m.Date, m.Summary)
		}
	}
	sort.Strings(out)
	return
}

func checkIcal(r *rt.R, id, text string, from, to time.Time, uids map[string]string) {
	r.OK("ical")
	evs, head, err := parseIcalHead(text)
	if err != nil {
		r.Fail("ical", id, "%s: %v", id, err)
		return
	}
	for _, k := range [][2]string{{"VERSION", "2.0"}, {"CALSCALE", "GREGORIAN"}, {"METHOD", "PUBLISH"}, {"NAME", calName}, {"X-WR-CALNAME", calName}, {"DESCRIPTION", calName}, {"X-WR-CALDESC", calName}} {
		r.OK("ical-head")
		if head[k[0]] != k[1] {
			r.Fail("ical-head", k[0], "%s: the calendar's %s is %q, want %q", id, k[0], head[k[0]], k[1])
		}
	}
	want := icalWant(from, to)
	var got []string
	for i, e := range evs {
		r.OK("ical-event")
		got = append(got, e.start+" "+e.summary)
		if i > 0 && e.start < evs[i-1].start {
			r.Fail("ical-order", id, "%s: %s after %s", id, e.start, evs[i-1].start)
		}
		if n := nextDay[e.start]; n != "" && e.end != n {
			r.Fail("ical-end", id, "%s: the event of %s ends %s", id, e.start, e.end)
		}
		if o := uids[e.uid]; e.uid == "" || o != "" {
			r.Fail("ical-uid", id, "%s: the event of %s has identifier %q, as has %s", id, e.start, e.uid, o)
		}
		uids[e.uid] = e.start + " " + e.summary
	}
	sort.Strings(got)
	if d := diff(got, want); d != "" {
		r.Fail("ical-events", id, "%s: %s", id, d)
	}
	r.State(len(evs))
}

// cliWindows makes the date pairs the commands are driven with.
func cliWindows(r *rt.R, n int) (out [][2]string) {
	out = [][2]string{{"2014-01-01", "2017-12-31"}, {"2016-07-19", "2016-07-19"}, {"2016-07-18", "2016-07-20"}, {"2015-12-31", "2016-01-01"},
		{"2016-01-02", "2016-01-01"}, {"1999-12-25", "2001-01-10"}, {"2033-06-01", "2041-02-01"}, {"1899-11-01", "1902-03-03"}, {"0700-01-01", "0700-12-31"}, {"0998-11-01", "1001-02-01"}, {"2999-01-01", "2999-12-31"}, {"2016-02-28", "2016-02-29"}}
	// more than a century
	a := model.DaysFromCivil(int64(1900+r.Rand.Intn(20)), 1, 1) + r.Rand.Int63n(366)
	out = append(out, [2]string{ymd(a), ymd(a + int64(r.N(105, 160))*366 + r.Rand.Int63n(30*366))})
	// a century and a half and more, its last day one that holds an event
	for i := 0; i < r.N(1, 3); i++ {
		y := 1790 + r.Rand.Intn(90)
		l := suriya.GenerateSolarYear(y + 152 + r.Rand.Intn(30))
		out = append(out, [2]string{fmt.Sprintf("%d-0%d-01", y, 1+r.Rand.Intn(9)), ymd(model.DayOf(l[r.Rand.Intn(len(l))].GetDate()))})
	}
	// days that are special in some calendar: every first and last of a month, leap days, the epoch
	special := func(y int64) string {
		switch r.Rand.Intn(4) {
		case 0:
			if model.DaysFromCivil(y, 3, 1)-model.DaysFromCivil(y, 2, 28) == 2 {
				return ymd(model.DaysFromCivil(y, 2, 29))
			}
			return ymd(model.DaysFromCivil(y, 2, 28))
		case 1:
			return ymd(model.DaysFromCivil(y, int64(1+r.Rand.Intn(12)), 1))
		case 2:
			return ymd(model.DaysFromCivil(y, int64(2+r.Rand.Intn(11)), 1) - 1)
		}
		if r.Rand.Intn(2) == 0 {
			return ymd(model.DaysFromCivil(y, 12, 31))
		}
		return ymd(model.DaysFromCivil(y, 1, 1))
	}
	out = append(out, [2]string{"1970-01-01", "1970-03-01"}, [2]string{"1969-11-01", "1970-01-01"}, [2]string{"1970-01-01", "1970-01-01"}, [2]string{"2000-01-01", "2000-02-29"}, [2]string{"1900-02-28", "1900-03-01"}, [2]string{"2038-01-01", "2038-02-01"})
	for i := 0; i < 2*n; i++ {
		y := int64(1900 + r.Rand.Intn(140))
		if i%3 == 0 {
			y = 700 + r.Rand.Int63n(2290)
		}
		if i%2 == 0 {
			y += -y & 3
		}
		a, b := special(y), special(y+r.Rand.Int63n(2))
		if r.Rand.Intn(4) == 0 {
			a = ymd(model.DayOf(day(b)) - r.Rand.Int63n(20))
		} else if r.Rand.Intn(3) == 0 {
			b = ymd(model.DayOf(day(a)) + r.Rand.Int63n(20))
		}
		out = append(out, [2]string{a, b})
	}
	for i := 0; i < n; i++ {
		y := 1900 + r.Rand.Intn(140)
		if i%3 == 0 {
			y = 700 + r.Rand.Intn(2290)
		}
		a := model.DaysFromCivil(int64(y), 1, 1) + r.Rand.Int63n(366)
		b := a + r.Rand.Int63n([]int64{3, 40, 400, 1500}[r.Rand.Intn(4)])
		out = append(out, [2]string{ymd(a), ymd(b)})
	}
	return
}

func day(s string) time.Time {
	t, err := time.Parse("2006-01-02", s)
	if err != nil {
		panic(err)
	}
	return t
}

// driveCLI runs a command over windows, output files, defaults and bad input.
func driveCLI(r *rt.R, cmd string, judge func(id, text string, from, to time.Time), empty func(string) bool) {
	bin := tool("VMON_CLI")
	dir, err := os.MkdirTemp("", "vmon-cli-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	envs := [][]string{nil, {"TZ=America/New_York"}, {"TZ=Pacific/Kiritimati", "LC_ALL=th_TH.UTF-8"}, {"TZ=UTC"}, {"GOGC=1"}}
	// what is left of an event file apart from what differs from call to call
	stable := func(s string) string {
		if cmd != "ical" {
			return strings.TrimRight(s, "\n")
		}
		var keep []string
		for _, l := range strings.Split(strings.TrimRight(s, "\r\n"), "\n") {
			if !strings.HasPrefix(l, "UID:") && !strings.HasPrefix(l, "DTSTAMP") {
				keep = append(keep, l)
			}
		}
		return strings.Join(keep, "\n")
	}
	for i, w := range cliWindows(r, r.N(40, 900)) {
		args := []string{cmd, "--from", w[0], "--to", w[1]}
		switch i % 4 {
		case 1:
			args = []string{cmd, "--to", w[1], "--from", w[0]}
		case 2:
			args = []string{cmd, "--from=" + w[0], "--to=" + w[1]}
		case 3:
			args = []string{cmd, "-from", w[0], "-to", w[1]}
		}
		id := strings.Join(args, " ")
		from, to := day(w[0]), day(w[1])
		o := command(r, dir, envs[i%len(envs)], bin, args...)
		r.EqI("exit", int64(o.code), 0, "exit code of "+id)
		judge(id, o.out, from, to)
		if i%50 == 0 {
			r.Sample("run", "%s: %d bytes", id, len(o.out))
		}
		if i%3 == 0 || i < 6 {
			out := filepath.Join(dir, "out."+cmd)
			given := out
			if i%4 > 1 {
				// a file of the working directory by its name alone
				given = []string{"o", "out put.txt", "ปฏิทิน.json", "./a.b", ".hidden"}[r.Rand.Intn(5)]
				out = filepath.Join(dir, given)
			}
			if i%2 == 0 {
				// longer than what will be written
				os.WriteFile(out, bytes.Repeat([]byte("previous content\n"), len(o.out)/10+100), 0644)
			} else {
				os.Remove(out)
			}
			p := command(r, dir, envs[(i+1)%len(envs)], bin, append(args, "--output", given)...)
			b, err := os.ReadFile(out)
			r.OK("output-file")
			if p.code != 0 || err != nil {
				r.Fail("output-file", id, "%s --output: exit code %d, %v\n%s", id, p.code, err, p.err)
				continue
			}
			if strings.TrimSpace(p.out) != "" {
				r.Fail("output-quiet", id, "%s --output prints %.200q", id, p.out)
			}
			if st, err := os.Stat(out); err != nil || !st.Mode().IsRegular() || st.Mode().Perm()&0600 != 0600 || st.Mode().Perm()&0111 != 0 {
				r.Fail("output-mode", id, "%s: the file is %v (%v)", id, st, err)
			}
			if stable(string(b)) != stable(o.out) {
				r.Fail("output-same", id, "%s: the file has %d bytes, other than the %d printed", id, len(b), len(o.out))
			}
			judge(id+" --output", string(b), from, to)
		}
	}
	// defaults: this calendar year (whichever it was while the command ran)
	for i := 0; i < 3; i++ {
		args := []string{cmd}
		f, t := "", ""
		if i == 1 {
			f = "2015-03-04"
			args = append(args, "--from", f)
		}
		if i == 2 {
			t = "2039-03-04"
			args = append(args, "--to", t)
		}
		before := time.Now().Year()
		o := command(r, dir, []string{"TZ=UTC"}, bin, args...)
		after := time.Now().UTC().Year()
		if before != after {
			continue
		}
		from, to := time.Date(before, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(before, 12, 31, 0, 0, 0, 0, time.UTC)
		if f != "" {
			from = day(f)
		}
		if t != "" {
			to = day(t)
		}
		r.EqI("exit", int64(o.code), 0, "exit code of "+strings.Join(args, " "))
		judge("defaults "+strings.Join(args, " "), o.out, from, to)
	}
	// bad dates and outputs that cannot be written
	bad := []string{"2016-13-01", "2016-02-30", "2015-02-29", "20160101", "2016-1-1", "2016/01/01", "yesterday", "2016-01-01T00:00:00Z", " 2016-01-01", "2016-00-10", "2016-06-31", "16-01-01"}
	for i, b := range bad {
		for _, which := range []string{"--from", "--to"} {
			args := []string{cmd, which, b}
			if i%2 == 0 {
				args = append(args, map[string]string{"--from": "--to", "--to": "--from"}[which], "2016-05-05")
			}
			out := filepath.Join(dir, "bad")
			os.Remove(out)
			if i%3 == 0 {
				args = append(args, "--output", out)
			}
			id := strings.Join(args, " ")
			o := command(r, dir, nil, bin, args...)
			r.OK("refused")
			if o.code == 0 || !empty(o.out) {
				r.Fail("refused", id, "%q: exit code %d, output %.200q", id, o.code, o.out)
			}
			if x, err := os.ReadFile(out); err == nil && !empty(string(x)) {
				r.Fail("refused", id, "%q wrote %d bytes", id, len(x))
			}
		}
	}
	os.WriteFile(filepath.Join(dir, "file"), []byte("x"), 0644)
	os.Mkdir(filepath.Join(dir, "folder"), 0755)
	for _, out := range []string{filepath.Join(dir, "missing", "out"), filepath.Join(dir, "folder"), filepath.Join(dir, "file", "out")} {
		id := cmd + " --output " + filepath.Base(filepath.Dir(out)) + "/" + filepath.Base(out)
		o := command(r, dir, nil, bin, cmd, "--from", "2016-01-01", "--to", "2016-12-31", "--output", out)
		r.OK("unwritable")
		if o.code == 0 || !empty(o.out) {
			r.Fail("unwritable", id, "%s: exit code %d, output %.200q", id, o.code, o.out)
		}
	}
	r.Floor("refused", 20)
	r.Floor("output-file", 12)
}

func init() {
	cal("C18", "the command run on fixed and random windows in four spellings of its flags and five environments, with and without --output over longer, shorter and no previous content, defaults, malformed dates, unwritable outputs; the decoded text compared field by field with the library's days, and with the published fixture; distinct: (parts of a day, decade)", func(r *rt.R) {
		driveCLI(r, "caldays", func(id, text string, from, to time.Time) { checkJSON(r, id, text, from, to) },
			func(s string) bool { return !strings.Contains(s, "{") })
		fixtureJSON(r)
		r.Floor("json-day", 2000)
	})

	cal("C19", "the command run as for C18; its events compared with the library's days; identifiers unique over all runs; the published fixture; conversions of random events called directly; distinct: number of events of a window", func(r *rt.R) {
		uids := map[string]string{}
		driveCLI(r, "ical", func(id, text string, from, to time.Time) { checkIcal(r, id, text, from, to, uids) },
			func(s string) bool { return !strings.Contains(s, "BEGIN:") })
		fixtureIcal(r)
		for i := 0; i < r.N(4000, 60000); i++ {
			at := someTime(r.Rand)
			at = time.Date(at.Year(), at.Month(), at.Day(), 0, 0, 0, 0, time.UTC)
			e := suriya.Event{Date: at, Summary: someWord(r.Rand), Description: someWord(r.Rand)}
			u := someUp(r.Rand, at)
			h := suriya.HalfMoon{Date: at, Phase: phases[1+2*r.Rand.Intn(2)]}
			a := suriya.AstroMoon{Date: at, Phase: phases[r.Rand.Intn(4)]}
			r.Ev("IcalEvent kind %d", int64(i%5))
			want := ""
			v := e.IcalEvent()
			if v.UID == "" || uids[v.UID] != "" {
				r.Fail("conversion-uid", fmt.Sprint(i), "conversion of %s %q has the identifier %q of another event", when(at), e.Summary, v.UID)
			}
			uids[v.UID] = "event"
			switch i % 5 {
			case 0:
				v, want = e.IcalEvent(), e.Summary
			case 1:
				v, want = suriya.MajorEvent(e).IcalEvent(), e.Summary
			case 2:
				v, want = u.IcalEvent(), wantUpText(u)
			case 3:
				v, want = h.IcalEvent(), wantMoonText(h.Phase)
			case 4:
				v, want = a.IcalEvent(), wantMoonText(a.Phase)
			}
			r.OK("conversion")
			if !v.DTSTART.Equal(at) || v.DTEND.Sub(v.DTSTART) != 24*time.Hour || !v.AllDay || v.SUMMARY != want || v.UID == "" || uids[v.UID] != "" {
				r.Fail("conversion", fmt.Sprint(i), "conversion of %s %q: %+v", when(at), want, v)
			}
			uids[v.UID] = "event " + want
		}
		// identifiers of very many events
		many := suriya.Event{Date: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}
		seen := make(map[string]struct{}, 1<<20)
		for i := 0; i < r.N(500000, 2000000); i++ {
			if i%4096 == 0 {
				r.Ev("IcalEvent of event %d", int64(i))
			}
			many.Summary = strconv.Itoa(i)
			id := many.IcalEvent().UID
			if _, dup := seen[id]; dup || uids[id] != "" {
				r.Fail("uid-many", "many", "the identifier %q was given to two events within %d", id, i)
				break
			}
			seen[id] = struct{}{}
			r.OK("uid-many")
		}
		r.Floor("uid-many", 500000)
		r.Notes["identifiers_seen"] = len(uids) + len(seen)
		r.Floor("ical-event", 2000)
		r.Floor("conversion", 4000)
	})
}

// The fixtures published with the command were made when it left out quarter
// moons; one of them spells Vesakha as Visakha.
func fixtureJSON(r *rt.R) {
	b, err := os.ReadFile("suriya/testdata/caldays-from-2014-01-01-to-2017-12-31.json")
	if err != nil {
		r.Notes["fixture"] = "absent"
		return
	}
	b = bytes.ReplaceAll(b, []byte("Visākha Pūjā"), []byte("Vesākha Pūjā"))
	var want map[string][]map[string]interface{}
	if json.Unmarshal(b, &want) != nil {
		r.Notes["fixture"] = "unreadable"
		return
	}
	flat := func(day map[string]interface{}) (out []string) {
		for _, k := range []string{"UposathaMoon", "HalfMoon", "AstroMoon", "MajorEvents", "Events"} {
			l, _ := day[k].([]interface{})
			for _, m := range l {
				e := m.(map[string]interface{})
				if k == "AstroMoon" && e["Phase"] != "new" && e["Phase"] != "full" {
					continue
				}
				out = append(out, fmt.Sprint(k, e["Date"], e["Phase"], e["Event"], e["Summary"], e["S_Number"], e["S_Total"], e["U_Days"], e["M_Days"], e["LunarMonth"], e["LunarSeason"], e["LunarYear"], e["HasAdhikavara"]))
			}
		}
		return
	}
	o := command(r, os.TempDir(), nil, tool("VMON_CLI"), "caldays", "--from", "2014-01-01", "--to", "2017-12-31")
	var got map[string][]map[string]interface{}
	if json.Unmarshal([]byte(o.out), &got) != nil {
		return // judged elsewhere
	}
	for _, y := range []string{"2014", "2015", "2016", "2017"} {
		var g, w []string
		for _, d := range got[y] {
			g = append(g, flat(d)...)
		}
		for _, d := range want[y] {
			w = append(w, flat(d)...)
		}
		sort.Strings(g)
		sort.Strings(w)
		r.Add("fixture", int64(len(w)))
		if d := diff(g, w); d != "" {
			r.Fail("fixture", y, "against the published caldays of %s: %s", y, d)
		}
	}
}

func fixtureIcal(r *rt.R) {
	b, err := os.ReadFile("suriya/testdata/mahanikaya-from-2013-01-01-to-2017-12-31.ical")
	if err != nil {
		r.Notes["fixture"] = "absent"
		return
	}
	want, err := parseIcal(string(b))
	if err != nil {
		r.Notes["fixture"] = err.Error()
		return
	}
	o := command(r, os.TempDir(), nil, tool("VMON_CLI"), "ical", "--from", "2013-01-01", "--to", "2017-12-31")
	got, err := parseIcal(o.out)
	if err != nil {
		return
	}
	flat := func(l []vevent) (out []string) {
		for _, e := range l {
			out = append(out, e.start+" "+strings.ReplaceAll(e.summary, "Visākha", "Vesākha"))
		}
		sort.Strings(out)
		return
	}
	r.Add("fixture", int64(len(want)))
	if d := diff(flat(got), flat(want)); d != "" {
		r.Fail("fixture", "ical", "against the published calendar of 2013-2017: %s", d)
	}
}
