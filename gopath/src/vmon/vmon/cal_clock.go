//go:build calendar

package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

// The command is built with a clock that shows the instant given in
// VMON_CLOCK (the standard library's time.Now, replaced by an overlay).
func init() {
	cal("C32", "the command run with neither, one or both dates at instants set through a replaced clock: the first and last seconds of years, leap days, random instants of 1902..2400, in zones from -11 to +14 hours; its output against the library's days of the window from 1 January to 31 December of the year shown by a local clock; distinct: (command, flags given, zone, place in the year)", func(r *rt.R) {
		bin := tool("VMON_CLI_CLOCK")
		dir, err := os.MkdirTemp("", "vmon-clock-")
		if err != nil {
			monitorError("%v", err)
		}
		defer os.RemoveAll(dir)
		zones := []string{"UTC", "Asia/Bangkok", "America/Los_Angeles", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/Paris", "Asia/Kathmandu"}
		uids := map[string]string{}
		// years in which something falls on or next to the ends of the window
		var edge []int
		for _, a := range loadAstro(r) {
			if d := a.at.Format("01-02"); d == "12-31" || d == "01-01" || d == "12-30" && a.at.Hour() > 21 {
				edge = append(edge, a.at.Year())
			}
		}
		for y := 1902; y < 2400; y++ {
			for _, e := range suriya.GenerateSolarYear(y) {
				if d := e.GetDate().Format("01-02"); d == "12-31" || d == "01-01" {
					edge = append(edge, y)
				}
			}
		}
		r.Notes["ends_with_an_event"] = len(edge)
		next := 0
		for i := 0; i < r.N(300, 3000); i++ {
			zone := zones[r.Rand.Intn(len(zones))]
			if i < 2*len(zones) {
				zone = zones[i%len(zones)]
			}
			loc, err := time.LoadLocation(zone)
			if err != nil {
				monitorError("%v", err)
			}
			y := 1902 + r.Rand.Intn(140)
			if i%5 == 0 {
				y = 1902 + r.Rand.Intn(500)
			}
			atEdge := i%2 == 1 && len(edge) > 0
			if atEdge {
				y = edge[next%len(edge)]
				next++
				if next > 60 {
					y = edge[r.Rand.Intn(len(edge))]
				}
			}
			var at time.Time
			place := i % 6
			switch place {
			case 0:
				at = time.Date(y, 1, 1, 0, 0, 0, 0, loc)
			case 1:
				at = time.Date(y, 12, 31, 23, 59, 59, 0, loc)
			case 2:
				at = time.Date(y, 1, 1, 0, 0, r.Rand.Intn(15*3600), 0, loc)
			case 3:
				at = time.Date(y, 12, 31, 0, 0, 86399-r.Rand.Intn(15*3600), 0, loc)
			case 4:
				at = time.Date(y, 2, 29, 12, 0, 0, 0, loc)
			default:
				at = time.Date(y, 1, 1, 0, 0, 0, 0, loc).Add(time.Duration(r.Rand.Int63n(365*86400)) * time.Second)
			}
			year := at.In(loc).Year()
			from, to := time.Date(year, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(year, 12, 31, 0, 0, 0, 0, time.UTC)
			cmd := "caldays"
			if i%3 == 2 && !(atEdge && next <= 60) {
				cmd = "ical"
			}
			args := []string{cmd}
			given := r.Rand.Intn(5)
			if atEdge && r.Rand.Intn(3) != 0 {
				given = 0
			}
			if given == 1 || given == 3 {
				d := model.DaysFromCivil(int64(year), 1, 1) + r.Rand.Int63n(1400) - 800
				args = append(args, "--from", ymd(d))
				from = day(ymd(d))
			}
			if given == 2 || given == 3 {
				d := model.DaysFromCivil(int64(year), 1, 1) + r.Rand.Int63n(1400) - 500
				args = append(args, "--to", ymd(d))
				to = day(ymd(d))
			}
			if given != 1 && given != 3 && r.Rand.Intn(4) == 0 {
				args = append(args, "--from=")
			}
			if given != 2 && given != 3 && r.Rand.Intn(4) == 0 {
				args = append(args, "--to", "")
			}
			id := fmt.Sprintf("%s at %s in %s", strings.Join(args, " "), at.UTC().Format(time.RFC3339), zone)
			o := command(r, dir, []string{"TZ=" + zone, fmt.Sprintf("VMON_CLOCK=%d", at.Unix())}, bin, args...)
			r.EqI("exit", int64(o.code), 0, "exit code of "+id)
			if cmd == "caldays" {
				checkJSON(r, id, o.out, from, to)
			} else {
				checkIcal(r, id, o.out, from, to, uids)
			}
			r.State(cmd, given, zone, place)
			r.OK("clock")
			if i%40 == 0 {
				r.Sample("run", "%s: %d bytes", id, len(o.out))
			}
		}
		r.Floor("clock", 150)
		r.Floor("json-day", 3000)
		r.Floor("ical-event", 1500)
	})
}
