//go:build calendar

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/rt"
)

// The command and the year table tool are built with the overlay that replaces
// the clock and the environment, and asked the same in many environments.
func init() {
	cal("C23", "the command (both dates given) and the year table tool in other zones, locales and directories, at other times of a replaced clock and with every environment variable set, against the same in a bare environment; distinct: (what was run, environment).", func(r *rt.R) {
		bin, years := os.Getenv("VMON_CLI_CLOCK"), os.Getenv("VMON_YEARS_CLOCK")
		if bin == "" {
			r.Notes["command_in_environments"] = "this toolchain's clock cannot be replaced"
			return
		}
		root, err := os.MkdirTemp("", "vmon-env-")
		if err != nil {
			monitorError("%v", err)
		}
		defer os.RemoveAll(root)
		decoy := filepath.Join(root, "decoy")
		if err := os.MkdirAll(filepath.Join(decoy, "data", "astro"), 0755); err != nil {
			monitorError("%v", err)
		}
		for y := 1895; y < 2050; y++ {
			b := fmt.Sprintf(`{"success":true,"error":null,"response":[{"timestamp":1,"dateTimeISO":"%d-06-15T12:00:00+00:00","code":2,"name":"full moon"}]}`, y)
			if err := os.WriteFile(filepath.Join(decoy, "data", "astro", fmt.Sprintf("astro-%d.json", y)), []byte(b), 0644); err != nil {
				monitorError("%v", err)
			}
		}
		n := 0
		run := func(in string, env []string, what []string) string {
			if what[0] != "years" {
				o := command(r, in, env, bin, what...)
				out := o.out
				if what[0] == "ical" {
					var l []string
					for _, s := range strings.Split(out, "\n") {
						if !strings.HasPrefix(s, "UID") && !strings.HasPrefix(s, "DTSTAMP") {
							l = append(l, s)
						}
					}
					out = strings.Join(l, "\n")
				}
				return fmt.Sprintf("exit %d\n%s", o.code, out)
			}
			n++
			d := filepath.Join(in, fmt.Sprint("years-", n))
			if err := os.Mkdir(d, 0755); err != nil {
				monitorError("%v", err)
			}
			o := command(r, d, env, years)
			b, err := os.ReadFile(filepath.Join(d, "years.csv"))
			return fmt.Sprintf("exit %d\n%v\n%s%s", o.code, err, o.out, b)
		}
		files := decoyFiles(root)
		for round := 0; round < r.N(3, 30); round++ {
			y := 1890 + r.Rand.Intn(150)
			if round%3 == 2 {
				y = 700 + r.Rand.Intn(2200)
			}
			from, to := fmt.Sprintf("%04d-%02d-01", y, 1+r.Rand.Intn(12)), fmt.Sprintf("%04d-12-31", y+r.Rand.Intn(4))
			if round == 0 {
				from, to = "1993-11-01", "1998-02-01"
			}
			if round > 0 {
				// both ends on days that hold something
				l := suriya.GetCalDays(time.Date(y, time.Month(1+r.Rand.Intn(12)), 1, 0, 0, 0, 0, time.UTC), time.Date(y+1+r.Rand.Intn(3), 1, 1, 0, 0, 0, 0, time.UTC))
				some := func(half int) string {
					for k := 0; ; k++ {
						if d := l[half*len(l)/2+r.Rand.Intn(len(l)/2)]; len(d.UposathaMoon)+len(d.HalfMoon) > 0 || k > 100 {
							return d.Date.Format("2006-01-02")
						}
					}
				}
				if len(l) > 3 {
					from, to = some(0), some(1)
				}
			}
			asks := [][]string{{"caldays", "--from", from, "--to", to}, {"ical", "--from", from, "--to", to}, {"caldays", "--from", "2015-13-01", "--to", to}}
			if years != "" {
				asks = append(asks, []string{"years"})
			}
			type variant struct {
				name, dir string
				env       []string
			}
			vs := []variant{{"in a directory with other data", decoy, nil}, {"in the root directory", "/", nil}}
			for _, z := range []string{"Pacific/Kiritimati", "America/Los_Angeles", "Asia/Kathmandu"} {
				vs = append(vs, variant{"TZ=" + z, root, []string{"TZ=" + z}})
			}
			vs = append(vs, variant{"locale", root, []string{"LC_ALL=th_TH.UTF-8", "LANG=th_TH.UTF-8", "LANGUAGE=th"}})
			for _, at := range []int64{0, 951782400, 1451606399, 7258118400} {
				vs = append(vs, variant{fmt.Sprint("clock at ", at), root, []string{fmt.Sprint("VMON_CLOCK=", at)}})
			}
			for _, v := range []string{"1", "0", "true", "debug", "th_TH.UTF-8", "2543", root} {
				vs = append(vs, variant{"every environment variable set to " + v, root, []string{"VMON_ENVALL=" + v}})
			}
			for _, f := range files {
				vs = append(vs, variant{"every missing file as " + filepath.Base(f), root, []string{"VMON_DECOY=" + f}}, variant{"every environment variable naming " + filepath.Base(f), root, []string{"VMON_ENVALL=" + f}})
			}
			for _, a := range asks {
				want := run(root, nil, a)
				r.OK("command")
				for _, v := range vs {
					if v.dir == "/" && a[0] == "years" {
						continue
					}
					id := strings.Join(a, " ") + ", " + v.name
					got := run(v.dir, v.env, a)
					r.OK("command")
					r.State(a[0], v.name)
					if got != want {
						i := 0
						for i < len(got) && i < len(want) && got[i] == want[i] {
							i++
						}
						around := func(s string) string { return shorten(s[max(0, i-80):min(len(s), i+200)]) }
						r.Fail("command-differs", id, "%s: from byte %d on it gives\n%s\nin a bare environment\n%s", id, i, around(got), around(want))
					}
				}
			}
		}
		r.Floor("command", 150)
	})
}
