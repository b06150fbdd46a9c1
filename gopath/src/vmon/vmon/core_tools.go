package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/model"
	"vmon/rt"
)

type outcome struct {
	code     int
	out, err string
}

// command runs a tool; a run that uses 60 s of processor time is cut off and is a violation.
func command(r *rt.R, dir string, env []string, name string, args ...string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	line := filepath.Base(name) + " " + strings.Join(args, " ")
	r.EvS("run ", line)
	c := exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", `ulimit -t 60; exec "$@"`, "bash", name}, args...)...)
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir}, env...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	res := outcome{0, o.String(), e.String()}
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			fmt.Fprintln(os.Stderr, "cannot run", line, err)
			os.Exit(2)
		}
		res.code = x.ExitCode()
		if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			if ctx.Err() != nil {
				fmt.Fprintln(os.Stderr, "INCONCLUSIVE: no end of", line)
				os.Exit(3)
			}
			r.Fail("killed", line, "%s ended by signal %v\n%s", line, ws.Signal(), res.err)
			if ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL {
				r.Stop() // every further run would take as long
			}
			res.code = -1
		}
		if strings.Contains(res.err, "goroutine ") && strings.Contains(res.err, "splendidmoons/suriya-go") {
			r.Fail("crash", line, "%s crashed:\n%s", line, res.err)
		}
	}
	return res
}

func tool(env string) string {
	t := os.Getenv(env)
	if t == "" {
		fmt.Fprintln(os.Stderr, "tool not built:", env)
		os.Exit(2)
	}
	return t
}

func init() {
	core("C21", "the tool built and run in fresh directories, in other environments and over a longer previous file; every line of its output against the library, the era arithmetic and the published table; distinct: rows", yearsTool)
}

func yearsTool(r *rt.R) {
	if e := os.Getenv("VMON_YEARSCSV_FAILED"); e != "" {
		r.EvS("build", "utils/years-csv.go")
		r.OK("build")
		r.Fail("build", "utils/years-csv.go", "the tool does not build though the library does:\n%s", e)
		return
	}
	bin := tool("VMON_YEARSCSV")
	suriya.UseExceptions = false
	c := prepared(nil)
	published, err := os.ReadFile("utils/years.csv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	envs := [][]string{nil, {"TZ=America/Los_Angeles"}, {"TZ=Pacific/Kiritimati", "LC_ALL=th_TH.UTF-8", "LANG=th_TH"}, {"GOMAXPROCS=1", "GOGC=1"}}
	for i := 0; i < r.N(8, 60); i++ {
		dir, err := os.MkdirTemp("", "vmon-years-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer os.RemoveAll(dir)
		out := filepath.Join(dir, "years.csv")
		if i%2 == 1 {
			os.WriteFile(out, bytes.Repeat([]byte("previous;content\n"), 2000), 0644)
		}
		o := command(r, dir, envs[i%len(envs)], bin)
		r.EqI("exit", int64(o.code), 0, "exit code of the year table tool")
		b, err := os.ReadFile(out)
		r.OK("written")
		if err != nil {
			r.Fail("written", "years.csv", "the tool wrote no years.csv: %v %s", err, o.err)
			return
		}
		r.OK("published")
		if !bytes.Equal(b, published) {
			got, want := strings.Split(string(b), "\n"), strings.Split(string(published), "\n")
			at, g, w := 0, "", ""
			for at = 0; at < len(got) || at < len(want); at++ {
				g, w = "(none)", "(none)"
				if at < len(got) {
					g = got[at]
				}
				if at < len(want) {
					w = want[at]
				}
				if g != w {
					break
				}
			}
			r.Fail("published", "years.csv", "line %d is %q, published is %q", at+1, g, w)
		}
		lines := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
		if len(lines) != 1+2041-1970+1 {
			r.Fail("lines", "years.csv", "%d lines, want a header and the years 1970..2041", len(lines))
			return
		}
		for k, l := range lines[1:] {
			y := int64(1970 + k)
			f := strings.Split(l, ";")
			if len(f) != 14 {
				r.Fail("columns", fmt.Sprint(y), "line of %d has %d columns: %q", y, len(f), l)
				continue
			}
			m := model.YearOf(y)
			su := newYear(y)
			dm, dv := "", ""
			if model.IsM(y) {
				dm = fmt.Sprint(su.DeltaAdhikamasa())
			}
			if c.IsV(y) {
				dv = fmt.Sprint(su.DeltaAdhikavara())
			} else if model.WouldV(y) {
				dv = "x"
			}
			asalha := ymd(c.Asalha(y))
			test := ""
			if f[10] != "" {
				test = "FAIL"
				if f[10] == asalha {
					test = "OK"
				}
			}
			want := []string{fmt.Sprint(y), fmt.Sprint(m.BE), fmt.Sprint(m.K), fmt.Sprint(m.A), fmt.Sprint(m.T), fmt.Sprint(model.Mod(y-1984, 19) + 1), dm,
				fmt.Sprint(model.Mod(y-1984, 57) + 1), dv, asalha, f[10], test}
			lib := []string{fmt.Sprint(su.Year), fmt.Sprint(su.BE_Year), fmt.Sprint(su.Kammacubala), fmt.Sprint(su.Avoman), fmt.Sprint(su.Tithi), fmt.Sprint(su.AdhikamasaCyclePos()), dm,
				fmt.Sprint(su.AdhikavaraCyclePos()), dv, su.AsalhaPuja().Format("2006-01-02"), f[10], test}
			for j := range want {
				r.OK("cell")
				if f[j] != want[j] || f[j] != lib[j] {
					r.Fail("cell", fmt.Sprint(y, " column ", j+1), "year %d column %d (%s) is %q; by rule %q, by the library %q", y, j+1, strings.Split(lines[0], ";")[j], f[j], want[j], lib[j])
				}
			}
			r.State(l)
			if k == 46 {
				r.Sample("row", "%s", l)
			}
		}
	}
	r.Floor("cell", 5000)
}
