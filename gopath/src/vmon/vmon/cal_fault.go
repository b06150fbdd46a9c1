//go:build calendar

package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"vmon/rt"
)

// A fault is a way in which a document cannot, or can only with patience, be
// delivered.
type fault struct {
	name string
	// script is what bash runs; "$@" is the tool with its arguments
	script string
	// nothing can take the document
	never bool
	// at most this many bytes can be taken, where not never and positive
	limit int
}

func init() {
	cal("C34", "the command and the year table tool with standard output or --output on a full device, under limits of a file's size (with the signal at its default and ignored), on pipes whose reader is gone, slow or takes single bytes, non-blocking pipes and sockets, on read-only files and directories as another user; refused calls over existing files; decided by exit code and the bytes that arrived; distinct: (tool, fault, whether it all arrived)", func(r *rt.R) {
		cli, years := tool("VMON_CLI"), os.Getenv("VMON_YEARSCSV")
		dir, err := os.MkdirTemp("", "vmon-fault-")
		if err != nil {
			monitorError("%v", err)
		}
		defer os.RemoveAll(dir)
		if err := os.Chmod(dir, 0755); err != nil {
			monitorError("%v", err)
		}
		stable := func(s string) string {
			var l []string
			for _, x := range strings.Split(strings.TrimRight(s, "\r\n"), "\n") {
				if !strings.HasPrefix(x, "UID") && !strings.HasPrefix(x, "DTSTAMP") {
					l = append(l, x)
				}
			}
			return strings.Join(l, "\n")
		}
		// run starts the script with the given standard output and says how it ended
		run := func(id, script, in string, out *os.File, cred *syscall.Credential, args []string) (code int, stderr string) {
			ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
			defer cancel()
			r.EvS("run ", id)
			c := exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", script, "bash"}, args...)...)
			c.Dir, c.Env = in, []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TZ=UTC"}
			var e bytes.Buffer
			c.Stderr = &e
			if out != nil {
				c.Stdout = out
			}
			c.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
			err := c.Run()
			if ctx.Err() != nil {
				fmt.Fprintln(os.Stderr, "INCONCLUSIVE: no end of", id)
				os.Exit(3)
			}
			if err == nil {
				return 0, e.String()
			}
			if x, ok := err.(*exec.ExitError); ok {
				if x.ExitCode() < 0 {
					return 128, e.String() // ended by a signal
				}
				return x.ExitCode(), e.String()
			}
			if cred == nil {
				monitorError("%s: %v", id, err)
			}
			return -1, err.Error() // not possible as that user
		}
		judge := func(id, kind, got, whole string, code int, f fault) {
			all := stable(got) == stable(whole)
			r.OK("delivery")
			r.State(kind, f.name, all, code == 0)
			if r.Rand.Intn(12) == 0 {
				r.Sample("delivery", "%s: exit code %d, %d of %d bytes arrived", id, code, len(got), len(whole))
			}
			if code == 0 && !all {
				r.Fail("lost", id, "%s: exit code 0, but %d of %d bytes arrived", id, len(got), len(whole))
			}
			if code != 0 && !f.never && (f.limit == 0 || f.limit > len(whole)+4096) {
				r.Fail("failed", id, "%s: exit code %d though the %d bytes could be delivered (%d arrived)", id, code, len(whole), len(got))
			}
		}
		// What is given a name in /dev is run as a user who can remove or
		// replace nothing there, whatever the tool does with its output.
		nobody := &syscall.Credential{Uid: 65534, Gid: 65534}
		asNobody := true
		for _, bin := range []string{cli, years} {
			if bin == "" {
				continue
			}
			if code, _ := run("can another user run it", `exec test -x "$1"`, dir, nil, nobody, []string{bin}); code != 0 {
				asNobody = false
				r.Notes["other_user"] = "not possible here"
			}
		}
		full := false
		if st, err := os.Stat("/dev/full"); err == nil && st.Mode()&os.ModeCharDevice != 0 {
			full = true
		} else {
			r.Notes["dev_full"] = "no such device here"
		}
		// confined says as whom a script is run in a folder, and whether at all
		confined := func(script, in string) (*syscall.Credential, bool) {
			if !strings.Contains(script, "/dev/") && !strings.Contains(script, "/proc/") {
				return nil, true
			}
			if !asNobody || strings.Contains(script, "/dev/full") && !full {
				return nil, false
			}
			if err := os.Chown(in, 65534, 65534); err != nil {
				monitorError("%v", err)
			}
			return nobody, true
		}
		read := func(p string) string { b, _ := os.ReadFile(p); return string(b) }
		plain := `exec "$@"`
		serial := 0
		fresh := func() string {
			serial++
			d := filepath.Join(dir, fmt.Sprint("run-", serial))
			if err := os.Mkdir(d, 0755); err != nil {
				monitorError("%v", err)
			}
			return d
		}
		var done []string
		for round := 0; round < r.N(6, 60); round++ {
			for _, d := range done {
				os.RemoveAll(d)
			}
			done = nil
			cmd := []string{"caldays", "ical"}[round%2]
			y := 1900 + r.Rand.Intn(130)
			from, to := fmt.Sprintf("%04d-01-01", y), fmt.Sprintf("%04d-%02d-28", y+[]int{0, 0, 1, 4, 12, 30}[r.Rand.Intn(6)], 1+r.Rand.Intn(12))
			args := []string{cli, cmd, "--from", from, "--to", to}
			line := strings.Join(args[1:], " ")
			d := fresh()
			done = append(done, d)
			ref := filepath.Join(d, "reference")
			f, err := os.Create(ref)
			if err != nil {
				monitorError("%v", err)
			}
			code, stderr := run(line, plain, d, f, nil, args)
			f.Close()
			whole := read(ref)
			if code != 0 || len(whole) < 100 {
				r.Fail("reference", line, "%s: exit code %d, %d bytes\n%s", line, code, len(whole), stderr)
				continue
			}
			// standard output
			var faults []fault
			faults = append(faults, fault{"stdout full", `exec "$@" > /dev/full`, true, 0})
			for k := 0; k < 3; k++ {
				kb := []int{0, 1, r.Rand.Intn(len(whole)/1024 + 2), len(whole)/1024 + 8}[r.Rand.Intn(4)]
				sig := []string{"", "trap '' XFSZ; "}[r.Rand.Intn(2)]
				faults = append(faults, fault{fmt.Sprintf("stdout of at most %d KB %s", kb, sig), fmt.Sprintf(`%sulimit -f %d; exec "$@" > out`, sig, kb), kb*1024 < len(whole), kb * 1024})
				faults = append(faults, fault{fmt.Sprintf("--output of at most %d KB %s", kb, sig), fmt.Sprintf(`%sulimit -f %d; exec "$@" --output out`, sig, kb), kb*1024 < len(whole)-1, kb * 1024})
			}
			faults = append(faults, fault{"--output full", `exec "$@" --output /dev/full`, true, 0},
				fault{"--output linked to full", `ln -s /dev/full out; exec "$@" --output out`, true, 0},
				fault{"--output of an existing file", `seq 200000 > out; exec "$@" --output out`, false, 0},
				fault{"--output to standard output", `exec "$@" --output /proc/self/fd/1 > out`, false, 0},
				fault{"a new file", `exec "$@" > out`, false, 0},
				fault{"appended standard output", `exec "$@" >> out`, false, 0})
			for _, f := range faults {
				d := fresh()
				done = append(done, d)
				id := line + ", " + f.name
				cred, ok := confined(f.script, d)
				if !ok {
					continue
				}
				null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
				code, _ := run(id, f.script, d, null, cred, args)
				null.Close()
				got := ""
				if !strings.Contains(f.script, "/dev/full") {
					got = read(filepath.Join(d, "out"))
				}
				judge(id, cmd, got, whole, code, f)
			}
			// pipes and sockets
			for k, name := range []string{"reader gone", "reader gone, signal ignored", "slow reader", "reader of single bytes", "non-blocking pipe", "socket", "reader that leaves"} {
				id := line + ", " + name
				var rd, wr *os.File
				if name == "socket" {
					fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
					if err != nil {
						monitorError("%v", err)
					}
					rd, wr = os.NewFile(uintptr(fds[0]), "reader"), os.NewFile(uintptr(fds[1]), "writer")
				} else {
					var fds [2]int
					if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
						monitorError("%v", err)
					}
					if name == "non-blocking pipe" {
						syscall.SetNonblock(fds[1], true)
					}
					rd, wr = os.NewFile(uintptr(fds[0]), "reader"), os.NewFile(uintptr(fds[1]), "writer")
				}
				script, f := plain, fault{name: name}
				got := make(chan string, 1)
				switch k {
				case 0, 1:
					f.never = true
					rd.Close()
					got <- ""
					if k == 1 {
						script = `trap '' PIPE; exec "$@"`
					}
				case 6:
					// takes some of a document that the pipe cannot hold
					f.never = true
					go func() {
						b := make([]byte, 100)
						n, _ := io.ReadFull(rd, b)
						rd.Close()
						got <- string(b[:n])
					}()
					if len(whole) < 200000 {
						// it may all have been taken before the reader left
						f.never = false
						f.limit = 1
					}
				default:
					step, pause := 4096, time.Millisecond
					if k == 3 {
						step, pause = 1, 0
					}
					if k == 2 {
						step, pause = 20000, 20*time.Millisecond
					}
					go func() {
						var all bytes.Buffer
						b := make([]byte, step)
						for {
							n, err := rd.Read(b)
							all.Write(b[:n])
							if err != nil {
								break
							}
							if pause > 0 {
								time.Sleep(pause)
							}
						}
						rd.Close()
						got <- all.String()
					}()
				}
				var code int
				code, _ = run(id, script, d, wr, nil, args)
				wr.Close()
				g := <-got
				if f.limit == 1 {
					r.OK("delivery")
					continue // nothing to decide
				}
				judge(id, cmd, g, whole, code, f)
			}
			// as a user who may not write there
			d = fresh()
			done = append(done, d)
			for _, n := range []string{"keep", "mine"} {
				os.WriteFile(filepath.Join(d, n), []byte("previous\n"), 0444)
			}
			os.Chown(filepath.Join(d, "mine"), 65534, 65534)
			os.Chmod(filepath.Join(d, "mine"), 0644)
			if asNobody {
				for _, out := range []string{"keep", "new", "mine"} {
					id := line + ", --output " + out + " as another user"
					code, _ := run(id, plain, d, nil, nobody, append(append([]string{}, args...), "--output", out))
					got := read(filepath.Join(d, out))
					f := fault{name: out + " as another user", never: out != "mine"}
					judge(id, cmd, got, whole, code, f)
					if out == "keep" && got != "previous\n" {
						r.Fail("kept", id, "%s: the file it may not write holds %d bytes", id, len(got))
					}
				}
			}
			// refused calls leave what is there
			for k, bad := range [][]string{{"--from", "2015-02-29"}, {"--to", "2015-13-01"}, {"--from", "x", "--to", "y"}} {
				p := filepath.Join(d, fmt.Sprint("refused-", k))
				os.WriteFile(p, []byte("previous\n"), 0644)
				id := cmd + " " + strings.Join(bad, " ") + " over an existing file"
				code, _ := run(id, plain, d, nil, nil, append([]string{cli, cmd, "--output", p}, bad...))
				r.OK("kept")
				if got := read(p); code == 0 || got != "previous\n" {
					r.Fail("kept", id, "%s: exit code %d, the file holds %d bytes", id, code, len(got))
				}
			}
			// the year table
			if years == "" {
				continue
			}
			d = fresh()
			done = append(done, d)
			code, stderr = run("years", plain, d, nil, nil, []string{years})
			table := read(filepath.Join(d, "years.csv"))
			if code != 0 || len(table) < 100 {
				r.Fail("reference", "years", "the year table: exit code %d, %d bytes\n%s", code, len(table), stderr)
				continue
			}
			kb := r.Rand.Intn(len(table)/1024 + 1)
			for _, f := range []fault{
				{"years.csv linked to full", `ln -s /dev/full years.csv; exec "$@"`, true, 0},
				{"years.csv a directory", `mkdir years.csv; exec "$@"`, true, 0},
				{fmt.Sprintf("years.csv of at most %d KB", kb), fmt.Sprintf(`trap '' XFSZ; ulimit -f %d; exec "$@"`, kb), true, 0},
				{fmt.Sprintf("years.csv of at most %d KB, signal not ignored", kb), fmt.Sprintf(`ulimit -f %d; exec "$@"`, kb), true, 0},
				{"years.csv longer before", `seq 20000 > years.csv; exec "$@"`, false, 0},
				{"years.csv linked to nowhere", `ln -s missing/file years.csv; exec "$@"`, true, 0},
			} {
				d := fresh()
				done = append(done, d)
				cred, ok := confined(f.script, d)
				if !ok {
					continue
				}
				code, _ := run(f.name, f.script, d, nil, cred, []string{years})
				got := ""
				if !strings.Contains(f.script, "/dev/full") {
					got = read(filepath.Join(d, "years.csv"))
				}
				judge(f.name, "years", got, table, code, f)
			}
		}
		r.Floor("delivery", 100)
		r.Floor("kept", 10)
	})
}
