// Command vmon runs one monitor against the suriya-go package it is linked with.
//
//go:debug panicnil=0
package main

import (
	"flag"
	"fmt"
	"os"

	"vmon/rt"
)

type monitor struct {
	rule string
	core func(*rt.R)
	cal  func(*rt.R)
}

var monitors = map[string]*monitor{}

func core(id, rule string, f func(*rt.R)) {
	m := get(id)
	m.core = f
	if m.rule != "" {
		rule += " " + m.rule
	}
	m.rule = rule
}

func cal(id, rule string, f func(*rt.R)) {
	m := get(id)
	m.cal = f
	if m.rule != "" && rule != "" {
		m.rule += " "
	}
	m.rule += rule
}

func get(id string) *monitor {
	if monitors[id] == nil {
		monitors[id] = &monitor{}
	}
	return monitors[id]
}

// wanders are the properties whose monitor runs in a process that changes its time zone.
var wanders = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true,
	"C09": true, "C11": true, "C12": true, "C13": true, "C14": true, "C15": true, "C20": true, "C22": true, "C24": true, "C26": true,
	"C27": true, "C28": true, "C29": true, "C30": true}

// hasCalendar is set in the full build, with the files that need the ical library.
var hasCalendar bool

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "evidence file")
	rdir := flag.String("replaydir", "", "where to write witnesses")
	known := flag.String("known", "", "known findings")
	mode := flag.String("mode", "", "worker mode: ops, race")
	flag.Parse()
	switch *mode {
	case "ops":
		opsWorker(flag.Args())
		return
	case "quiet":
		quietWorker(flag.Args())
		return
	case "race":
		raceWorker(flag.Args())
		return
	}
	m := monitors[*prop]
	if m == nil || m.core == nil && m.cal == nil {
		fmt.Fprintf(os.Stderr, "no monitor for %s in this build (calendar files built: %v)\n", *prop, hasCalendar)
		os.Exit(2)
	}
	r := rt.New(*prop, *tier, *seed)
	r.Out, r.ReplayDir, r.KnownFile, r.Rule = *out, *rdir, *known, m.rule
	r.Notes["calendar_files_built"] = hasCalendar
	if wanders[*prop] {
		r.Wander()
	}
	r.Run(func(r *rt.R) {
		if m.core != nil {
			m.core(r)
		}
		if m.cal != nil {
			m.cal(r)
		}
	})
}
