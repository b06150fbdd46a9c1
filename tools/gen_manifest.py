#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "Decided on observed executions of the code built from /repo's working tree; nothing is claimed for inputs not run. "
LIBS = "The packages the tree imports but does not hold (soh335/ical, satori/go.uuid, codegangsta/cli, davecgh/go-spew) are replaced by small stand-ins in /verif/gopath. "
N = {
 "C01": ("online monitor: every year against the era arithmetic, receivers filled with junk", "All years 638..20000 in three orders and all years to 1,000,000 (10,000,000 in thorough); oracle is integer arithmetic on the written formulae."),
 "C02": ("online trace monitor over consecutive years (conservation of days)", "Exhaustive over the years stated, from the library's own counters."),
 "C03": ("online monitor: intercalation rule recomputed from tithi and avoman", "Exhaustive over the years stated, in three orders."),
 "C04": ("online monitor against independent astronomy (mean lunations) and era counters", "Exhaustive over years 638..3500; trusts Meeus' mean lunation formula."),
 "C05": ("history monitor: random switch/table/query sequences against a model", "Random histories; the model of the calendar with exceptions is independent integer arithmetic."),
 "C06": ("online trace monitor over Kattika and Asalha chains", "Exhaustive over years 638..3500 in three orders."),
 "C07": ("online monitor: dates against own civil-date arithmetic", "Dense range -200,000..2,000,000 (quick and thorough) and boundary and random numbers to +-10^9; oracle is Hinnant-style integer date arithmetic."),
 "C08": ("online monitor: day counters recomputed in integers, reused receivers", "All years with all days 0..400."),
 "C09": ("online monitor: longitudes recomputed from integer arcminutes, continuity between days", "Comparison within the 4-decimal precision of the procedure plus one arcminute where the library's rounding may go either way."),
 "C10": ("online property monitor: split/join/normalise identities", "Every arcminute in +-1440 degrees, boundaries, random angles to +-100,000."),
 "C11": ("online monitor: cycle positions and distances against backward search", "Exhaustive over the years stated, exceptions off and on."),
 "C12": ("online trace monitor of the observance-day automaton", "The whole chain 637..3500, each Kattika-to-Kattika segment and random restarts. " + LIBS),
 "C13": ("online trace monitor: generated events against a calendar laid out month by month", "Exhaustive over 638..3500 in random order, exceptions off and on. " + LIBS),
 "C14": ("online monitor: windows against model and shipped records, aliasing and split checks", "Random and boundary windows in 14 zones. " + LIBS),
 "C15": ("online monitor: queries against an independent parse of the shipped files", "Every record +-1 ns as window end; pairs of years; random windows. " + LIBS),
 "C16": ("online monitor of file-system histories, interleaved and concurrent readers, fault injection on paths", "All shipped files by all routes; random reader schedules."),
 "C17": ("Go race detector plus offline comparison of concurrent and sequential result logs", "Schedules are those the runtime produced over many fresh processes with barrier starts; the race detector sees unsynchronised accesses even when the schedule happened to be harmless. Build with -race (cgo, gcc)."),
 "C18": ("black-box monitor of the built command: output decoded and compared with the library", "Random windows, outputs, faults. The command line parser is a stand-in. " + LIBS),
 "C19": ("black-box monitor of the built command: iCalendar output parsed and compared", "The iCalendar encoder is a stand-in that prints what it is given. " + LIBS),
 "C20": ("online monitor: tables and texts against their documented order", "Tables exhaustively, unknown and random names, all combinations of texts. " + LIBS),
 "C21": ("black-box monitor of the built tool: written table against library and published table", "All rows and columns, several environments and previous contents."),
 "C22": ("history monitor: random container operations against a model", "Random sequences and lists with aliasing checks. " + LIBS),
 "C23": ("offline comparison of recorded (query, answer) logs across processes, orders and builds", "Environments, orders and build targets (amd64, amd64 v3, 386) and clocks listed in the evidence. " + LIBS),
 "C24": ("online trace monitor over successive recorded moons, against independent astronomy", "All records of 1902..2032; trusts Meeus' mean phases. 19 gaps in the shipped data are known findings. " + LIBS),
 "C25": ("process monitor: output, files, descriptors, goroutines, heap and settings before and after repeated workloads", "Growth below 60 KB over 500..30000 calls of a kind is taken for none. " + LIBS),
 "C26": ("crash and progress monitor under hostile arguments", "Random and boundary arguments; lost progress is judged by processor time. " + LIBS),
 "C27": ("online monitor pairing two independent event streams one to one", "All days and records of 1902..2032. " + LIBS),
 "C28": ("online monitor against independent astronomy, and between two ways of counting the same day", "Trusts Meeus' main terms; bounds as in the statement. " + LIBS),
 "C29": ("online monitor: encode, decode, compare field by field", "Random values; trusts encoding/json. " + LIBS),
 "C30": ("online monitor against published calendars held in the harness", "42 years of Asalha, 17 of Magha and Vesakha. " + LIBS),
 "C31": ("differential monitor: HTTP answers against a server over the shipped files; reader contract by testing/iotest", "Random requests; trusts net/http and testing/iotest."),
 "C32": ("black-box monitor of the built command under a replaced clock (overlay of time.Now)", "Random and boundary instants. " + LIBS),
 "C34": ("fault injection into the built tools (full devices, size limits, broken and slow pipes, permissions) with a black-box monitor of exit code and delivered bytes", "Random windows and the listed kinds of fault. " + LIBS),
 "C35": ("black-box monitor of the script against a service of the monitor's, with a hastened clock (preloaded library) and broken answers", "Scenarios and random ranges as listed in the evidence; what seems too fast by the hastened clock is decided by the real one. Uses the sandbox's bash, curl, date, sleep and gcc."),
 "C33": ("online monitor: decoded documents against an independent reading", "Random documents and all shipped ones; trusts encoding/json."),
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "Runtime monitoring: see DESIGN.md. No hooks in /repo; the monitors observe through the exported interface, the built command and the race detector."}
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    t, n = N[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                        "technique": "runtime monitoring - " + t, "level": "exploration", "level_note": BASE + n.strip()})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
