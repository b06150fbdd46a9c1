#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Year counters equal the Suriyayatra era arithmetic for every year",
  "For every CE year from 638 up to at least 1,000,000, an initialised year reports BE = CE+543, CS = CE-638, elapsed days H = floor((CS*292207+373)/800)+1, kammacubala = 800-((CS*292207+373) mod 800), uccabala = (H+2611) mod 3232, avoman = (11H+650) mod 692, and masaken and tithi equal to quotient and remainder by 30 of H + floor((11H+650)/692). The values depend on the year alone: what the receiver held before, and which years were computed earlier, make no difference. The printed summary of a year shows exactly the values it holds.",
  ["inputs", "histories"], "Every CE year 638..1,000,000 and every earlier sequence of initialisations, including re-initialising the same object.",
  "The tests pin two years (1963, 1496), each on a fresh object.",
  ["suriya_year.go", "suriya.go"], [("SuriyaYear.Init", "suriya_year.go"), ("SuriyaValuesString, String", "suriya_year.go"), ("era constants", "suriya.go")],
  ["fields of an initialised year", "SuriyaValuesString()"])

p("C02", "Solar years tile the era exactly: 365 or 366 days, leap iff flagged",
  "For every CE year from 638 to 20,000, the elapsed-day count grows by 366 into the next year exactly when the year is flagged as a solar leap year (kammacubala at most 207) and by 365 otherwise, so any 800 consecutive years contain exactly 292,207 days and 207 leap years. Over the same step uccabala, the lunar elapsed days (30*masaken+tithi) and avoman advance by what those days imply, with no jump, loss or repetition at any year boundary. All counters stay in their ranges (kammacubala 1..800, uccabala 0..3231, avoman 0..691, tithi 0..29).",
  ["histories", "inputs"], "Every pair of consecutive years and every 800-year window in CE 638..20,000.",
  "Tests never compare consecutive years and never call the leap-year predicate.",
  ["suriya_year.go"], [("Init", "suriya_year.go"), ("Is_Suriya_Leap", "suriya_year.go")], ["fields and leap flag of successive years"])

p("C03", "Intercalation rule: each year is exactly one of three kinds",
  "For every CE year from 638 to 20,000 (exceptions off), the year qualifies for an extra month when its tithi is 24..29 or 0..5 and has one exactly when it qualifies and the following year does not; it qualifies for an extra day when its avoman is at most 126 (solar leap year) or below 137 (other years) and has one exactly when it has no extra month and either qualifies itself or the previous year had an extra month while qualifying. No year has both, and up to 3500 extra-month years are 2 or 3 years apart and extra-day years 4 to 7 years apart. The year length is 384, 355 or 354 days accordingly.",
  ["inputs", "histories"], "Every CE year 638..20,000, in any query order.",
  "Tests list 69 years for the extra month and 24 for the extra day; YearLength is only reached indirectly.",
  ["suriya_year.go"], [("Is_Adhikamasa / Would_Be_Adhikamasa", "suriya_year.go"), ("Is_Adhikavara / Would_Be_Adhikavara / Has_Carried_Adhikavara", "suriya_year.go"), ("YearLength", "suriya_year.go")],
  ["predicates and YearLength of a year"])

p("C04", "The lunar calendar never drifts from the sun or the real moon",
  "For every CE year from 638 to 3500 (exceptions off), the computed Asalha Puja falls when the era's own lunar day (tithi of that civil date's elapsed-day count) is 14 or 15, no more than 1.5 days from the mean and 2.5 days from the true full moon, both computed independently. Every generated full-moon and new-moon observance day likewise lies within 2 days of the mean and 2.5 days of the true full or new moon. Summed lunar year lengths therefore never run away from summed solar year lengths: the difference stays within one lunar month of its starting value.",
  ["histories", "inputs"], "Every year 638..3500 and every observance day generated in it, i.e. the whole accumulated history from the 2015 anchor in both directions.",
  "Tests check 65 Asalha dates in 1950..2025; drift only shows after accumulating over centuries.",
  ["helpers.go", "suriya_year.go", "uposatha_moon.go", "cal_day.go"], [("CalculatePreviousKattika", "helpers.go"), ("AsalhaPuja, YearLength", "suriya_year.go"), ("HorakhunToDate", "helpers.go"), ("NextUposatha", "uposatha_moon.go")],
  ["AsalhaPuja() dates", "dates in GenerateSolarYear output"])

p("C05", "The exceptions switch changes exactly the listed years and nothing else",
  "With the official-calendar exceptions switched on, a listed year has an extra day exactly as the table says (by default 1994: no, 1997: yes), every other year keeps the pure rule, and all year lengths, Kattika and Asalha dates and observance days follow consistently from that. Switching it off again, in any order and after any queries, restores the pure calendar with no residue; entries added to or removed from the public table (for years without an extra month) take effect at once. The switch is off by default.",
  ["configurations", "histories"], "Every on/off sequence interleaved with queries over CE 1800..2200, and every table of overrides for years without an extra month that keeps the lunar years in step with the sun (the extra days it adds and takes away nearly cancel).",
  "No test ever turns the switch on.",
  ["suriya.go", "suriya_year.go", "helpers.go", "uposatha_moon.go"], [("UseExceptions, AdhikavaraExceptions", "suriya.go"), ("Is_Adhikavara", "suriya_year.go")],
  ["predicates, YearLength, AsalhaPuja, CalculatePreviousKattika, GenerateSolarYear before/after toggling"])

p("C06", "Kattika and Asalha dates chain exactly by lunar year lengths",
  "For every CE year y from 638 to 3500, the Kattika full moon preceding y+1 is exactly the length of lunar year y after the Kattika full moon preceding y, the chain passes through 25 November 2015, and each such date is midnight UTC in the calendar year before y. Asalha Puja of y is 236 days after the Kattika preceding y in a common year, 237 with an extra day and 266 with an extra month, and is the same date the generated calendar marks as Asalha. Answers do not depend on the order in which years are asked for.",
  ["inputs", "histories"], "Every year 638..3500, asked in ascending, descending and random order.",
  "Tests check Asalha for 65 years and never the Kattika function, year boundaries, or years outside 1950..2025.",
  ["helpers.go", "suriya_year.go", "cal_day.go"], [("CalculatePreviousKattika", "helpers.go"), ("AsalhaPuja", "suriya_year.go")], ["CalculatePreviousKattika(y), AsalhaPuja()"])

p("C07", "Elapsed-day numbers and civil dates correspond one to one",
  "For every elapsed-day number (horakhun) between -1,000,000,000 and +1,000,000,000, the returned civil date is the proleptic Gregorian date that many days after 24 March 638, in UTC, always at 23:59:59, the last second of that day. Consecutive numbers are therefore always exactly one calendar day apart, across leap days, century rules, the steps the implementation takes over long spans, and either side of its reference date.",
  ["inputs"], "Every day number in -200,000..2,000,000 (thorough) or a dense subset (quick), plus boundary and random numbers to +-10^9.",
  "Tests check 15 day numbers in a 1,400-year span.",
  ["helpers.go", "suriya.go"], [("HorakhunToDate", "helpers.go"), ("horakhunRef, horakhunRefStr", "suriya.go")], ["HorakhunToDate(h)"])

p("C08", "Day counters follow the year's and advance by one day exactly",
  "For every CE year from 639 to 3500 and day number 0..400, a computed day reports the era years of C01 and horakhun = year's elapsed days + day - year's tithi; its avoman, masaken, tithi and uccabala are those of C01 for that horakhun, and its kammacubala is 800 - ((CS*292207+373) mod 800) plus 800 per day since New Year. On the civil date of Asalha Puja the horakhun belongs to lunar day 103, 104 or 133 of the year (common, extra day, extra month; 103 in an extra-month year whose New Year tithi is 0..5, because days are counted from the lunar month New Year falls in) within one day. Re-initialising an object gives the same result as a fresh one.",
  ["inputs", "histories"], "Every (year, day) in 639..3500 x 0..400 and every reuse of an object.",
  "Tests compute eight (year, day) pairs.",
  ["suriya_day.go", "suriya_year.go"], [("SuriyaDay.Init", "suriya_day.go")], ["fields of an initialised day"])

p("C09", "Sun and moon longitudes follow the procedure on every day of the year",
  "For every CE year from 639 to 3500 and day number 0..400, the mean sun is the New-Year-based fraction of 292,207 in whole arcminutes less 3', the true sun adds floor(134'*sin|mean-80deg|), the mean moon is true sun + (avoman+floor(avoman/25))' + 12deg*tithi - 40', the true moon subtracts (296'*sin(mean moon - apogee)), and the raek is the true moon over 13.3333 plus 1, each to the documented 4-decimal precision - including the days before New Year and after the sun completes its circle. The reported sun and moon longitudes lie in [0,360), so the raek is in 1..28. From one day to the next within a year the mean sun moves 0.95..1.03 deg, the true sun 0.9..1.1 deg, and the true moon 11.5..15 deg.",
  ["inputs", "histories"], "Every (year, day) in 639..3500 x 0..400; quick covers every year with all days of a rotating third plus boundary days.",
  "Tests check true sun/moon/raek for eight (year, day) pairs, none before New Year or past 360 degrees.",
  ["suriya_day.go", "helpers.go"], [("SuriyaDay.Init", "suriya_day.go"), ("NormalizeDegree, DegreeToRal, RalToDegree", "helpers.go")], ["MeanSun, TrueSun, MeanMoon, TrueMoon, Raek of an initialised day"])

p("C10", "Degree conversions split, join and normalise any angle correctly",
  "For every angle between -100,000 and 100,000 degrees given to at most 7 decimals, splitting gives (x; y : z) with 0<=y<30, 0<=z<60 and 30x+y+z/60 equal to the angle rounded down to a whole arcminute, and the string form prints exactly those three numbers as x:y(degree sign)z'. Joining any integers x, y, z gives 30x+y+z/60 rounded down to 4 decimals, so joining a split angle never exceeds it and loses less than one arcminute plus 0.0001 degree. Normalising any angle of up to 10^15 degrees either way returns an angle in [0,360) congruent to it modulo 360, unchanged if it already lies there.",
  ["inputs"], "Every arcminute in -1440..1440 degrees, dense neighbourhoods of integers, 30s and 360s, and random floats of all magnitudes up to 100,000.",
  "Only eight positive angles are formatted in tests; negative angles, exact multiples and large angles are never tried.",
  ["helpers.go"], [("DegreeToRal, DegreeToRalString, RalToDegree, NormalizeDegree", "helpers.go")], ["return values"])

p("C11", "Cycle positions and years-since counts are right for every year",
  "For every CE year from 638 to 4000 the position in the 57-year cycle is ((year-1984) mod 57)+1 and in the 19-year cycle ((year-1984) mod 19)+1 with a non-negative remainder, so each steps by one per year and wraps (1984 is 1, 2040 is 57, 2041 is 1). From CE 660 on, years-since-last-extra-month and years-since-last-extra-day equal the distance to the nearest earlier year for which the corresponding predicate is true, whatever the exceptions setting and table (extra days up to 13 years back).",
  ["inputs", "configurations"], "Every year 638..4000 for positions, 660..4000 for distances, with exceptions off and on.",
  "These four functions have no test at all.",
  ["suriya_year.go"], [("AdhikavaraCyclePos, AdhikamasaCyclePos", "suriya_year.go"), ("DeltaAdhikamasa, DeltaAdhikavara", "suriya_year.go")], ["return values"])

p("C12", "The succession of observance days follows the lunar month structure",
  "Starting from any observance day of CE 638..3500, the next one alternates new/full, comes 14 days later (that many times 24 hours after the instant given) for the new moon of a 29-day month and 15 days later otherwise, and carries the right month (1..12, with a second Asalha numbered 13 after month 8 only in extra-month years), month length (odd months 30, even 29, month 8 has 30 with the extra-day mark only in extra-day years), season, number within season (1..8, or 1..10 in the hot season of an extra-month year), season total and lunar year (advancing only with month 1). Followed from one Kattika to the next the days add up to exactly the lunar year length. Magha, Vesakha, Asalha and Pavarana each mark exactly one full moon per lunar year: months 3, 6, 8, 11, or 4, 7, 13, 11 in an extra-month year. The next observance is always a draft (status 0) of the Mahanikaya calendar (0) without source or comments, whatever the one it follows says of itself.",
  ["histories", "inputs"], "The unbroken chain of about 71,000 observance days over CE 637..3500 plus restarts from arbitrary points in it, exceptions off and on.",
  "The file has no test and is not even compiled by the stable build.",
  ["uposatha_moon.go", "suriya_year.go"], [("NextUposatha", "uposatha_moon.go")], ["fields of successive observance days"])

p("C13", "A generated year holds every observance exactly once",
  "For every CE year from 638 to 3500 the generated events are exactly: each observance day (uposatha) of the lunar chain dated in that calendar year, marked confirmed; a half moon 8 days after every observance day when that lands in the year, waxing after new and waning after full; and Magha, Vesakha, Asalha Puja on their days, First day of Vassa the day after Asalha, Pavarana Day and Last day of Vassa on the Pavarana day, each with its name as both summary and description. Concatenating successive years gives one gapless chain with nothing lost or repeated at the year boundary. All events are at midnight UTC. Altering a returned list never affects later answers, and later calls never alter a list already returned.",
  ["inputs", "histories"], "Every year 638..3500, adjacent years compared, exceptions off and on.",
  "No test covers event generation; it is not compiled by the stable build.",
  ["cal_day.go", "uposatha_moon.go", "helpers.go"], [("GenerateSolarYear", "cal_day.go")], ["returned events"])

p("C14", "A calendar window contains exactly its events, one entry per day, in order",
  "For any window [from, to] within CE 700..3000, given in any time zone, the calendar days returned hold exactly the generated events and astronomical moons whose instants lie in the closed window, each once, grouped so that every UTC calendar day appears at most once, in ascending order; an entry's date is midnight if it holds any calendar event and the moon's instant if it holds only an astronomical moon. A window whose end precedes its start is empty. Splitting a window at any midnight gives the same content as the whole, altering a returned list never affects later answers, and later calls never alter a list already returned.",
  ["inputs", "histories", "configurations"], "Random and boundary windows (single instants, year edges, spans to decades, reversed, non-UTC zones) and sequences of queries with the results scribbled over.",
  "No test calls the window function; it is not compiled by the stable build.",
  ["cal_day.go", "astro_moon.go"], [("GetCalDays, mergeIntoCalDays, findCalDay, sort", "cal_day.go")], ["returned calendar days"])

p("C15", "Astronomical moon queries return exactly the recorded moons in the window",
  "For any window [from, to] in any time zone, the result is exactly the moon records in the shipped data files (years 1900..2040) whose instants lie in the closed window, in file order, each with its recorded instant in UTC and its phase (0 new, 1 waxing, 2 full, 3 waning). Years without data contribute nothing but never hide records of other years, wherever in the window they fall. The answer depends only on the instants of the two ends: altering a returned list never affects later answers, nor do later calls alter it.",
  ["inputs", "configurations"], "Every record's instant +-1ns as window ends, every pair of years 1880..2060, random windows in random zones.",
  "No test covers it; it is not compiled by the stable build.",
  ["astro_moon.go", "aeris_moon.go", "data.go"], [("GetAstroMoons", "astro_moon.go"), ("phaseCodes, AerisMoon", "aeris_moon.go")], ["returned moons"])

p("C16", "Embedded data files are served complete, unaltered and independently",
  "Each of the 141 shipped data files is retrievable by its cleaned path as bytes, string, and opened file, with content and reported size identical to the file shipped in the repository, any number of times and in any order; unknown names give a not-exist error (or a panic from the must-variants). Opened files read and seek independently of each other, a prefixed directory resolves names below its prefix, and reading from local disk gives the bytes the working directory holds at that moment - at the repository root the same.",
  ["inputs", "histories", "schedules"], "All 141 files x all access routes x path spellings, unknown names, interleaved readers, repeated and concurrent first access.",
  "No test touches the embedded file system.",
  ["data.go"], [("FS, Dir, FSByte, FSString, FSMustByte, FSMustString", "data.go"), ("prepare (once per file decompression)", "data.go")], ["returned bytes, file objects, errors"])

p("C17", "Concurrent use is free of data races and gives the sequential answers",
  "Any number of goroutines may call the query functions - year and day computations, date conversions, observance generation, calendar windows, astronomical moons, embedded files, lookups - at the same time without a data race, deadlock or panic. Every concurrent call returns exactly what the same call returns when made alone, including when several goroutines make the very first access to the same data.",
  ["schedules"], "Schedules of 8..64 goroutines over mixed operations with barrier starts, in fresh processes, under the race detector.",
  "Tests are single-threaded and run without the race detector.",
  ["data.go", "helpers.go", "suriya.go", "suriya_year.go", "astro_moon.go", "cal_day.go"], [("sync.Once in prepare", "data.go"), ("absence of shared mutable state elsewhere", "whole package")], ["race reports, results compared with a sequential run"])

p("C18", "The caldays command writes the window as JSON grouped by year, losslessly",
  "For any valid --from/--to, the caldays command outputs one JSON object mapping each calendar year that has entries (its number, without padding) to its days in ascending order, whose decoded content equals the library's calendar days for that window with no field lost, empty parts omitted. With --output the file holds exactly what would be printed (but for a final newline), replacing any previous content, as a plain file its owner can read and write, and nothing is printed. A malformed date or an unwritable --output ends with a non-zero exit and no calendar output.",
  ["inputs", "configurations"], "Random windows, reversed and empty windows, existing longer output files, bad dates and paths.",
  "The command's only test file is commented out; it is not compiled by the stable build.",
  ["suriya/suriya.go", "cal_day.go", "uposatha_moon.go", "half_moon.go", "astro_moon.go", "major_event.go", "event.go"], [("actionCalDays, cliInit", "suriya/suriya.go"), ("JSON field names and omitempty", "cal_day.go")], ["stdout, output file, exit status"])

p("C19", "The ical command emits one all-day event per observance, half moon and puja",
  "For any valid --from/--to, the ical command outputs a calendar with exactly one all-day event for each observance day, half moon and major event of the window, in date order, titled with its display text, starting on its date and ending the next day, and none for astronomical moons. The calendar is a published Gregorian iCalendar 2.0 named 'Uposatha Moondays (Mahānikāya)'. Every event has its own unique identifier. --output behaves as for caldays.",
  ["inputs", "configurations"], "Random windows, empty windows, output to stdout and file; conversion of every event type.",
  "Not compiled by the stable build and untested.",
  ["suriya/suriya.go", "calendar_event.go", "uposatha_moon.go", "half_moon.go", "major_event.go", "event.go", "astro_moon.go"], [("actionIcal", "suriya/suriya.go"), ("icalEvent", "calendar_event.go")], ["iCalendar output", "IcalEvent() values"])

p("C20", "Name and code tables and display texts agree",
  "The month names map one to one onto 0..13, seasons onto 0..3, calendars onto 0..3 and statuses onto 0..2 in their documented order; unknown names map to 0 and unknown season numbers to the empty name. An observance, dated or not, reads '<Phase> Moon - <days> day <Season> <n>/<total>', half and astronomical moons read '<Phase> Moon', events and major events read their summary, and a moon without a phase reads as empty. A calendar day's text joins its observance, astronomical and half moon texts in that order.",
  ["inputs"], "Every table entry, near-miss and random strings, every combination of phase, season and numbering.",
  "No test covers the tables or texts.",
  ["helpers.go", "uposatha_moon.go", "half_moon.go", "astro_moon.go", "event.go", "major_event.go", "cal_day.go"], [("MonthToInt, SeasonToInt, SeasonName, CalendarToInt, StatusToInt", "helpers.go"), ("String methods", "event types")], ["return values"])

p("C21", "The year table tool reproduces the library's values and the published table",
  "Building and running the years table tool writes years.csv in the current directory with one header line and one line per year 1970..2041, in order, whose calculated columns (era years, K, A, T, cycle positions, years since extra month or day, Asalha date) equal the library's answers with exceptions off and whose test column says OK exactly when the calculated and the recorded Asalha dates agree. On the shipped tree the whole file equals the published utils/years.csv.",
  ["inputs"], "All 72 years and every column.",
  "The tool is outside the stable build and has no test.",
  ["utils/years-csv.go", "utils/years.csv"], [("yearsCsv, main", "utils/years-csv.go")], ["the written years.csv"])

p("C22", "Calendar-day containers hold at most one moon of each kind and lose nothing",
  "After any sequence of additions to a calendar day, the day holds the latest observance, half and astronomical moon of each kind added (never two), every event and major event in order, and the date of the last addition; reading an absent moon gives an empty one. Expanding a list of calendar days with half moons keeps the given days in place and unchanged and appends, in order, one entry 8 days after each day with a new (waxing) or full (waning) observance, and nothing for other days. Sorting orders days by instant.",
  ["histories", "inputs"], "Random sequences of additions and gets against a model; random lists including invalid phases and days without observance.",
  "Not compiled by the stable build and untested.",
  ["cal_day.go", "uposatha_moon.go", "half_moon.go", "astro_moon.go", "event.go", "major_event.go"], [("Get*/Set*Moon, AddToDay", "cal_day.go and event types"), ("AddHalfMoonDays, CalDaySlice", "cal_day.go")], ["fields and getters of a CalDay"])

p("C23", "Answers do not depend on process environment, call history or platform",
  "The same query gives the same answer in every process: regardless of the time zone, locale and every other environment variable, working directory, current date, garbage-collector and scheduler settings, which queries came before it, how often it is repeated, and whether the library is built for 64-bit (baseline or fused-multiply-add instruction sets, optimised or not) or 32-bit x86. The command given both dates and the year table tool likewise answer the same everywhere. Only the timestamp and unique identifier of an iCalendar conversion may differ.",
  ["configurations", "histories"], "A fixed workload of queries over all components, recorded per process under differing environments, orders and build targets, and compared event by event.",
  "Tests run once, in one environment, on one platform.",
  ["helpers.go", "suriya_year.go", "suriya_day.go", "cal_day.go", "astro_moon.go", "data.go"], [("pure functions of their arguments, UTC dates", "whole package")], ["recorded (query, answer) logs"])

p("C24", "Recorded astronomical moons are real and follow one another unbroken",
  "For CE 1902 to 2032, the astronomical moons returned run through new, waxing (first quarter), full, waning (last quarter) in unbroken succession, 6.3 to 8.5 days apart, with none missing, doubled or out of order, within a year and across year boundaries alike. Every one lies within 5 minutes of the independently computed true phase of that name. The answer for the whole span is that of its years put together. (Known findings: the records lack one moon at 18 turns of the year, and all of 1970.)",
  ["histories", "inputs"], "Every recorded moon of 1902..2032 and every succession of two, asked for at once, by year and in random windows.",
  "No test reads the recorded moons; the file is not compiled by the stable build.",
  ["astro_moon.go", "aeris_moon.go", "data.go"], [("GetAstroMoons", "astro_moon.go"), ("phaseCodes", "aeris_moon.go"), ("embedded records", "data.go")], ["returned moons"])

p("C25", "Queries leave nothing behind: no output, files, handles, memory or settings",
  "Calling any function of the library, however often, prints nothing on standard output or error, creates or changes no file, leaves no file open other than those handed to the caller, leaves no goroutine running, asking the same questions again does not make the memory in use grow, and an answer already given stays as it was whatever is asked later. The exceptions switch and table, the environment, working directory, local time zone, log settings and command line are as before. Query methods leave the year, day, moon or event they are asked of unchanged. The command likewise leaves no file but its --output, and prints nothing on standard error when it succeeds.",
  ["histories", "configurations"], "Random lists of calls of every kind repeated up to tens of thousands of times per process, exceptions off and on, in several environments; every query method of every type.",
  "Tests look only at return values, once.",
  ["data.go", "astro_moon.go", "helpers.go", "suriya_year.go", "cal_day.go", "suriya.go", "suriya/suriya.go"], [("FSByte, FS, Dir", "data.go"), ("value receivers, no package state besides the embedded files", "whole package")], ["process output, directory contents, open descriptors, goroutines, heap, settings, receivers"])

p("C26", "Every question is answered: hostile arguments neither crash nor hang",
  "No function panics, crashes the process or fails to return for any arguments other than nil pointers and unreasonably large spans: CE years -1,000,000 to 1,000,000, day numbers of either sign, never initialised or arbitrarily filled years, moons and days, any angle including infinities and not-a-number, elapsed-day numbers to +-10^10, arbitrary names and paths (the must-variants for missing files excepted), any exceptions table including none, and windows that are empty, reversed, at the zero time or far in the past or future. Any year then has 354, 355 or 384 days, any finite angle normalises into [0,360), the positions of any day lie in [0,360), years-since counts are positive or -1, and a reversed window is empty. The command refuses or answers any --from, --to and --output without crashing.",
  ["inputs", "configurations"], "Random and boundary values of every parameter of every function, valid and not.",
  "Tests pass a handful of sensible values.",
  ["suriya_year.go", "suriya_day.go", "helpers.go", "cal_day.go", "uposatha_moon.go", "astro_moon.go", "data.go", "suriya/suriya.go"], [("loops that search years and follow observances", "suriya_year.go, helpers.go, cal_day.go"), ("empty cases of the getters", "cal_day.go"), ("missing files", "data.go")], ["returns, panics, process exits, progress"])

p("C27", "Observance days and recorded astronomical moons pair up one to one",
  "For CE 1902 to 2032 (exceptions off), every generated observance day has a recorded astronomical moon of its own phase (new or full) within 2.25 days of noon of that day in Bangkok, and every half moon a recorded quarter of its own name (waxing or waning) within 1.9 days, except where the records themselves have a gap; no two days share a moon, and every recorded moon has its day. With the official-calendar exceptions on, the distance is at most one day more.",
  ["histories", "inputs"], "All 12,828 observance days and half moons and all 6,400 recorded moons of 1902..2032, exceptions off and on.",
  "No test compares the two calendars; neither file is compiled by the stable build.",
  ["cal_day.go", "uposatha_moon.go", "astro_moon.go", "aeris_moon.go", "helpers.go"], [("GenerateSolarYear", "cal_day.go"), ("GetAstroMoons", "astro_moon.go"), ("CalculatePreviousKattika", "helpers.go")], ["dates and phases of generated events and recorded moons"])

p("C28", "Computed sun and moon track the real sky and agree with the calendar",
  "For every CE year from 639 to 3500 and day number 0..400, measured in a zodiac that lies 24.14 degrees behind the equinox in 2000 and turns with a year of 292207/800 days, at the midnight (105 deg east) ending the day, the mean sun is within 0.15, the true sun within 4.7, the mean moon within 6.5 and the true moon within 9.8 degrees of the real mean or true position, computed independently. A civil day that can be counted from two adjacent years has the same counters and mean sun from both (kammacubala differing by exactly 292,207). On every generated full-moon (new-moon) observance day of 640..3499 the true moon is within 21 degrees of opposite (of) the true sun, and on every Asalha Puja the raek is at least 19 and below 24 and the mean sun between 75 and 111 degrees.",
  ["inputs", "histories"], "Years 639..3500 with a rotating seventh of the days (thorough: all) and all shared days; every observance day of 640..3499.",
  "Tests check eight days around Asalha of five years.",
  ["suriya_day.go", "suriya_year.go", "helpers.go", "cal_day.go", "uposatha_moon.go"], [("SuriyaDay.Init", "suriya_day.go"), ("GenerateSolarYear, NextUposatha", "cal_day.go, uposatha_moon.go")], ["MeanSun, TrueSun, MeanMoon, TrueMoon, Raek", "dates and phases of observance days"])

p("C29", "Calendar days and moons survive JSON encoding and decoding unchanged",
  "Any calendar day with at most one moon of each kind, any observance, half moon, astronomical moon, event or major event, any list or map of days, and any initialised year or computed day, encoded as JSON (by value or pointer) and decoded into its type, comes back with every exported field equal: instants to the nanosecond with their offset, texts in any script, numbers of any sign. Encoding it again gives the same text, the parts of a day that are empty are not written, and every other part and field of a day is written under its exported name.",
  ["inputs"], "Random values of every type with every combination of parts, texts and times; calendar windows of CE 700..3000.",
  "No test encodes anything; most of the types are not compiled by the stable build.",
  ["cal_day.go", "uposatha_moon.go", "half_moon.go", "astro_moon.go", "event.go", "major_event.go", "suriya_year.go", "suriya_day.go"], [("exported fields, single-item slices, omitempty", "cal_day.go and event types")], ["encoded text, decoded values"])

p("C30", "The computed calendar is the published one",
  "With the official-calendar exceptions on, Asalha Puja falls on its published date in each of the 42 years from 1970 to 2016 whose printed calendar follows the reckoning (all but 1978, 1984-86 and 1989), and Magha, Vesakha and Asalha Puja fall on the dates of Thailand's public holidays in each year from 2009 to 2025 - the same by the year's own answer, the generated calendar of the year and a calendar window. With the exceptions off this holds too, except in 1994 to 1997.",
  ["histories", "configurations"], "All published years by every route, in random orders, exceptions on and off.",
  "The stable tests compare Asalha of some years only; the generated calendar and its Magha and Vesakha are not compiled by them, and nothing is tested with the exceptions on or in other orders.",
  ["suriya_year.go", "helpers.go", "cal_day.go", "uposatha_moon.go", "suriya.go"], [("AsalhaPuja", "suriya_year.go"), ("exceptions table", "suriya.go"), ("month events", "uposatha_moon.go")], ["published dates against dates of generated events"])

p("C31", "Data files are served over HTTP as the files themselves would be",
  "A file server over the embedded files, whole or below any prefix, answers every request for a shipped file as one over the repository's data directory does: status, content type, length, body, single and multiple byte ranges, header-only requests, conditional requests and refused ranges alike; a name that is not there is answered 404. The same holds for the local file system, and for many clients at once. An opened file obeys the contract of readers and seekers in full and tells its own name, size and kind the same way every time, whatever spelling of its path it was asked for by first.",
  ["inputs", "schedules", "histories"], "All 141 files by seven servers, with random ranges, methods and conditions; concurrent clients over the loopback network.",
  "No test opens an embedded file through the file system interface.",
  ["data.go"], [("Open, File, Stat, prepare", "data.go"), ("Dir", "data.go")], ["HTTP responses", "reader results"])

p("C32", "Without dates the command covers the current year",
  "With no --from, or an empty one, the caldays and ical commands begin on 1 January, and with no --to, or an empty one, they end on 31 December, of the year the local clock shows at that moment - in any year, in any time zone, to the first and last second of a year, each flag on its own - and produce exactly the window's calendar. With both dates given the clock makes no difference.",
  ["configurations", "inputs"], "Instants 1902..2400 with emphasis on both ends of years, in seven zones from -11 to +14 hours, with each combination of flags.",
  "A test cannot set the clock, and the command has no compiled test.",
  ["suriya/suriya.go", "cal_day.go"], [("cliInit", "suriya/suriya.go")], ["output of the command under a replaced clock"])

p("C33", "Documents of the moon service are read whole",
  "Decoding any document in the moon service's format - success, warning or error, any number of records, fields in any order, unknown fields, instants in any offset - gives the success flag, the error's code and description, and every record's timestamp, instant, code and name; encoding and decoding again keeps them, and documents of the wrong shape are refused. Every record of the shipped files agrees with itself: its timestamp is its instant, its name belongs to its code, and its year is its file's.",
  ["inputs"], "Random documents of up to 300 records and all 141 shipped files.",
  "No test decodes a document.",
  ["aeris_moon.go", "astro_moon.go", "data.go"], [("AerisResp, AerisMoon, AerisError", "aeris_moon.go"), ("shipped records", "data.go")], ["decoded values"])

p("C34", "A document is delivered whole or the failure is reported",
  "The caldays and ical commands and the year table tool exit zero only if the whole document has arrived where it was to go. A full device, a limit on the size of files, a pipe whose reader is gone, a directory, a missing folder or a place the user may not write - as standard output, --output or years.csv - ends in a non-zero exit. A slow reader, one that takes single bytes, a non-blocking pipe, a socket, a longer previous file or --output /dev/stdout makes no difference: all arrives and the exit is zero. A call refused for its dates, or whose --output may not be opened, leaves a file that was there as it was.",
  ["fault_sequences", "configurations"], "Calendars of 1 to 30 years from 1900..2029 and the year table under about 25 kinds of fault each.",
  "No test runs the tools, and a test cannot fill a disk.",
  ["suriya/suriya.go", "utils/years-csv.go"], [("actionCalDays, actionIcal", "suriya/suriya.go"), ("main", "utils/years-csv.go")], ["exit code, bytes delivered, files left"])

p("C35", "The moon download fetches every year whole, once and within the service's limits",
  "Run with credentials in the environment and two years, get-astromoons.sh asks the moon service for each year of the range once and in order, from 1 January to 31 December at London, with a limit that leaves no record of the year out and does not exceed the allowed 250; it stores each answer byte for byte as astro-YEAR.json in the current directory, replacing what was there, and touches no other file. While answers take equally long to come, no more than ten requests fall into one minute, however long the range. It ends with exit code zero exactly when every year of the range has arrived: a request that fails or an answer that is cut short is reported. Without credentials or years it prints its usage and fails without asking for anything.",
  ["inputs", "fault_sequences", "configurations"], "Ranges of 1 to 61 years, quick, slow and broken answers, odd documents, directories and environments.",
  "No test runs the script, which needs a service and minutes of time.",
  ["utils/get-astromoons.sh"], [("the loop over the years", "utils/get-astromoons.sh")], ["requests and their times, files written, exit code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
