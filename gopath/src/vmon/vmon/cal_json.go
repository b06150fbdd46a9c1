//go:build calendar

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"vmon/rt"
)

func init() {
	cal("C29", "calendar days of random windows, junk days with every part in every number and arbitrary texts, single moons and events, years and days, each encoded as JSON and decoded again by value, pointer, slice and map; distinct: (type, parts present, offset of the date)", jsonRoundTrips)
}

func jsonText(rd *rand.Rand) string {
	words := []string{"", "Kathina", "Āsāḷha Pūjā", "two\nlines\t\"quoted\" \\ / <b>&amp;</b>", "\u2028\u2029", "\x01\x1f\x7f", "🌕", "null", "{}", strings.Repeat("ṃ", 500), " "}
	return words[rd.Intn(len(words))]
}

func jsonTime(rd *rand.Rand) time.Time {
	t := time.Unix(rd.Int63n(1.2e11)-6e10, 0)
	if rd.Intn(2) == 0 {
		t = t.Add(time.Duration(rd.Intn(1e9)))
	}
	switch rd.Intn(4) {
	case 0:
		return t.In(time.FixedZone("", (rd.Intn(1680)-840)*60)) // whole minutes: JSON has no more
	case 1:
		t = t.Truncate(24 * time.Hour)
	case 2:
		return time.Time{}
	}
	return t.UTC()
}

func jsonUp(rd *rand.Rand) suriya.UposathaMoon {
	n := func() int { return []int{0, 1, -1, rd.Intn(3000), math.MaxInt32, math.MinInt32}[rd.Intn(6)] }
	return suriya.UposathaMoon{Date: jsonTime(rd), Calendar: n(), Status: n(), Phase: jsonText(rd), Event: jsonText(rd), S_Number: n(), S_Total: n(), U_Days: n(), M_Days: n(),
		LunarMonth: n(), LunarSeason: n(), LunarYear: n(), HasAdhikavara: rd.Intn(2) == 0, Source: jsonText(rd), Comments: jsonText(rd)}
}

func jsonDay(rd *rand.Rand) (d suriya.CalDay) {
	d.Date = jsonTime(rd)
	if rd.Intn(2) == 0 {
		d.UposathaMoon = append(d.UposathaMoon, jsonUp(rd))
	}
	if rd.Intn(2) == 0 {
		d.HalfMoon = append(d.HalfMoon, suriya.HalfMoon{Date: jsonTime(rd), Phase: jsonText(rd)})
	}
	if rd.Intn(2) == 0 {
		d.AstroMoon = append(d.AstroMoon, suriya.AstroMoon{Date: jsonTime(rd), Phase: jsonText(rd)})
	}
	for i := rd.Intn(4); i > 0; i-- {
		d.MajorEvents = append(d.MajorEvents, suriya.MajorEvent{Date: jsonTime(rd), Calendar: rd.Intn(5), Summary: jsonText(rd), Description: jsonText(rd)})
	}
	for i := rd.Intn(4); i > 0; i-- {
		d.Events = append(d.Events, suriya.Event{Date: jsonTime(rd), Calendar: rd.Intn(5), Summary: jsonText(rd), Description: jsonText(rd)})
	}
	if rd.Intn(400) == 0 {
		for i := rd.Intn(1500); i > 0; i-- {
			e := suriya.Event{Date: jsonTime(rd), Summary: jsonText(rd)}
			d.Events = append(d.Events, e)
			d.MajorEvents = append(d.MajorEvents, suriya.MajorEvent(e))
		}
	}
	// parts that were made but hold nothing
	if d.UposathaMoon == nil && rd.Intn(3) == 0 {
		d.UposathaMoon = suriya.UposathaMoonSliceSingle{}
	}
	if d.HalfMoon == nil && rd.Intn(3) == 0 {
		d.HalfMoon = suriya.HalfMoonSliceSingle{}
	}
	if d.AstroMoon == nil && rd.Intn(3) == 0 {
		d.AstroMoon = suriya.AstroMoonSliceSingle{}
	}
	if d.MajorEvents == nil && rd.Intn(3) == 0 {
		d.MajorEvents = []suriya.MajorEvent{}
	}
	if d.Events == nil && rd.Intn(3) == 0 {
		d.Events = []suriya.Event{}
	}
	return
}

// deep compares field by field: instants by moment and offset, absent lists and empty ones alike.
func deep(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if t, ok := a.Interface().(time.Time); ok {
		u := b.Interface().(time.Time)
		_, o1 := t.Zone()
		_, o2 := u.Zone()
		return t.Equal(u) && o1 == o2
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" && !deep(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deep(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !deep(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		return a.IsNil() == b.IsNil() && (a.IsNil() || deep(a.Elem(), b.Elem()))
	}
	return a.Interface() == b.Interface()
}

// roundTrip encodes what a pointer points to and decodes it into a fresh value of its type.
func roundTrip(r *rt.R, kind string, p interface{}) {
	v := reflect.ValueOf(p).Elem()
	r.EvS("JSON of ", kind)
	var in interface{} = v.Interface()
	if r.Rand.Intn(2) == 0 {
		in = p
	}
	b, err := json.Marshal(in)
	r.OK(kind)
	if err != nil {
		r.Fail("encode", kind, "%s %+v: %v", kind, v.Interface(), err)
		return
	}
	out := reflect.New(v.Type())
	if err := json.Unmarshal(b, out.Interface()); err != nil {
		r.Fail("decode", kind, "%s written as %.600s: %v", kind, b, err)
		return
	}
	if !deep(v, out.Elem()) {
		r.Fail("round-trip", kind, "%s %+v written as %.1500s comes back as %+v", kind, v.Interface(), b, out.Elem().Interface())
	}
	again, err := json.Marshal(out.Elem().Interface())
	if err != nil || string(again) != string(b) {
		r.Fail("again", kind, "%s written as %.600s, read and written again as %.600s (%v)", kind, b, again, err)
	}
}

func jsonRoundTrips(r *rt.R) {
	for k := 0; k < r.N(6000, 100000); k++ {
		d := jsonDay(r.Rand)
		roundTrip(r, "day", &d)
		_, off := d.Date.Zone()
		r.State("day", len(d.UposathaMoon), len(d.HalfMoon), len(d.AstroMoon), len(d.MajorEvents), len(d.Events), off != 0, d.Date.Nanosecond() != 0)
		// what is empty is not written, what is not goes under its own name
		b, _ := json.Marshal(d)
		var keys map[string]interface{}
		json.Unmarshal(b, &keys)
		r.OK("names")
		var valid map[string]interface{}
		json.Unmarshal([]byte(canon(jsonOf(d))), &valid)
		if g, w := canon(keys), canon(valid); g != w {
			r.Fail("names", "day", "a day is written as %.900s\nwant %.900s", g, w)
		}
		var parts map[string]json.RawMessage
		json.Unmarshal(b, &parts)
		n := 1
		for _, l := range []int{len(d.UposathaMoon), len(d.HalfMoon), len(d.AstroMoon), len(d.MajorEvents), len(d.Events)} {
			if l > 0 {
				n++
			}
		}
		r.OK("parts")
		if len(parts) != n {
			r.Fail("parts", "day", "a day with %d parts is written as %.600s", n, b)
		}
		u := jsonUp(r.Rand)
		h := suriya.HalfMoon{Date: jsonTime(r.Rand), Phase: jsonText(r.Rand)}
		a := suriya.AstroMoon{Date: jsonTime(r.Rand), Phase: jsonText(r.Rand)}
		e := suriya.Event{Date: jsonTime(r.Rand), Calendar: r.Rand.Intn(5), Summary: jsonText(r.Rand), Description: jsonText(r.Rand)}
		m := suriya.MajorEvent(e)
		roundTrip(r, "observance", &u)
		roundTrip(r, "half moon", &h)
		roundTrip(r, "astronomical moon", &a)
		roundTrip(r, "event", &e)
		roundTrip(r, "major event", &m)
		if k%5 == 0 {
			l := suriya.CalDaySlice{d, jsonDay(r.Rand)}
			roundTrip(r, "days", &l)
			by := map[string][]suriya.CalDay{"2015": {d}, "": {}, "x": l}
			roundTrip(r, "days by year", &by)
			su := newYear(639 + r.Rand.Int63n(3000))
			roundTrip(r, "year", &su)
			var x suriya.SuriyaDay
			x.Init(su.Year, r.Rand.Intn(401))
			roundTrip(r, "computed day", &x)
		}
	}
	for k := 0; k < r.N(150, 2000); k++ {
		from := time.Date(700+r.Rand.Intn(2300), time.Month(1+r.Rand.Intn(12)), 1, 0, 0, 0, 0, time.UTC)
		if k%2 == 0 {
			from = time.Date(1902+r.Rand.Intn(130), 1, 1, 0, 0, 0, 0, time.UTC)
		}
		r.EvS("GetCalDays ", when(from))
		if k%30 == 7 {
			l := suriya.GetCalDays(from, from.AddDate(15, 0, 0))
			roundTrip(r, "window", &l)
		}
		l := suriya.GetCalDays(from, from.AddDate(1, r.Rand.Intn(6), 0))
		roundTrip(r, "window", &l)
		r.State("window", from.Year()/100)
	}
	b, _ := json.Marshal(suriya.GetCalDays(time.Date(2015, 7, 30, 0, 0, 0, 0, time.UTC), time.Date(2015, 7, 31, 23, 0, 0, 0, time.UTC)))
	r.Sample("window", "30-31 July 2015: %s", b)
	r.Sample("types", "%s", fmt.Sprintf("%T %T %T", suriya.CalDay{}, suriya.UposathaMoon{}, suriya.SuriyaDay{}))
	r.Floor("day", 5000)
	r.Floor("window", 100)
}
