// Package ical is an offline stand-in for github.com/soh335/ical, which this
// sandbox cannot fetch. It has the types and the text encoding that suriya-go
// relies on, nothing else. It belongs to the harness, not to suriya-go.
package ical

import (
	"bufio"
	"io"
	"time"
)

const (
	stampLayout    = "20060102T150405Z"
	dateLayout     = "20060102"
	dateTimeLayout = "20060102T150405"
)

type VComponent interface {
	EncodeIcal(w io.Writer) error
}

type VCalendar struct {
	VERSION          string
	PRODID           string
	URL              string
	NAME             string
	X_WR_CALNAME     string
	DESCRIPTION      string
	X_WR_CALDESC     string
	TIMEZONE_ID      string
	X_WR_TIMEZONE    string
	REFRESH_INTERVAL string
	X_PUBLISHED_TTL  string
	COLOR            string
	CALSCALE         string
	METHOD           string

	VComponent []VComponent
}

func NewBasicVCalendar() *VCalendar {
	return &VCalendar{VERSION: "2.0", CALSCALE: "GREGORIAN"}
}

func (c *VCalendar) Encode(w io.Writer) error {
	b := bufio.NewWriter(w)
	line := func(prefix, v string) {
		if v != "" {
			b.WriteString(prefix + v + "\r\n")
		}
	}
	b.WriteString("BEGIN:VCALENDAR\r\n")
	line("VERSION:", c.VERSION)
	line("PRODID:", c.PRODID)
	line("URL:", c.URL)
	line("NAME:", c.NAME)
	line("X-WR-CALNAME:", c.X_WR_CALNAME)
	line("DESCRIPTION:", c.DESCRIPTION)
	line("X-WR-CALDESC:", c.X_WR_CALDESC)
	line("TIMEZONE-ID:", c.TIMEZONE_ID)
	line("X-WR-TIMEZONE:", c.X_WR_TIMEZONE)
	line("REFRESH-INTERVAL;VALUE=DURATION:", c.REFRESH_INTERVAL)
	line("X-PUBLISHED-TTL:", c.X_PUBLISHED_TTL)
	line("COLOR:", c.COLOR)
	line("CALSCALE:", c.CALSCALE)
	line("METHOD:", c.METHOD)
	if err := b.Flush(); err != nil {
		return err
	}
	for _, component := range c.VComponent {
		if err := component.EncodeIcal(w); err != nil {
			return err
		}
	}
	b.WriteString("END:VCALENDAR\r\n")
	return b.Flush()
}

type VEvent struct {
	UID         string
	DTSTAMP     time.Time
	DTSTART     time.Time
	DTEND       time.Time
	SUMMARY     string
	DESCRIPTION string
	TZID        string

	AllDay bool
}

func (e *VEvent) EncodeIcal(w io.Writer) error {
	layout, kind, tzid := dateLayout, "DATE", ""
	if !e.AllDay {
		layout, kind = dateTimeLayout, "DATE-TIME"
		if e.TZID == "" || e.TZID == "UTC" {
			layout += "Z"
		}
	}
	if e.TZID != "" && e.TZID != "UTC" {
		tzid = "TZID=" + e.TZID + ";"
	}
	b := bufio.NewWriter(w)
	b.WriteString("BEGIN:VEVENT\r\n")
	b.WriteString("DTSTAMP:" + e.DTSTAMP.UTC().Format(stampLayout) + "\r\n")
	b.WriteString("UID:" + e.UID + "\r\n")
	if e.TZID != "" && e.TZID != "UTC" {
		b.WriteString("TZID:" + e.TZID + "\r\n")
	}
	b.WriteString("SUMMARY:" + e.SUMMARY + "\r\n")
	if e.DESCRIPTION != "" {
		b.WriteString("DESCRIPTION:" + e.DESCRIPTION + "\r\n")
	}
	b.WriteString("DTSTART;" + tzid + "VALUE=" + kind + ":" + e.DTSTART.Format(layout) + "\r\n")
	b.WriteString("DTEND;" + tzid + "VALUE=" + kind + ":" + e.DTEND.Format(layout) + "\r\n")
	b.WriteString("END:VEVENT\r\n")
	return b.Flush()
}
