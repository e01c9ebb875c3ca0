package main

import (
	"time"

	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// findings are the known findings: each tells whether it still fails.
var findings = map[string]func() bool{
	// the version of an incomplete header is a prefix of the digits read
	"5424-version-prefix": func() bool {
		m, err := rfc5424.NewMachine(rfc5424.WithBestEffort()).Parse([]byte("<1>12"))
		sm, ok := m.(*rfc5424.SyslogMessage)
		return err != nil && ok && sm != nil && sm.Version == 1
	},
	// a parameter is lost when a later one of the same name is malformed
	"5424-repeated-param": func() bool {
		m, err := rfc5424.NewMachine(rfc5424.WithBestEffort()).Parse([]byte(`<1>1 - - - - - [a b="1" b=2]`))
		sm, ok := m.(*rfc5424.SyslogMessage)
		if err == nil || !ok || sm == nil || sm.StructuredData == nil {
			return false
		}
		_, kept := (*sm.StructuredData)["a"]["b"]
		return !kept
	},
	// a complete parameter is dropped when the byte after its closing quote is wrong
	"5424-param-after-quote": func() bool {
		m, err := rfc5424.NewMachine(rfc5424.WithBestEffort()).Parse([]byte(`<1>1 - - - - - [a b="1"x`))
		sm, ok := m.(*rfc5424.SyslogMessage)
		if err == nil || !ok || sm == nil || sm.StructuredData == nil {
			return false
		}
		_, kept := (*sm.StructuredData)["a"]["b"]
		return !kept
	},
	// the 29th of February of a year without one becomes the 1st of March
	"3164-leap-day": func() bool {
		m, err := rfc3164.NewMachine(rfc3164.WithYear(rfc3164.Year{YYYY: 2021})).Parse([]byte("<1>Feb 29 00:00:00 h t: m"))
		sm, ok := m.(*rfc3164.SyslogMessage)
		return err == nil && ok && sm != nil && sm.Timestamp != nil && sm.Timestamp.Equal(time.Date(2021, 3, 1, 0, 0, 0, 0, time.UTC))
	},
}
