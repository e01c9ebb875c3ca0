package h

import (
	"time"

	"verifspec/gv"
	"verifspec/s3164"

	"github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
)

// machine3164 builds a machine with the options given; C46 states that the
// values 0 and nil are those of a machine without the option.
func machine3164(best, r3339 bool, year int, loc, zone *time.Location) syslog.Machine {
	y, l, z := rfc3164.WithYear(rfc3164.Year{YYYY: year}), rfc3164.WithTimezone(loc), rfc3164.WithLocaleTimezone(zone)
	switch {
	case best && r3339:
		return rfc3164.NewMachine(rfc3164.WithBestEffort(), rfc3164.WithRFC3339(), y, l, z)
	case best:
		return rfc3164.NewMachine(rfc3164.WithBestEffort(), y, l, z)
	case r3339:
		return rfc3164.NewMachine(rfc3164.WithRFC3339(), y, l, z)
	}
	return rfc3164.NewMachine(y, l, z)
}

// Parse3164 is the contract of the RFC3164 machine: any number of inputs on
// one machine, in any configuration.
func Parse3164() {
	best, r3339 := gv.Bool("best effort"), gv.Bool("rfc3339")
	year := gv.Int("year", -9999, 9999)
	loc, zone := gv.Location("timezone"), gv.Location("locale timezone")
	m := machine3164(best, r3339, year, loc, zone)
	for gv.Loop() {
		in := gv.Bytes("input")
		s := s3164.New(r3339, year, loc, zone)
		gv.Mark()
		gv.Ghost(in, s)
		out, err := m.Parse(in)
		gv.GhostEnd(in, s)
		gv.Assert("C10.input", gv.Unchanged(in))
		gv.Assert("C11.accept", (err == nil) == s.Ok)
		var msg *rfc3164.SyslogMessage
		if out != nil {
			msg, _ = out.(*rfc3164.SyslogMessage)
			gv.Assert("C11.type", msg != nil)
		}
		if err == nil {
			gv.Assert("C11.message", msg != nil)
			if msg != nil && s.Ok {
				header3164(msg, s, "C12")
				stamp3164(msg, s, "C13")
				gv.Assert("C12.message", (msg.Message == nil) == (s.Text == "") && (msg.Message == nil || *msg.Message == s.Text))
			}
		} else {
			if !s.Ok {
				gv.Assert("C14.error", err.Error() == s.Err.Error())
			}
			if !best {
				gv.Assert("C11.nothing", msg == nil)
			} else if !s.Ok {
				gv.Assert("C14.minimal", (msg != nil) == s.Minimal())
				if msg != nil && s.Minimal() {
					header3164(msg, s, "C14")
					stamp3164(msg, s, "C14")
					gv.Assert("C14.message", msg.Message == nil)
				}
			}
		}
		if msg != nil {
			gv.Assert("C15.fresh", gv.Fresh(msg, m, in))
		}
		if gv.Native() {
			o2, e2 := machine3164(best, r3339, year, loc, zone).Parse(in)
			gv.Assert("C15.history", gv.Same(out, o2) && sameErr(err, e2))
		}
		gv.GhostOff(in)
	}
}

func header3164(m *rfc3164.SyslogMessage, s *s3164.P, id string) {
	gv.Assert(id+".priority", m.Priority != nil && int(*m.Priority) == s.Prio)
	gv.Assert(id+".facility", m.Facility != nil && int(*m.Facility) == s.Prio/8)
	gv.Assert(id+".severity", m.Severity != nil && int(*m.Severity) == s.Prio%8)
	gv.Assert(id+".hostname", strField(m.Hostname, s.Host))
	gv.Assert(id+".appname", strField(m.Appname, s.Tag))
	gv.Assert(id+".procid", strField(m.ProcID, s.Content))
	gv.Assert(id+".msgid", m.MsgID == nil)
}

func stamp3164(m *rfc3164.SyslogMessage, s *s3164.P, id string) {
	if s.HasTs {
		gv.Assert(id+".timestamp", m.Timestamp != nil && gv.Same(*m.Timestamp, s.Ts))
	} else {
		gv.Assert(id+".timestamp", m.Timestamp == nil)
	}
}
