// Package h holds the proof harnesses: the contract of every entry point of
// the library, stated against the specifications.
package h

import (
	"verifspec/gv"
	"verifspec/s5424"

	"github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func machine5424(best, compliant bool) syslog.Machine {
	switch {
	case best && compliant:
		return rfc5424.NewMachine(rfc5424.WithBestEffort(), rfc5424.WithCompliantMsg())
	case best:
		return rfc5424.NewMachine(rfc5424.WithBestEffort())
	case compliant:
		return rfc5424.NewMachine(rfc5424.WithCompliantMsg())
	}
	return rfc5424.NewMachine()
}

// strField tells whether an optional text field has the value of the input.
func strField(p *string, v string) bool {
	return (p == nil) == (v == "" || v == "-") && (p == nil || *p == v)
}

// Header5424 compares the header fields.
func header5424(m *rfc5424.SyslogMessage, s *s5424.P, id string) {
	gv.Assert(id+".priority", m.Priority != nil && int(*m.Priority) == s.Prio)
	gv.Assert(id+".facility", m.Facility != nil && int(*m.Facility) == s.Prio/8)
	gv.Assert(id+".severity", m.Severity != nil && int(*m.Severity) == s.Prio%8)
	gv.Assert(id+".version", int(m.Version) == s.Ver)
	if s.HasTs {
		gv.Assert(id+".timestamp", m.Timestamp != nil && gv.Same(*m.Timestamp, s.Ts))
	} else {
		gv.Assert(id+".timestamp", m.Timestamp == nil)
	}
	gv.Assert(id+".hostname", strField(m.Hostname, s.Host))
	gv.Assert(id+".appname", strField(m.Appname, s.App))
	gv.Assert(id+".procid", strField(m.ProcID, s.Proc))
	gv.Assert(id+".msgid", strField(m.MsgID, s.Msgid))
}

func sd5424(m *rfc5424.SyslogMessage, s *s5424.P, id string) {
	if s.HasSD {
		gv.Assert(id+".present", m.StructuredData != nil)
		if m.StructuredData != nil {
			gv.Assert(id+".elements", gv.Same(*m.StructuredData, s.SD))
		}
	} else {
		gv.Assert(id+".absent", m.StructuredData == nil)
	}
}

func text5424(m *rfc5424.SyslogMessage, s *s5424.P, id string) {
	gv.Assert(id, (m.Message == nil) == (s.Msg == "") && (m.Message == nil || *m.Message == s.Msg))
}

func sameErr(a, b error) bool {
	return (a == nil) == (b == nil) && (a == nil || a.Error() == b.Error())
}

// Parse5424 is the contract of the RFC5424 machine: any number of inputs on
// one machine, in any configuration.
func Parse5424() {
	best, compliant := gv.Bool("best effort"), gv.Bool("compliant message")
	m := machine5424(best, compliant)
	for gv.Loop() {
		in := gv.Bytes("input")
		s := s5424.New(compliant)
		gv.Mark()
		gv.Ghost(in, s)
		out, err := m.Parse(in)
		gv.GhostEnd(in, s)
		gv.Assert("C01.input", gv.Unchanged(in))
		gv.Assert("C02.accept", (err == nil) == s.Ok)
		if s.InMsg {
			gv.Assert("C05.accept", (err == nil) == s.Ok)
		}
		var msg *rfc5424.SyslogMessage
		if out != nil {
			msg, _ = out.(*rfc5424.SyslogMessage)
			gv.Assert("C02.type", msg != nil)
		}
		if err == nil {
			gv.Assert("C02.message", msg != nil)
			if msg != nil && s.Ok {
				header5424(msg, s, "C03")
				sd5424(msg, s, "C04")
				text5424(msg, s, "C05.message")
			}
		} else {
			if !s.Ok {
				gv.Assert("C07.error", err.Error() == s.Err.Error())
			}
			if !best {
				gv.Assert("C02.nothing", msg == nil)
			} else if !s.Ok {
				gv.Assert("C06.minimal", (msg != nil) == s.Minimal())
				if msg != nil && s.Minimal() {
					header5424(msg, s, "C06")
					sd5424(msg, s, "C06.sd")
					text5424(msg, s, "C06.message")
				}
			}
		}
		if msg != nil {
			gv.Assert("C08.fresh", gv.Fresh(msg, m, in))
		}
		if gv.Native() {
			o2, e2 := machine5424(best, compliant).Parse(in)
			gv.Assert("C08.history", gv.Same(out, o2) && sameErr(err, e2))
		}
		gv.GhostOff(in)
	}
}
