package h

import (
	"reflect"

	"github.com/influxdata/go-syslog/v3/rfc5424"
	"verifspec/gv"
)

// Built is the contract of serializing and parsing a message which was made
// with the setters (C23).
func Built() {
	m := &rfc5424.SyslogMessage{}
	m.SetPriority(uint8(gv.Int("priority", 0, 191)))
	m.SetVersion(uint16(gv.Int("version", 1, 999)))
	m.SetTimestamp(gv.Str("timestamp"))
	m.SetHostname(gv.Str("hostname"))
	m.SetAppname(gv.Str("appname"))
	m.SetProcID(gv.Str("procid"))
	m.SetMsgID(gv.Str("msgid"))
	m.SetElementID(gv.Str("id"))
	for i := 0; i < 3; i++ {
		m.SetParameter(gv.Str("element"), gv.Str("name"), gv.Str("value"))
	}
	m.SetMessage(gv.Str("message"))
	round(m, false)
}

// Reparsed is the contract of serializing and parsing a message which came
// from the parser (C23).
func Reparsed() {
	c := gv.Bool("compliant")
	if m, err := reparse(gv.Bytes("input"), c); m != nil && err == nil {
		round(m, c)
	}
}

// reparse parses with a new parser.
func reparse(in []byte, compliant bool) (*rfc5424.SyslogMessage, error) {
	m := rfc5424.NewParser()
	if compliant {
		m = rfc5424.NewParser(rfc5424.WithCompliantMsg())
	}
	r, err := m.Parse(in)
	if r == nil {
		return nil, err
	}
	return r.(*rfc5424.SyslogMessage), err
}

// round serializes and parses a message.
func round(m *rfc5424.SyslogMessage, compliant bool) {
	text, err := m.String()
	gv.Assert("C23.text", err == nil)
	in := []byte(text)
	got, err := reparse(in, compliant)
	gv.Assert("C23.accept", err == nil)
	if got == nil {
		gv.Assert("C23.message", false)
		return
	}
	w, g := *m, *got
	gv.Assert("C23.timestamp", (w.Timestamp == nil) == (g.Timestamp == nil) && (w.Timestamp == nil || sameTime(&w, &g)))
	w.Timestamp, g.Timestamp = nil, nil
	gv.Assert("C23.same", reflect.DeepEqual(w, g))
}

// sameTime tells whether timestamps are the same instant with the same offset.
func sameTime(w, g *rfc5424.SyslogMessage) bool {
	_, a := w.Timestamp.Zone()
	_, b := g.Timestamp.Zone()
	return a == b && w.Timestamp.Equal(*g.Timestamp)
}
