package h

import (
	"strconv"
	"time"

	"github.com/influxdata/go-syslog/v3/rfc5424"
	"verifspec/gv"
	"verifspec/sbuild"
)

// Text5424 is the contract of String for a message without structured
// data elements
// (C22).
func Text5424() {
	m := anyMessage()
	if m.StructuredData != nil && len(*m.StructuredData) > 0 {
		return
	}
	before := copyOf(m)
	got, err := m.String()
	gv.Assert("C22.unmodified", gv.Same(m, before))
	if m.Priority == nil || *m.Priority > 191 || m.Version < 1 || m.Version > 999 {
		gv.Assert("C22.invalid", got == "" && err != nil && err.Error() == "invalid syslog")
		return
	}
	gv.Assert("C22.valid", err == nil)
	gv.Assert("C22.text", got == head(m)+"-"+tail(m))
}

// Text5424Data is the contract of String for a message with structured data
// (C22).
func Text5424Data() {
	m := anyMessage()
	if m.StructuredData == nil || len(*m.StructuredData) == 0 || m.Priority == nil || *m.Priority > 191 || m.Version < 1 || m.Version > 999 {
		return
	}
	before := copyOf(m)
	e := &sbuild.Elements{SD: *m.StructuredData}
	ids := gv.SortedElements(e.SD)
	gv.GhostStrs(ids, e)
	got, err := m.String()
	gv.Assert("C22.unmodified", gv.Same(m, before))
	gv.Assert("C22.valid", err == nil)
	gv.GhostEndStrs(ids, e)
	gv.Assert("C22.text", got == head(m)+e.Text+tail(m))
}

func head(m *rfc5424.SyslogMessage) string {
	text := "<" + strconv.Itoa(int(*m.Priority)) + ">" + strconv.Itoa(int(m.Version)) + " " + stamp(m.Timestamp)
	return text + " " + field(m.Hostname) + " " + field(m.Appname) + " " + field(m.ProcID) + " " + field(m.MsgID) + " "
}

func tail(m *rfc5424.SyslogMessage) string {
	if m.Message == nil {
		return ""
	}
	return " " + *m.Message
}

func field(p *string) string {
	if p == nil {
		return "-"
	}
	return *p
}

func stamp(t *time.Time) string {
	if t == nil {
		return "-"
	}
	return t.Format("2006-01-02T15:04:05.999999Z07:00")
}
