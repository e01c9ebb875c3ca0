package h

import (
	"verifspec/gv"
	"verifspec/sbuild"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// anyMessage is a message in any state.
func anyMessage() *rfc5424.SyslogMessage {
	m := &rfc5424.SyslogMessage{}
	m.Priority = gv.MaybeU8("priority")
	m.Facility = gv.MaybeU8("facility")
	m.Severity = gv.MaybeU8("severity")
	m.Version = uint16(gv.Int("version", 0, 65535))
	m.Timestamp = gv.MaybeTime("timestamp")
	m.Hostname = gv.MaybeStr("hostname")
	m.Appname = gv.MaybeStr("appname")
	m.ProcID = gv.MaybeStr("procid")
	m.MsgID = gv.MaybeStr("msgid")
	m.Message = gv.MaybeStr("message")
	m.StructuredData = gv.MaybeSD("structured data")
	return m
}

// same tells whether a message is the expected one.
func same(b rfc5424.Builder, m, want *rfc5424.SyslogMessage) bool {
	r, ok := b.(*rfc5424.SyslogMessage)
	return ok && r == m && gv.Same(m, want)
}

func copyOf(m *rfc5424.SyslogMessage) *rfc5424.SyslogMessage {
	c, _ := gv.Clone(m).(*rfc5424.SyslogMessage)
	return c
}

// SetPriority is the contract of SetPriority and SetVersion (C20).
func SetPriority() {
	m := anyMessage()
	want := copyOf(m)
	p := uint8(gv.Int("new priority", 0, 255))
	if p <= 191 {
		f, s := p/8, p%8
		q := p
		want.Priority, want.Facility, want.Severity = &q, &f, &s
	}
	b := m.SetPriority(p)
	gv.Assert("C20.priority", same(b, m, want))
	v := uint16(gv.Int("new version", 0, 65535))
	if v >= 1 && v <= 999 {
		want.Version = v
	}
	b = m.SetVersion(v)
	gv.Assert("C20.version", same(b, m, want))
}

// SetTimestamp is the contract of SetTimestamp (C20).
func SetTimestamp() {
	m := anyMessage()
	want := copyOf(m)
	v := gv.Str("value")
	s := &sbuild.Stamp{}
	gv.GhostStr(v, s)
	b := m.SetTimestamp(v)
	gv.GhostEndStr(v, s)
	if s.Ok {
		if t, err := s.Time(); err == nil {
			want.Timestamp = &t
		}
	}
	gv.Assert("C20.timestamp", same(b, m, want))
}

// setName compares a message after a name was set.
func name(v string, max int) *sbuild.Name {
	s := &sbuild.Name{Max: max}
	gv.GhostStr(v, s)
	return s
}

// SetHostname is the contract of SetHostname (C20).
func SetHostname() {
	m := anyMessage()
	want := copyOf(m)
	v := gv.Str("value")
	s := name(v, 255)
	b := m.SetHostname(v)
	gv.GhostEndStr(v, s)
	if s.Ok && v != "-" {
		want.Hostname = &v
	}
	gv.Assert("C20.hostname", same(b, m, want))
}

// SetAppname is the contract of SetAppname (C20).
func SetAppname() {
	m := anyMessage()
	want := copyOf(m)
	v := gv.Str("value")
	s := name(v, 48)
	b := m.SetAppname(v)
	gv.GhostEndStr(v, s)
	if s.Ok && v != "-" {
		want.Appname = &v
	}
	gv.Assert("C20.appname", same(b, m, want))
}

// SetProcID is the contract of SetProcID (C20).
func SetProcID() {
	m := anyMessage()
	want := copyOf(m)
	v := gv.Str("value")
	s := name(v, 128)
	b := m.SetProcID(v)
	gv.GhostEndStr(v, s)
	if s.Ok && v != "-" {
		want.ProcID = &v
	}
	gv.Assert("C20.procid", same(b, m, want))
}

// SetMsgID is the contract of SetMsgID (C20).
func SetMsgID() {
	m := anyMessage()
	want := copyOf(m)
	v := gv.Str("value")
	s := name(v, 32)
	b := m.SetMsgID(v)
	gv.GhostEndStr(v, s)
	if s.Ok && v != "-" {
		want.MsgID = &v
	}
	gv.Assert("C20.msgid", same(b, m, want))
}

// SetMessage is the contract of SetMessage (C20).
func SetMessage() {
	m := anyMessage()
	want := copyOf(m)
	v := gv.Str("value")
	b := m.SetMessage(v)
	if v != "" {
		want.Message = &v
	}
	gv.Assert("C20.message", same(b, m, want))
}

// SetElementID is the contract of SetElementID (C21).
func SetElementID() {
	m := anyMessage()
	want := copyOf(m)
	v := gv.Str("id")
	s := name(v, 32)
	s.SD = true
	b := m.SetElementID(v)
	gv.GhostEndStr(v, s)
	if s.Ok {
		addElement(want, v)
	}
	gv.Assert("C21.SetElementID", same(b, m, want))
	if gv.Native() {
		apart(v, "n", "v")
	}
}

// apart runs the same operations on one message with and without operations
// on others among them (C24).
func apart(id, n, v string) {
	one, alone, other := &rfc5424.SyslogMessage{}, &rfc5424.SyslogMessage{}, &rfc5424.SyslogMessage{}
	steps := []func(m *rfc5424.SyslogMessage){
		func(m *rfc5424.SyslogMessage) { m.SetPriority(13).SetVersion(1) },
		func(m *rfc5424.SyslogMessage) { m.SetElementID(id) },
		func(m *rfc5424.SyslogMessage) { m.SetParameter(id, n, v) },
		func(m *rfc5424.SyslogMessage) { m.SetParameter("x", "y", "z") },
		func(m *rfc5424.SyslogMessage) { m.SetHostname(n).SetAppname(id).SetProcID(v).SetMsgID(n).SetMessage(v) },
		func(m *rfc5424.SyslogMessage) { m.SetTimestamp("2003-10-11T22:14:15Z").SetParameter(id, "p", "") },
	}
	back := func(m *rfc5424.SyslogMessage) {
		m.SetPriority(191).SetVersion(7).SetElementID("o").SetParameter("o", "k", "w").SetParameter("x", "k", "w").SetParameter(id, "k", "w")
		m.SetHostname("oh").SetAppname("oa").SetProcID("op").SetMsgID("om").SetMessage("other").SetTimestamp("1999-01-01T00:00:00Z")
		m.String()
	}
	for _, f := range steps {
		f(alone)
	}
	text, err := alone.String()
	back(other)
	before := gv.Clone(other)
	late := &rfc5424.SyslogMessage{}
	for _, f := range steps {
		f(one)
		gv.Assert("C24.untouched", gv.Same(other, before))
		back(late)
		late = &rfc5424.SyslogMessage{}
	}
	gv.Assert("C24.apart", gv.Same(one, alone))
	back(late)
	text2, err2 := one.String()
	gv.Assert("C24.text", text == text2 && sameErr(err, err2))
}

func addElement(want *rfc5424.SyslogMessage, id string) {
	if want.StructuredData == nil {
		want.StructuredData = &map[string]map[string]string{}
	}
	if _, dup := (*want.StructuredData)[id]; !dup {
		(*want.StructuredData)[id] = map[string]string{}
	}
}

// before tells what a message holds before a parameter is set.
type before struct {
	None    bool `gv:"ctl"`
	Element bool `gv:"ctl"`
	Param   bool `gv:"ctl"`
}

func lookup(m *rfc5424.SyslogMessage, id, n string) *before {
	c := &before{}
	if m.StructuredData == nil {
		c.None = true
		return c
	}
	if ps, ok := (*m.StructuredData)[id]; ok {
		c.Element = true
		if _, ok := ps[n]; ok {
			c.Param = true
		}
	}
	return c
}

// SetParameter is the contract of SetParameter (C21).
func SetParameter() {
	m := anyMessage()
	want := copyOf(m)
	id, n, v := gv.Str("id"), gv.Str("name"), gv.Str("value")
	c := lookup(want, id, n)
	si, sn := name(id, 32), name(n, 32)
	si.SD, sn.SD = true, true
	sv := sbuild.NewValue()
	gv.GhostStr(v, sv)
	b := m.SetParameter(id, n, v)
	gv.GhostEndStr(id, si)
	gv.GhostEndStr(n, sn)
	gv.GhostEndStr(v, sv)
	if si.Ok {
		addElement(want, id)
	}
	if (c.Element || si.Ok) && !c.Param && sn.Ok && (sv.Ok || v == "") {
		(*want.StructuredData)[id][n] = sv.Text(v)
	}
	gv.Assert("C21.SetParameter", same(b, m, want))
	if gv.Native() {
		apart(id, n, v)
	}
}
