package h

import (
	"verifspec/gv"

	"github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/common"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// BasePriority is the contract of the priority of a message (C30).
func BasePriority() {
	p := uint8(gv.Int("p", 0, 255))
	v := uint16(gv.Int("v", 0, 65535))
	b := &syslog.Base{}
	gv.Assert("C30.unset", !b.Valid())
	b.ComputeFromPriority(p)
	gv.Assert("C30.priority", b.Priority != nil && *b.Priority == p)
	gv.Assert("C30.facility", b.Facility != nil && *b.Facility == p/8)
	gv.Assert("C30.severity", b.Severity != nil && *b.Severity == p%8)
	gv.Assert("C30.valid", b.Valid() == (p <= 191))
	m := &rfc5424.SyslogMessage{}
	m.Version = v
	gv.Assert("C30.5424.unset", !m.Valid())
	m.ComputeFromPriority(p)
	gv.Assert("C30.5424.priority", m.Priority != nil && *m.Priority == p)
	gv.Assert("C30.5424.facility", m.Facility != nil && *m.Facility == p/8)
	gv.Assert("C30.5424.severity", m.Severity != nil && *m.Severity == p%8)
	gv.Assert("C30.5424.valid", m.Valid() == (p <= 191 && v >= 1 && v <= 999))
	l := &rfc3164.SyslogMessage{}
	gv.Assert("C30.3164.unset", !l.Valid())
	l.ComputeFromPriority(p)
	gv.Assert("C30.3164.valid", l.Valid() == (p <= 191))
}

// FacilityText is the contract of the texts of a facility (C31).
func FacilityText() {
	f := uint8(gv.Int("f", 0, 23))
	b := &syslog.Base{}
	gv.Assert("C31.facility.unset", b.FacilityMessage() == nil && b.FacilityLevel() == nil)
	b.Facility = &f
	m := b.FacilityMessage()
	gv.Assert("C31.facility.message", m != nil && *m == facilityMessage(f))
	l := b.FacilityLevel()
	gv.Assert("C31.facility.level", l != nil && *l == facilityLevel(f))
	gv.Assert("C31.facility.severity", b.SeverityMessage() == nil && b.SeverityLevel() == nil && b.SeverityShortLevel() == nil)
}

// SeverityText is the contract of the texts of a severity (C31).
func SeverityText() {
	f := uint8(gv.Int("s", 0, 7))
	b := &syslog.Base{}
	gv.Assert("C31.severity.unset", b.SeverityMessage() == nil && b.SeverityLevel() == nil && b.SeverityShortLevel() == nil)
	b.Severity = &f
	m := b.SeverityMessage()
	gv.Assert("C31.severity.message", m != nil && *m == severityMessage(f))
	l := b.SeverityLevel()
	gv.Assert("C31.severity.level", l != nil && *l == severityLevel(f))
	s := b.SeverityShortLevel()
	gv.Assert("C31.severity.short", s != nil && *s == severityShort(f))
	gv.Assert("C31.severity.facility", b.FacilityMessage() == nil && b.FacilityLevel() == nil)
}

func facilityMessage(f uint8) string {
	switch f {
	case 0:
		return "kernel messages"
	case 1:
		return "user-level messages"
	case 2:
		return "mail system messages"
	case 3:
		return "system daemons messages"
	case 4:
		return "authorization messages"
	case 5:
		return "messages generated internally by syslogd"
	case 6:
		return "line printer subsystem messages"
	case 7:
		return "network news subsystem messages"
	case 8:
		return "UUCP subsystem messages"
	case 9:
		return "clock daemon messages"
	case 10:
		return "security/authorization messages"
	case 11:
		return "ftp daemon messages"
	case 12:
		return "NTP subsystem messages"
	case 13:
		return "audit messages"
	case 14:
		return "console messages"
	case 15:
		return "clock daemon messages"
	case 16:
		return "local use 0 (local0)"
	case 17:
		return "local use 1 (local1)"
	case 18:
		return "local use 2 (local2)"
	case 19:
		return "local use 3 (local3)"
	case 20:
		return "local use 4 (local4)"
	case 21:
		return "local use 5 (local5)"
	case 22:
		return "local use 6 (local6)"
	}
	return "local use 7 (local7)"
}

func facilityLevel(f uint8) string {
	switch f {
	case 0:
		return "kern"
	case 1:
		return "user"
	case 2:
		return "mail"
	case 3:
		return "daemon"
	case 4:
		return "auth"
	case 5:
		return "syslog"
	case 6:
		return "lpr"
	case 7:
		return "news"
	case 8:
		return "uucp"
	case 9:
		return "cron"
	case 10:
		return "authpriv"
	case 11:
		return "ftp"
	case 12:
		return "ntp"
	case 13:
		return "security"
	case 14:
		return "console"
	case 15:
		return "cron2"
	case 16:
		return "local0"
	case 17:
		return "local1"
	case 18:
		return "local2"
	case 19:
		return "local3"
	case 20:
		return "local4"
	case 21:
		return "local5"
	case 22:
		return "local6"
	}
	return "local7"
}

func severityMessage(s uint8) string {
	switch s {
	case 0:
		return "system is unusable"
	case 1:
		return "action must be taken immediately"
	case 2:
		return "critical conditions"
	case 3:
		return "error conditions"
	case 4:
		return "warning conditions"
	case 5:
		return "normal but significant condition"
	case 6:
		return "informational messages"
	}
	return "debug-level messages"
}

func severityLevel(s uint8) string {
	switch s {
	case 0:
		return "emergency"
	case 1:
		return "alert"
	case 2:
		return "critical"
	case 3:
		return "error"
	case 4:
		return "warning"
	case 5:
		return "notice"
	case 6:
		return "informational"
	}
	return "debug"
}

func severityShort(s uint8) string {
	switch s {
	case 0:
		return "emerg"
	case 1:
		return "alert"
	case 2:
		return "crit"
	case 3:
		return "err"
	case 4:
		return "warning"
	case 5:
		return "notice"
	case 6:
		return "info"
	}
	return "debug"
}

// Ranges is the contract of the range predicates (C50).
func Ranges() {
	v, lo, hi := gv.Int("v", -1<<62, 1<<62), gv.Int("lo", -1<<62, 1<<62), gv.Int("hi", -1<<62, 1<<62)
	gv.Assert("C50.InBetween", common.InBetween(v, lo, hi) == (lo <= v && v <= hi))
	p := uint8(gv.Int("p", 0, 255))
	gv.Assert("C50.ValidPriority", common.ValidPriority(p) == (p <= 191))
	n := uint16(gv.Int("n", 0, 65535))
	gv.Assert("C50.ValidVersion", common.ValidVersion(n) == (n >= 1 && n <= 999))
}
