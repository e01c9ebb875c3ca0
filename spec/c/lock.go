package c

import (
	"sync"

	"verifspec/gv"

	"github.com/influxdata/go-syslog/v3"
)

// The locks held by the goroutine which runs the harness, the machines which
// were run, and whether a lock is demanded for that.
var (
	held      []*sync.Mutex
	Ran       []syslog.Machine
	ranUnder  *sync.Mutex
	Demanding bool
)

// Lock is the contract of (*sync.Mutex).Lock, seen by one goroutine.
func Lock(m *sync.Mutex) {
	for _, h := range held {
		gv.Requires("C32.deadlock.requires", h != m)
	}
	held = append(held, m)
}

// Unlock is the contract of (*sync.Mutex).Unlock.
func Unlock(m *sync.Mutex) {
	n := len(held)
	gv.Requires("C32.unlock.requires", n > 0 && held[n-1] == m)
	held = held[:n-1]
}

// Held gives the number of locks held.
func Held() int { return len(held) }

// LockedParse is the contract of the RFC5424 machine within its parser, which
// has to hold its lock, always the same one, to run it.
func LockedParse(m syslog.Machine, in []byte) (syslog.Message, error) {
	demand(m)
	return Parse(m, in)
}

// LockedParse3164 is the contract of the RFC3164 machine within its parser.
func LockedParse3164(m syslog.Machine, in []byte) (syslog.Message, error) {
	demand(m)
	if m.(syslog.BestEfforter).HasBestEffort() {
		return parse(true, "rfc3164 "+string(in))
	}
	return parse(false, "rfc3164 "+string(in))
}

func demand(m syslog.Machine) {
	if !Demanding {
		return
	}
	n := len(held)
	gv.Assert("C32.held", n > 0)
	if n > 0 {
		gv.Assert("C32.same", len(Ran) == 0 || ranUnder == held[0])
		ranUnder = held[0]
	}
	Ran = append(Ran, m)
}
