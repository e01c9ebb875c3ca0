package h

import (
	"sync"
	"time"

	"verifspec/c"
	"verifspec/gv"

	"github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// The contracts of the parsers which are safe for concurrent use (C32): they
// run their machine with their lock held, release it, and hand on its results.

// Parser5424 is the contract of the parser from rfc5424.NewParser.
func Parser5424() {
	best, compliant := gv.Bool("best effort"), gv.Bool("compliant")
	cfg := &config5424{best, compliant}
	if best && compliant {
		locked(rfc5424.NewParser(cfg.options()...), rfc5424.NewMachine(cfg.options()...))
	} else if best {
		locked(rfc5424.NewParser(rfc5424.WithBestEffort()), rfc5424.NewMachine(rfc5424.WithBestEffort()))
	} else if compliant {
		locked(rfc5424.NewParser(rfc5424.WithCompliantMsg()), rfc5424.NewMachine(rfc5424.WithCompliantMsg()))
	} else {
		locked(rfc5424.NewParser(), rfc5424.NewMachine())
	}
}

// Parser3164 is the contract of the parser from rfc3164.NewParser.
func Parser3164() {
	cfg := &config3164{best: gv.Bool("best effort"), r3339: gv.Bool("rfc3339"), hasYear: true, year: gv.Int("year", -9999, 9999)}
	cfg.hasLoc, cfg.loc = true, gv.Location("timezone")
	cfg.hasZone, cfg.zone = true, gv.Location("locale timezone")
	locked(rfc3164.NewParser(cfg.options()...), rfc3164.NewMachine(cfg.options()...))
}

// locked runs a parser twice, and the machine which it should be.
func locked(p, m syslog.Machine) {
	in, in2 := gv.Bytes("input"), gv.Bytes("second input")
	if gv.Native() {
		if l, ok := p.(sync.Locker); ok {
			gv.Assert("C32.held", waits(p, l, in))
		}
	}
	c.Demanding, c.Ran = true, nil
	out, err := p.Parse(in)
	gv.Assert("C32.released", free(p))
	out2, err2 := p.Parse(in2)
	gv.Assert("C32.released", free(p))
	c.Demanding = false
	gv.Assert("C32.input", gv.Unchanged(in) && gv.Unchanged(in2))
	if !gv.Native() {
		gv.Assert("C32.once", len(c.Ran) == 2)
		gv.Assert("C32.machine", gv.Same(c.Ran[0], m) && gv.Same(c.Ran[1], m))
	}
	want, werr := m.Parse(in)
	want2, werr2 := m.Parse(in2)
	gv.Assert("C32.result", gv.Same(out, want) && gv.Same(out2, want2))
	gv.Assert("C32.error", sameErr(err, werr) && sameErr(err2, werr2))
}

// free tells whether no lock is held.
func free(p syslog.Machine) bool {
	if !gv.Native() {
		return c.Held() == 0
	}
	if l, ok := p.(interface {
		TryLock() bool
		Unlock()
	}); ok {
		if !l.TryLock() {
			l.Unlock()
			return false
		}
		l.Unlock()
	}
	return true
}

// waits tells whether a call waits for the lock.
func waits(p syslog.Machine, l sync.Locker, in []byte) bool {
	l.Lock()
	done := make(chan bool)
	go func() {
		p.Parse(append([]byte{}, in...))
		close(done)
	}()
	r := true
	select {
	case <-done:
		r = false
	case <-time.After(2 * time.Millisecond):
	}
	l.Unlock()
	<-done
	return r
}
