package h

import (
	"errors"
	"fmt"
	"io"

	"verifspec/c"
	"verifspec/framing"
	"verifspec/gv"

	"github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// stream is a stream which ends well or with an error.
func stream(in []byte, name string) (io.Reader, error) {
	err := io.EOF
	if gv.Bool(name + " fails") {
		err = errors.New("reader failure")
	}
	return c.NewStream(in, err, gv.Int(name+" chunk", 0, 100), nil), err
}

func inner(best bool) syslog.Machine {
	if best {
		return rfc5424.NewMachine(rfc5424.WithBestEffort())
	}
	return rfc5424.NewMachine()
}

// Octet is the contract of the octet counting parser (C40, C41, C42).
func Octet() {
	in := gv.Bytes("in")
	s := &framing.Octet{}
	gv.Ghost(in, s)
	best := gv.Bool("best effort")
	m := inner(best)
	s.Max = 8192
	live := false
	emit := func(r *syslog.Result) {
		if live {
			octetResult(in, s, m, r)
		}
	}
	opts := []syslog.ParserOption{syslog.WithListener(emit)}
	if best {
		opts = append(opts, syslog.WithBestEffort())
	}
	if gv.Bool("limit") {
		s.Max = gv.Int("max", -10, 1<<40)
		opts = append(opts, syslog.WithMaxMessageLength(s.Max))
	}
	p := octetcounting.NewParser(opts...)
	for gv.Loop() {
		r, _ := stream(gv.Bytes("earlier"), "earlier")
		p.Parse(r)
	}
	r, _ := stream(in, "stream")
	live = true
	p.Parse(r)
	gv.Assert("C40.all", s.Stop || s.Ph == framing.Start && s.Some && !gv.GhostMore(in, s))
}

// octetResult is what the listener demands of a result.
func octetResult(in []byte, s *framing.Octet, m syslog.Machine, r *syslog.Result) {
	gv.Assert("C41.stop", !s.Stop)
	gv.GhostEnd(in, s)
	if s.Ph == framing.Start {
		gv.Assert("C40.frame", !s.Some && !gv.GhostMore(in, s))
		s.Stop = true
		gv.Assert("C41.empty", sameResult(r, nil, fmt.Errorf("found EOF, expecting a MSGLEN")))
		return
	}
	tok := "ILLEGAL(" + string([]byte{s.B}) + ")"
	if s.WS {
		tok = "WS"
	}
	if s.Ph == framing.BadStart {
		s.Stop = true
		gv.Assert("C41.length", sameResult(r, nil, fmt.Errorf("found %s, expecting a MSGLEN", tok)))
		return
	}
	size := s.Len()
	if s.TooLong() {
		s.Stop = true
		gv.Assert("C41.limit", sameResult(r, nil, fmt.Errorf("message too long to parse. was size %d, max length %d", size, s.Max)))
		return
	}
	n := int(size)
	lit := ""
	switch s.Ph {
	case framing.Digits:
		gv.Assert("C40.digits", !gv.GhostMore(in, s))
		s.Stop = true
		gv.Assert("C41.space.end", sameResult(r, nil, fmt.Errorf("found EOF, expecting a WS")))
		return
	case framing.BadSP:
		s.Stop = true
		gv.Assert("C41.space", sameResult(r, nil, fmt.Errorf("found %s, expecting a WS", tok)))
		return
	case framing.Body:
		at := s.Idx - 1
		if len(in)-at >= n {
			msg, err := m.Parse(in[at : at+n])
			if err != nil && !m.HasBestEffort() {
				s.Stop = true
				msg = nil
			} else {
				s.Next(n - 1)
				gv.GhostSkip(in, s, n-1)
			}
			gv.Assert("C40.frame", sameResult(r, msg, err))
			return
		}
		tok = "EOF"
		lit = string(in[at:])
	case framing.Space:
		gv.Assert("C40.space", !gv.GhostMore(in, s))
		tok = "EOF"
	case framing.BadMsg:
		if s.WS {
			lit = " "
		} else {
			lit = string([]byte{s.B})
		}
	case framing.BadNum, framing.BadEnd:
		tok = "MSGLEN(" + s.Num + ")"
		lit = s.Num
	}
	s.Stop = true
	e := fmt.Errorf(`found %s after "%s", expecting a SYSLOGMSG containing %d octets`, tok, lit, size)
	if m.HasBestEffort() && len(lit) < n {
		msg, err := m.Parse([]byte(lit))
		if err == nil {
			err = e
		}
		gv.Assert("C42.best", sameResult(r, msg, err))
		return
	}
	gv.Assert("C42.strict", sameResult(r, nil, e))
}

// TrailerStream is the contract of the parser of messages with trailers (C43,
// C44).
func TrailerStream() {
	if gv.Bool("NUL") {
		trailerStream(nontransparent.NUL, 0)
	} else {
		trailerStream(nontransparent.LF, 10)
	}
}

func trailerStream(typ nontransparent.TrailerType, delim byte) {
	in := gv.Bytes("in")
	s := &framing.Trailer{In: in}
	best := gv.Bool("best effort")
	m := inner(best)
	live := false
	var got []*syslog.Result
	emit := func(r *syslog.Result) {
		if live {
			if gv.Proof() {
				trailerResult(in, s, m, r)
			} else {
				got = append(got, r)
			}
		}
	}
	opts := []syslog.ParserOption{syslog.WithListener(emit), nontransparent.WithTrailer(typ)}
	if best {
		opts = append(opts, syslog.WithBestEffort())
	}
	p := nontransparent.NewParser(opts...)
	for gv.Loop() {
		r, _ := stream(gv.Bytes("earlier"), "earlier")
		p.Parse(r)
	}
	err := io.EOF
	if gv.Bool("fails") {
		err = errors.New("reader failure")
	}
	r := c.NewStream(in, err, gv.Int("chunk", 0, 100), s)
	live = true
	p.Parse(r)
	if !gv.Proof() {
		trailerReplay(in, delim, s, m, err, got)
	}
	gv.Assert("C43.all", s.Ended && !s.Due && !s.Has)
	gv.Assert("C44.rest", s.Done || s.R == len(in))
}

// trailerReplay gives the results after the lines they follow: the run was
// with the real bufio.Reader.
func trailerReplay(in []byte, delim byte, s *framing.Trailer, m syslog.Machine, err error, got []*syslog.Result) {
	next := func() {
		if len(got) > 0 {
			trailerResult(in, s, m, got[0])
			got = got[1:]
		}
	}
	lo := 0
	for i, b := range in {
		if b == delim {
			s.Line(lo, i+1)
			lo = i + 1
			if s.Due {
				next()
			}
		}
	}
	s.Rest(lo, err)
	for len(got) > 0 {
		next()
	}
}

// trailerResult is what the listener demands of a result.
func trailerResult(in []byte, s *framing.Trailer, m syslog.Machine, r *syslog.Result) {
	gv.Assert("C44.nothing", r.Message != nil || r.Error != nil)
	switch {
	case s.Due:
		s.Due = false
		msg, err := m.Parse(in[s.P : s.Q-1])
		gv.Assert("C43.message", sameResult(r, msg, err))
	case s.Ended && s.Has:
		s.Has = false
		msg, err := m.Parse(in[s.A : s.E-1])
		gv.Assert("C43.last", sameResult(r, msg, err))
	default:
		gv.Assert("C43.extra", s.Ended)
		gv.Assert("C44.once", !s.Done && s.R < len(in))
		s.Done = true
		msg, err := m.Parse(in[s.R:])
		if err == nil {
			err = errors.New(s.Text)
		}
		gv.Assert("C44.result", sameResult(r, msg, err))
	}
}

// sameResult compares errors by their text.
func sameResult(r *syslog.Result, msg syslog.Message, err error) bool {
	if !gv.Same(r.Message, msg) {
		return false
	}
	if err == nil || r.Error == nil {
		return err == nil && r.Error == nil
	}
	return err.Error() == r.Error.Error()
}
