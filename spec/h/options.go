package h

import (
	"fmt"
	"io"
	"time"

	c5 "verifspec/c"
	"verifspec/gv"
	"verifspec/s3164"

	"github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// The contracts of the options (C46). A machine configured by any list of
// options is the same as one configured, in a fixed order, by the last value
// given for every setting.

// nop is an option which sets nothing.
func nop(m syslog.Machine) syslog.Machine { return m }

type config5424 struct{ best, compliant bool }

func (c *config5424) pick(k int) syslog.MachineOption {
	switch k {
	case 0:
		c.best = true
		return rfc5424.WithBestEffort()
	case 1:
		c.compliant = true
		return rfc5424.WithCompliantMsg()
	}
	return nop
}

func (c *config5424) options() (o []syslog.MachineOption) {
	if c.best {
		o = append(o, rfc5424.WithBestEffort())
	}
	if c.compliant {
		o = append(o, rfc5424.WithCompliantMsg())
	}
	return
}

func (c *config5424) machine() syslog.Machine { return rfc5424.NewMachine(c.options()...) }

func (c *config5424) parser() syslog.Machine { return rfc5424.NewParser(c.options()...) }

// probe5424 runs a machine on inputs which tell its configuration.
func probe5424(m syslog.Machine, best, compliant bool, id string) {
	msg, err := m.Parse([]byte("<1>1 x"))
	gv.Assert(id+".best", (msg != nil) == best && err != nil)
	_, err = m.Parse([]byte("<1>1 - - - - - - \xef\xbb\xbf\xff"))
	gv.Assert(id+".compliant", (err != nil) == compliant)
}

// Options5424 is the contract of the options of the RFC5424 machine.
func Options5424() {
	c := &config5424{}
	a := c.pick(gv.Int("first", 0, 2))
	b := c.pick(gv.Int("second", 0, 2))
	d := c.pick(gv.Int("third", 0, 2))
	m := rfc5424.NewMachine(a, b, d)
	gv.Assert("C46.5424.machine", gv.Same(m, c.machine()))
	gv.Assert("C46.5424.best", m.HasBestEffort() == c.best)
	probe5424(rfc5424.NewMachine(a, b, d), c.best, c.compliant, "C46.5424.parse")
	p := rfc5424.NewParser(a, b, d)
	gv.Assert("C46.5424.parser", gv.Same(p, c.parser()))
	gv.Assert("C46.5424.parser.best", p.HasBestEffort() == c.best)
	probe5424(rfc5424.NewParser(a, b, d), c.best, c.compliant, "C46.5424.parser.parse")
	p.WithBestEffort()
	m.WithBestEffort()
	c.best = true
	gv.Assert("C46.5424.WithBestEffort", gv.Same(m, c.machine()) && m.HasBestEffort())
	gv.Assert("C46.5424.parser.WithBestEffort", gv.Same(p, c.parser()) && p.HasBestEffort())
}

// OptionsStep5424 is the contract of one more option, from every configuration.
func OptionsStep5424() {
	c := &config5424{}
	if gv.Bool("best effort") {
		c.best = true
	}
	if gv.Bool("compliant") {
		c.compliant = true
	}
	m := c.machine()
	m = c.pick(gv.Int("next", 0, 2))(m)
	gv.Assert("C46.5424.step", gv.Same(m, c.machine()))
	m.WithBestEffort()
	c.best = true
	gv.Assert("C46.5424.step.WithBestEffort", gv.Same(m, c.machine()))
}

type config3164 struct {
	best, r3339, hasYear, hasLoc, hasZone bool
	year                                  int
	loc, zone                             *time.Location
}

func (c *config3164) pick(name string, k int) syslog.MachineOption {
	switch k {
	case 0:
		c.best = true
		return rfc3164.WithBestEffort()
	case 1:
		c.r3339 = true
		return rfc3164.WithRFC3339()
	case 2:
		c.hasYear, c.year = true, gv.Int(name+" year", -9999, 9999)
		return rfc3164.WithYear(rfc3164.Year{YYYY: c.year})
	case 3:
		c.hasLoc, c.loc = true, gv.Location(name+" timezone")
		return rfc3164.WithTimezone(c.loc)
	case 4:
		c.hasZone, c.zone = true, gv.Location(name+" locale timezone")
		return rfc3164.WithLocaleTimezone(c.zone)
	}
	return nop
}

func (c *config3164) options() (o []syslog.MachineOption) {
	if c.hasZone {
		o = append(o, rfc3164.WithLocaleTimezone(c.zone))
	}
	if c.best {
		o = append(o, rfc3164.WithBestEffort())
	}
	if c.hasLoc {
		o = append(o, rfc3164.WithTimezone(c.loc))
	}
	if c.r3339 {
		o = append(o, rfc3164.WithRFC3339())
	}
	if c.hasYear {
		o = append(o, rfc3164.WithYear(rfc3164.Year{YYYY: c.year}))
	}
	return
}

func (c *config3164) machine() syslog.Machine { return rfc3164.NewMachine(c.options()...) }

func (c *config3164) parser() syslog.Machine { return rfc3164.NewParser(c.options()...) }

// probe runs a machine on inputs which tell its configuration.
func (c *config3164) probe(m syslog.Machine, id string) {
	msg, err := m.Parse([]byte("<1>x"))
	gv.Assert(id+".best", (msg != nil) == c.best && err != nil)
	for _, v := range []string{"<1>Mar  2 15:04:05 h a: m", "<1>2003-10-11T22:14:15Z h a: m"} {
		in := []byte(v)
		s := s3164.New(c.r3339, c.year, c.loc, c.zone)
		gv.Ghost(in, s)
		msg, err := m.Parse(in)
		gv.GhostEnd(in, s)
		gv.Assert(id+".rfc3339", (err == nil) == s.Ok && s.Ok == (v[3] == 'M' || c.r3339))
		if err == nil {
			x, ok := msg.(*rfc3164.SyslogMessage)
			gv.Assert(id+".message", ok && x != nil)
			if ok && x != nil {
				stamp3164(x, s, id)
			}
		}
		gv.GhostOff(in)
	}
}

// Options3164 is the contract of the options of the RFC3164 machine.
func Options3164() {
	c := &config3164{}
	a := c.pick("first", gv.Int("first", 0, 5))
	b := c.pick("second", gv.Int("second", 0, 5))
	d := c.pick("third", gv.Int("third", 0, 5))
	m := rfc3164.NewMachine(a, b, d)
	gv.Assert("C46.3164.machine", gv.Same(m, c.machine()))
	gv.Assert("C46.3164.best", m.HasBestEffort() == c.best)
	c.probe(rfc3164.NewMachine(a, b, d), "C46.3164.parse")
	// the defaults are the values 0 and nil
	gv.Assert("C46.3164.defaults", gv.Same(m, machine3164(c.best, c.r3339, c.year, c.loc, c.zone)))
	p := rfc3164.NewParser(a, b, d)
	gv.Assert("C46.3164.parser", gv.Same(p, c.parser()))
	gv.Assert("C46.3164.parser.best", p.HasBestEffort() == c.best)
	c.probe(rfc3164.NewParser(a, b, d), "C46.3164.parser.parse")
	m.WithBestEffort()
	p.WithBestEffort()
	c.best = true
	gv.Assert("C46.3164.WithBestEffort", gv.Same(m, c.machine()) && m.HasBestEffort())
	gv.Assert("C46.3164.parser.WithBestEffort", gv.Same(p, c.parser()) && p.HasBestEffort())
}

// OptionsStep3164 is the contract of one more option, from every configuration.
func OptionsStep3164() {
	c := &config3164{}
	if gv.Bool("best effort") {
		c.best = true
	}
	if gv.Bool("rfc3339") {
		c.r3339 = true
	}
	if gv.Bool("has year") {
		c.hasYear, c.year = true, gv.Int("year", -9999, 9999)
	}
	if gv.Bool("has timezone") {
		c.hasLoc, c.loc = true, gv.Location("timezone")
	}
	if gv.Bool("has locale timezone") {
		c.hasZone, c.zone = true, gv.Location("locale timezone")
	}
	m := c.machine()
	m = c.pick("next", gv.Int("next", 0, 5))(m)
	gv.Assert("C46.3164.step", gv.Same(m, c.machine()))
	gv.Assert("C46.3164.step.best", m.HasBestEffort() == c.best)
	m.WithBestEffort()
	c.best = true
	gv.Assert("C46.3164.step.WithBestEffort", gv.Same(m, c.machine()))
}

// nopStream is an option which sets nothing.
func nopStream(p syslog.Parser) syslog.Parser { return p }

type configStream struct {
	best, hasMax, nul bool
	max               int
}

func (c *configStream) octet(name string, k int) syslog.ParserOption {
	switch k {
	case 0:
		c.best = true
		return syslog.WithBestEffort()
	case 1:
		c.hasMax, c.max = true, gv.Int(name+" limit", -1<<62, 1<<62)
		return syslog.WithMaxMessageLength(c.max)
	}
	return nopStream
}

func (c *configStream) octetOptions() []syslog.ParserOption {
	o := []syslog.ParserOption{syslog.WithListener(nil)}
	if c.hasMax {
		o = append(o, syslog.WithMaxMessageLength(c.max))
	}
	if c.best {
		o = append(o, syslog.WithBestEffort())
	}
	return o
}

// OptionsOctet is the contract of the options of the octet counting parser.
// That the limit, the mode and the listener are used as they should is in
// C40, C41 and C42.
func OptionsOctet() {
	c := &configStream{}
	a := c.octet("first", gv.Int("first", 0, 2))
	b := c.octet("second", gv.Int("second", 0, 2))
	d := c.octet("third", gv.Int("third", 0, 2))
	p := octetcounting.NewParser(a, syslog.WithListener(nil), b, d)
	gv.Assert("C46.octet.parser", gv.Same(p, octetcounting.NewParser(c.octetOptions()...)))
	gv.Assert("C46.octet.best", p.HasBestEffort() == c.best)
	if !c.hasMax {
		c.hasMax, c.max = true, 8192
		gv.Assert("C46.octet.default", gv.Same(p, octetcounting.NewParser(c.octetOptions()...)))
	}
	var got []*syslog.Result
	p = octetcounting.NewParser(a, syslog.WithListener(func(r *syslog.Result) { got = append(got, r) }), b, d)
	p.Parse(c5.NewStream([]byte("9999 "), io.EOF, 0, nil))
	gv.Assert("C46.octet.listener", len(got) == 1)
	if len(got) == 1 && c.max < 9999 {
		gv.Assert("C46.octet.limit", sameResult(got[0], nil, fmt.Errorf("message too long to parse. was size %d, max length %d", uint64(9999), c.max)))
	}
	got = nil
	p.Parse(c5.NewStream([]byte("6 <1>1 x"), io.EOF, 0, nil))
	gv.Assert("C46.octet.results", len(got) == 1)
	if len(got) == 1 && c.max >= 6 {
		gv.Assert("C46.octet.mode", (got[0].Message != nil) == c.best && got[0].Error != nil)
	}
}

// OptionsStepOctet is the contract of one more option, from every
// configuration.
func OptionsStepOctet() {
	c := &configStream{}
	if gv.Bool("best effort") {
		c.best = true
	}
	if gv.Bool("has limit") {
		c.hasMax, c.max = true, gv.Int("limit", -1<<62, 1<<62)
	}
	o := c.octetOptions()
	p := octetcounting.NewParser(append(o, c.octet("next", gv.Int("next", 0, 2)))...)
	gv.Assert("C46.octet.step", gv.Same(p, octetcounting.NewParser(c.octetOptions()...)))
	gv.Assert("C46.octet.step.best", p.HasBestEffort() == c.best)
}

func (c *configStream) trailer(name string, k int) syslog.ParserOption {
	switch k {
	case 0:
		c.best = true
		return syslog.WithBestEffort()
	case 1:
		c.nul = true
		return nontransparent.WithTrailer(nontransparent.NUL)
	case 2:
		c.nul = false
		return nontransparent.WithTrailer(nontransparent.LF)
	case 3: // not a trailer
		return nontransparent.WithTrailer(nontransparent.TrailerType(gv.Int(name+" trailer", 2, 1<<62)))
	case 4:
		return nontransparent.WithTrailer(nontransparent.TrailerType(gv.Int(name+" trailer", -1<<62, -1)))
	case 5: // means nothing here
		return syslog.WithMaxMessageLength(gv.Int(name+" limit", -1<<62, 1<<62))
	}
	return nopStream
}

func (c *configStream) trailerOptions() []syslog.ParserOption {
	o := []syslog.ParserOption{syslog.WithListener(nil)}
	if c.best {
		o = append(o, syslog.WithBestEffort())
	}
	if c.nul {
		o = append(o, nontransparent.WithTrailer(nontransparent.NUL))
	}
	return o
}

// OptionsTrailer is the contract of the options of the non-transparent parser.
// That the trailer, the mode and the listener are used as they should is in
// C43 and C44.
func OptionsTrailer() {
	c := &configStream{}
	a := c.trailer("first", gv.Int("first", 0, 6))
	b := c.trailer("second", gv.Int("second", 0, 6))
	d := c.trailer("third", gv.Int("third", 0, 6))
	p := nontransparent.NewParser(a, b, syslog.WithListener(nil), d)
	gv.Assert("C46.trailer.parser", gv.Same(p, nontransparent.NewParser(c.trailerOptions()...)))
	gv.Assert("C46.trailer.best", p.HasBestEffort() == c.best)
	var got []*syslog.Result
	p = nontransparent.NewParser(a, b, syslog.WithListener(func(r *syslog.Result) { got = append(got, r) }), d)
	p.Parse(c5.NewStream([]byte("<1>1 x\x00\n"), io.EOF, 0, nil))
	gv.Assert("C46.trailer.results", len(got) > 0)
	if len(got) > 0 {
		gv.Assert("C46.trailer.mode", (got[0].Message != nil) == c.best && got[0].Error != nil)
	}
	got = nil
	p.Parse(c5.NewStream([]byte("<1>1 - - - - - - a\x00<1>1 - - - - - - b\x00<\n"), io.EOF, 0, nil))
	if c.nul {
		gv.Assert("C46.trailer.NUL", len(got) == 3)
	} else {
		gv.Assert("C46.trailer.LF", len(got) == 1)
	}
}

// OptionsStepTrailer is the contract of one more option, from every
// configuration.
func OptionsStepTrailer() {
	c := &configStream{}
	if gv.Bool("best effort") {
		c.best = true
	}
	if gv.Bool("NUL") {
		c.nul = true
	}
	o := c.trailerOptions()
	p := nontransparent.NewParser(append(o, c.trailer("next", gv.Int("next", 0, 6)))...)
	gv.Assert("C46.trailer.step", gv.Same(p, nontransparent.NewParser(c.trailerOptions()...)))
	gv.Assert("C46.trailer.step.best", p.HasBestEffort() == c.best)
}
