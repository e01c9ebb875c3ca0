// Package sbuild is the specification of the values which the RFC5424 builder
// accepts, one field at a time.
package sbuild

import (
	"time"

	"verifspec/s5424"
)

// Name is a header field: 1 to Max printable US-ASCII characters. With SD, it
// is an SD-NAME.
type Name struct {
	Max int
	SD  bool
	N   int
	End bool `gv:"ctl"`
	Ok  bool `gv:"ctl"`
}

// Step reads a byte.
func (s *Name) Step(b byte) {
	if s.End {
		return
	}
	if s.N == s.Max || b < 33 || b > 126 || s.SD && (b == '=' || b == ']' || b == '"') {
		s.End = true
		return
	}
	s.N++
}

// Finish reads the end.
func (s *Name) Finish() {
	if !s.End {
		s.End = true
		if s.N > 0 {
			s.Ok = true
		}
	}
}

// Finished tells whether the outcome is known.
func (s *Name) Finished() bool { return s.End }

// Phases of a timestamp.
const (
	Date = iota
	Frac
	Off
	Complete
	Done
)

// Stamp is a timestamp: FULL-DATE "T" FULL-TIME, with up to 6 digits of a
// second.
type Stamp struct {
	Ph  int `gv:"ctl"`
	N   int
	Cur string
	Ok  bool `gv:"ctl"`
}

// Finished tells whether the outcome is known.
func (s *Stamp) Finished() bool { return s.Ph == Done }

// Step reads a byte.
func (s *Stamp) Step(b byte) {
	prev := byte(0)
	if s.Cur != "" {
		prev = s.Cur[len(s.Cur)-1]
	}
	ok := false
	switch s.Ph {
	case Date:
		if s.N < 19 {
			ok = s5424.OkDate(s.N, prev, b)
			s.N++
			break
		}
		ok = true
		s.N = 0
		switch b {
		case '.':
			s.Ph = Frac
		case 'Z':
			s.Ph = Complete
		case '+', '-':
			s.Ph = Off
		default:
			ok = false
		}
	case Frac:
		switch {
		case b >= '0' && b <= '9' && s.N < 6:
			s.N++
			ok = true
		case b == 'Z' && s.N > 0:
			s.Ph = Complete
			s.N = 0
			ok = true
		case (b == '+' || b == '-') && s.N > 0:
			s.Ph = Off
			s.N = 0
			ok = true
		}
	case Off:
		ok = s5424.OkTime(s.N, prev, b)
		s.N++
		if s.N == 5 {
			s.Ph = Complete
			s.N = 0
		}
	}
	if !ok {
		s.Ph = Done
		s.N = 0
		return
	}
	s.Cur += string([]byte{b})
}

// Finish reads the end.
func (s *Stamp) Finish() {
	if s.Ph == Complete {
		s.Ok = true
	}
	s.Ph = Done
}

// Time is the point in time, when it is one of the calendar.
func (s *Stamp) Time() (time.Time, error) { return time.Parse(s5424.LayoutMic, s.Cur) }

// Value is a parameter value: UTF-8 characters, where '"', '\' and ']' come
// after a backslash, which comes before none but these.
type Value struct {
	U    int  `gv:"ctl"`
	Back bool `gv:"ctl"` // after a backslash
	End  bool `gv:"ctl"`
	Ok   bool `gv:"ctl"`
	Idx  int
	Esc  []int
}

// NewValue is the initial state.
func NewValue() *Value { return &Value{Esc: []int{}} }

// Finished tells whether the outcome is known.
func (s *Value) Finished() bool { return s.End }

// Step reads a byte.
func (s *Value) Step(b byte) {
	switch {
	case s.End:
		return
	case s.Back:
		s.Back = false
		if b != '"' && b != '\\' && b != ']' {
			s.End = true
		}
	case s.U == s5424.U0 && b == '\\':
		s.Back = true
		s.Esc = append(s.Esc, s.Idx)
	case s.U == s5424.U0 && (b == '"' || b == ']'):
		s.End = true
	default:
		s.U = s5424.UStep(s.U, b)
		if s.U == s5424.UBad {
			s.U = s5424.U0
			s.End = true
		}
	}
	s.Idx++
}

// Finish reads the end.
func (s *Value) Finish() {
	if !s.End {
		s.End = true
		if s.U == s5424.U0 && !s.Back {
			s.Ok = true
		}
	}
}

// Text is the value without its escapes.
func (s *Value) Text(raw string) string {
	if len(s.Esc) > 0 {
		return s5424.RemoveAt(raw, s.Esc, 0)
	}
	return raw
}
