// Package framing is the specification of the two framings of a stream of
// messages.
package framing

import (
	"strconv"

	"verifspec/gv"
)

// Phases of an octet counting stream.
const (
	Start    = iota // before a length
	BadStart        // a byte which begins no length
	Digits          // in a length
	BadSP           // a byte which is no space after a length
	Space           // after the space
	BadMsg          // a byte which begins no message
	BadNum          // a length where a message was expected
	BadEnd          // after it
	Body            // after the first byte of a message
)

// Octet reads the frames of an octet counting stream: LEN SP MSG. It reads no
// message but its first byte: the harness does.
type Octet struct {
	Ph   int    `gv:"ctl"`
	Some bool   `gv:"ctl"` // there was a frame
	Stop bool   `gv:"ctl"` // the last result was given
	WS   bool   `gv:"ctl"` // the wrong byte is a space
	B    byte   // the wrong byte
	Cur  string // the length
	Num  string // the length in place of a message
	Idx  int    // bytes read
	Max  int    // the limit
}

// Finished tells whether a result is due.
func (s *Octet) Finished() bool {
	switch s.Ph {
	case BadStart, BadSP, BadMsg, BadEnd, Body:
		return true
	case Space:
		return s.TooLong()
	}
	return s.Stop
}

// TooLong tells whether the length is over the limit.
func (s *Octet) TooLong() bool { return s.Max < 0 || s.Len() > uint64(s.Max) }

// Step reads a byte.
func (s *Octet) Step(b byte) {
	s.Idx++
	switch s.Ph {
	case Start:
		if b >= '1' && b <= '9' {
			s.Ph = Digits
			s.Cur = string([]byte{b})
		} else {
			s.Ph = BadStart
			s.wrong(b)
		}
	case Digits:
		switch {
		case b >= '0' && b <= '9':
			s.Cur += string([]byte{b})
		case b == ' ':
			s.Ph = Space
		default:
			s.Ph = BadSP
			s.wrong(b)
		}
	case Space:
		switch {
		case b == '<':
			s.Ph = Body
		case b >= '1' && b <= '9':
			s.Ph = BadNum
			s.Num = string([]byte{b})
		default:
			s.Ph = BadMsg
			s.wrong(b)
		}
	case BadNum:
		if b >= '0' && b <= '9' {
			s.Num += string([]byte{b})
		} else {
			s.Ph = BadEnd
		}
	}
}

func (s *Octet) wrong(b byte) {
	if b == ' ' {
		s.WS = true
	} else {
		s.B = b
	}
}

// Finish reads the end.
func (s *Octet) Finish() {}

// Len is the length of the frame: Cur is a number without leading zeros.
func (s *Octet) Len() uint64 {
	n, _ := strconv.ParseUint(s.Cur, 10, 64)
	gv.Assume(n >= 1)
	return n
}

// Next begins the next frame, n bytes further.
func (s *Octet) Next(n int) {
	s.Ph = Start
	s.Some = true
	s.Cur = ""
	s.Idx += n
}
