package framing

import (
	"io"

	"verifspec/gv"
)

// Trailer reads the lines of a stream of messages with trailers. A message is
// a line which begins with '<' and the lines up to the next such line.
type Trailer struct {
	In    []byte
	Dead  bool `gv:"ctl"` // the stream does not begin with a message
	Has   bool `gv:"ctl"` // In[A:E] is a message, maybe not all of it
	Due   bool `gv:"ctl"` // the result of In[P:Q] is due
	Ended bool `gv:"ctl"` // there are no more trailers
	Done  bool `gv:"ctl"` // the result of the rest was given
	A, E  int
	P, Q  int
	R     int    // the rest is In[R:]
	Text  string // the error of the stream
}

// Line reads a line with its trailer.
func (s *Trailer) Line(lo, hi int) {
	gv.Assert("C43.order", !s.Due && !s.Ended)
	if s.Dead {
		return
	}
	if s.In[lo] == '<' {
		if s.Has {
			s.Due = true
			s.P, s.Q = s.A, s.E
		}
		s.Has = true
		s.A = lo
	} else if !s.Has {
		s.Dead = true
		return
	}
	s.E = hi
}

// Rest reads what follows the last trailer.
func (s *Trailer) Rest(lo int, err error) {
	gv.Assert("C43.order", !s.Due && !s.Ended)
	s.Ended = true
	s.R = lo
	if err == io.EOF {
		s.Text = "unexpected EOF"
	} else {
		s.Text = err.Error()
	}
}

// More tells whether results are due.
func (s *Trailer) More() bool { return s.Due || s.Has || !s.Done && s.R < len(s.In) }
