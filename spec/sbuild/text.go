package sbuild

import (
	"verifspec/gv"
)

// Elements is the text of structured data: the elements in the order of their
// ids.
type Elements struct {
	SD   map[string]map[string]string
	Text string
	Open bool `gv:"ctl"`
	in   *Params
}

// Step writes an element up to its parameters.
func (s *Elements) Step(id string) {
	s.close()
	s.Text += "[" + id
	p := &Params{S: s, PS: s.SD[id]}
	p.Names = gv.Sorted(p.PS)
	gv.GhostStrs(p.Names, p)
	s.in = p
	s.Open = true
}

func (s *Elements) close() {
	if s.Open {
		gv.GhostEndStrs(s.in.Names, s.in)
		gv.GhostOffStrs(s.in.Names)
		s.Open = false
		s.in = nil
	}
}

// Finish completes the last element.
func (s *Elements) Finish() { s.close() }

// Params is the text of the parameters of an element, in the order of their
// names.
type Params struct {
	S     *Elements
	PS    map[string]string
	Names []string
}

// Step writes a parameter.
func (p *Params) Step(n string) {
	p.S.Text += " " + n + "=\"" + Escape(p.PS[n]) + "\""
}

// Finish completes the element.
func (p *Params) Finish() { p.S.Text += "]" }

// Escape puts a backslash before the special characters of a value.
func Escape(v string) string {
	if gv.Proof() {
		return gv.UFStr("common.EscapeBytes", v)
	}
	r := make([]byte, 0, 2*len(v))
	for i := 0; i < len(v); i++ {
		if c := v[i]; c == '"' || c == '\\' || c == ']' {
			r = append(r, '\\')
		}
		r = append(r, v[i])
	}
	return string(r)
}
