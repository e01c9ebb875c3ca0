package h

import (
	"verifspec/gv"

	"github.com/influxdata/go-syslog/v3/nontransparent"
)

func is(c byte, k byte) bool { return c == k || c == k+'a'-'A' }

func isLF(s string) bool { return len(s) == 2 && is(s[0], 'L') && is(s[1], 'F') }

func isNUL(s string) bool { return len(s) == 3 && is(s[0], 'N') && is(s[1], 'U') && is(s[2], 'L') }

// quoted gives what is between a pair of quotes.
func unquoted(s string) string {
	n := len(s)
	if n >= 2 && (s[0] == '"' && s[n-1] == '"' || s[0] == '\'' && s[n-1] == '\'') {
		return s[1 : n-1]
	}
	return s
}

// TrailerText is the contract of the text form of a trailer type (C45).
func TrailerText() {
	s := gv.Str("name")
	q := unquoted(s)
	lf, nul := isLF(q), isNUL(q)
	t, err := nontransparent.TrailerTypeFromString(s)
	gv.Assert("C45.FromString.accept", (err == nil) == (lf || nul))
	if lf {
		gv.Assert("C45.FromString.LF", t == nontransparent.LF)
	}
	if nul {
		gv.Assert("C45.FromString.NUL", t == nontransparent.NUL)
	}
	if !lf && !nul {
		gv.Assert("C45.FromString.invalid", t != nontransparent.LF && t != nontransparent.NUL)
	}
	b := nontransparent.TrailerType(gv.Int("before", -1, 2))
	u := b
	err = u.UnmarshalText([]byte(s))
	gv.Assert("C45.UnmarshalText", (err == nil) == (lf || nul) && u == t)
	w := b
	err = w.UnmarshalTOML([]byte(s))
	gv.Assert("C45.UnmarshalTOML", (err == nil) == (lf || nul) && w == t)
}

// TrailerValue is the contract of the values of a trailer type (C45).
func TrailerValue() {
	t := nontransparent.TrailerType(gv.Int("t", -1<<62, 1<<62))
	v, err := t.Value()
	b, merr := t.MarshalText()
	switch t {
	case nontransparent.LF:
		gv.Assert("C45.Value.LF", v == 10 && err == nil)
		gv.Assert("C45.String.LF", t.String() == "LF")
	case nontransparent.NUL:
		gv.Assert("C45.Value.NUL", v == 0 && err == nil)
		gv.Assert("C45.String.NUL", t.String() == "NUL")
	default:
		gv.Assert("C45.Value.invalid", err != nil && v != 10 && v != 0)
		gv.Assert("C45.MarshalText.invalid", merr != nil)
		r, rerr := nontransparent.TrailerTypeFromString(t.String())
		gv.Assert("C45.String.invalid", rerr != nil && r != nontransparent.LF && r != nontransparent.NUL)
	}
	if t == nontransparent.LF || t == nontransparent.NUL {
		gv.Assert("C45.MarshalText.valid", merr == nil && string(b) == t.String())
		u := nontransparent.TrailerType(gv.Int("before", -1, 2))
		uerr := u.UnmarshalText(b)
		gv.Assert("C45.identity", uerr == nil && u == t)
	}
}
