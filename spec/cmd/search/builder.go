package main

import (
	"strings"

	"verifspec/gv"
	"verifspec/h"
	"verifspec/sbuild"
)

// message gives the strings and integers of a message in some state.
func (x *explorer) message(c *Case) {
	r := x.rnd
	c.Ints = append(c.Ints, int64(r.Intn(193)-1), int64(r.Intn(25)-1), int64(r.Intn(9)-1), []int64{0, 1, 2, 999, 1000}[r.Intn(5)], []int64{-1, 0, 5, 1<<40 - 1, 1696 << 20, 1 << 37}[r.Intn(6)])
	for i := 0; i < 5; i++ {
		c.Strs = append(c.Strs, []string{"<nil>", "<nil>", "x", "host", "-"}[r.Intn(5)])
	}
	c.Strs = append(c.Strs, x.sd())
}

var ids = []string{"a", "b", "id", "id@1", "B", "ab", "zz"}
var pnames = []string{"a", "k", "name", "K", "kk", "b"}
var pvalues = []string{"", "1", "v", "a b", "é", "\\", "\"", "]", "[x", "\\]", "a\\\"b", "\\\\", "]]", "\n"}

// sd is some structured data.
func (x *explorer) sd() string {
	r := x.rnd
	if r.Intn(4) == 0 {
		return "<nil>"
	}
	var l []string
	for i := r.Intn(4); i > 0; i-- {
		l = append(l, "["+ids[r.Intn(len(ids))])
		for j := r.Intn(3); j > 0; j-- {
			l = append(l, "="+pnames[r.Intn(len(pnames))], "\""+pvalues[r.Intn(len(pvalues))])
		}
	}
	return strings.Join(l, "\x00")
}

// setter explores a setter of one value.
func setter(run func(), mk func() gv.Stepper) harness {
	return harness{run, func(x *explorer) {
		var pool [][]byte
		one := func(in []byte) {
			var c Case
			x.message(&c)
			c.Strs = append(c.Strs, string(in))
			x.try(c)
			if len(pool) < 5000 {
				pool = append(pool, in)
			}
		}
		for seed := 0; ; seed++ {
			one([]byte("-"))
			one([]byte("--"))
			for _, id := range ids {
				one([]byte(id))
			}
			walkBytes(states(mk, seed), one)
			for i := 0; i < 50000; i++ {
				one(x.mutate(pool, piecesBuild))
			}
		}
	}}
}

var piecesBuild = []string{"-", "a", " ", "]", "\\", "\"", "\\]", "\\\"", "\\\\", "=", "2003-10-11T22:14:15Z", "2003-02-31T22:14:15.003Z", "2004-02-29T22:14:15.123456+01:00", "+02:00", ".1", "\xff", "é", "\xf0\x90\x80\x80", "\x00"}

// name is a value which is grammatical for the names, more often than not.
func (x *explorer) pick(list []string, max int) string {
	r := x.rnd
	switch r.Intn(12) {
	case 0:
		return strings.Repeat("n", max+r.Intn(3)-1)
	case 1:
		return list[r.Intn(len(list))] + string([]byte{byte(r.Intn(256))})
	case 2:
		return ""
	}
	return list[r.Intn(len(list))]
}

func init() {
	nm := func(max int, sd bool) func() gv.Stepper {
		return func() gv.Stepper { return &sbuild.Name{Max: max, SD: sd} }
	}
	harnesses["SetTimestamp"] = setter(h.SetTimestamp, func() gv.Stepper { return &sbuild.Stamp{} })
	harnesses["SetHostname"] = setter(h.SetHostname, nm(255, false))
	harnesses["SetAppname"] = setter(h.SetAppname, nm(48, false))
	harnesses["SetProcID"] = setter(h.SetProcID, nm(128, false))
	harnesses["SetMsgID"] = setter(h.SetMsgID, nm(32, false))
	harnesses["SetElementID"] = setter(h.SetElementID, nm(32, true))
	harnesses["SetMessage"] = setter(h.SetMessage, func() gv.Stepper { return sbuild.NewValue() })
	harnesses["SetPriority"] = harness{h.SetPriority, func(x *explorer) {
		for {
			for p := int64(0); p < 256; p++ {
				for _, v := range []int64{0, 1, 2, 255, 256, 257, 500, 998, 999, 1000, 1024, 9999, 65535} {
					var c Case
					x.message(&c)
					c.Ints = append(c.Ints, p, v)
					x.try(c)
				}
			}
			for v := int64(0); v < 65536; v++ {
				var c Case
				x.message(&c)
				c.Ints = append(c.Ints, 1, v)
				x.try(c)
			}
		}
	}}
	harnesses["SetParameter"] = harness{h.SetParameter, func(x *explorer) {
		var pool []string
		for seed := 0; ; seed++ {
			walkBytes(states(func() gv.Stepper { return sbuild.NewValue() }, seed), func(in []byte) {
				var c Case
				x.message(&c)
				c.Strs = append(c.Strs, "newid", "newname", string(in))
				x.try(c)
				if len(pool) < 3000 {
					pool = append(pool, string(in))
				}
			})
			for _, l := range []string{"id", "name"} {
				walkBytes(states(nm(32, true), seed), func(in []byte) {
					var c Case
					x.message(&c)
					c.Strs = append(c.Strs, ids[x.rnd.Intn(len(ids))], pnames[x.rnd.Intn(len(pnames))], pvalues[x.rnd.Intn(len(pvalues))])
					if l == "id" {
						c.Strs[len(c.Strs)-3] = string(in)
					} else {
						c.Strs[len(c.Strs)-2] = string(in)
					}
					x.try(c)
				})
			}
			for i := 0; i < 100000; i++ {
				var c Case
				x.message(&c)
				v := pvalues[x.rnd.Intn(len(pvalues))]
				for x.rnd.Intn(2) == 0 {
					if x.rnd.Intn(2) == 0 {
						v += pool[x.rnd.Intn(len(pool))]
					} else {
						v += piecesBuild[x.rnd.Intn(len(piecesBuild))]
					}
				}
				c.Strs = append(c.Strs, x.pick(ids, 32), x.pick(pnames, 32), v)
				x.try(c)
			}
		}
	}}
}
