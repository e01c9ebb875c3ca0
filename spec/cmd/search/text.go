package main

import (
	"verifspec/gv"
	"verifspec/h"
	"verifspec/s5424"
	"verifspec/sbuild"
)

func init() {
	text := func(run func()) harness {
		return harness{run, func(x *explorer) {
			for {
				var c Case
				x.message(&c)
				x.try(c)
			}
		}}
	}
	harnesses["Text5424"] = text(h.Text5424)
	harnesses["Text5424Data"] = text(h.Text5424Data)
	harnesses["Built"] = harness{h.Built, func(x *explorer) {
		stamps := []string{"", "-", "2003-10-11T22:14:15Z", "2003-10-11T22:14:15.003Z", "2004-02-29T22:14:15.123456+01:00", "1985-04-12T19:20:50.52-04:00", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999-23:59", "2003-10-11T22:14:15.000003+00:00", "2003-10-11T22:14:15.100000-00:00"}
		names := []string{"", "-", "--", "-a", "h", "host.example", "a]b", "\"", "~", "!", "<1>1", "="}
		msgs := []string{"", " ", "m", " m", "  ", "é", "\xef\xbb\xbf", "\xef\xbb\xbfé", "]", "\n", "- [a]"}
		r := x.rnd
		for seed := 0; ; seed++ {
			// every way to write every timestamp and value
			walkBytes(states(func() gv.Stepper { return &sbuild.Stamp{} }, seed), func(in []byte) {
				x.try(Case{Ints: []int64{int64(r.Intn(192)), int64(1 + r.Intn(999))}, Strs: []string{string(in), "h", "a", "p", "m", "id", "", "", "", "", "", "", "", "", "", ""}})
			})
			walkBytes(states(func() gv.Stepper { return sbuild.NewValue() }, seed), func(in []byte) {
				x.try(Case{Ints: []int64{int64(r.Intn(192)), int64(1 + r.Intn(999))}, Strs: []string{"", "", "", "", "", "a", "a", "k", string(in), "b", "k", "v", "a", "a", string(in), ""}})
			})
			for p := int64(0); p < 192; p++ {
				for v := int64(1); v < 1000; v += 1 + r.Int63n(40) {
					pk := func(l []string) string { return l[r.Intn(len(l))] }
					c := Case{Ints: []int64{p, v}, Strs: []string{pk(stamps), pk(names), pk(names), pk(names), pk(names), pk(append(ids, names...))}}
					for i := 0; i < 3; i++ {
						c.Strs = append(c.Strs, pk(append(ids, names...)), pk(append(pnames, names...)), pk(pvalues)+pk(pvalues))
					}
					c.Strs = append(c.Strs, pk(msgs)+pk(msgs))
					x.try(c)
				}
			}
		}
	}}
	harnesses["Reparsed"] = harness{h.Reparsed, func(x *explorer) {
		for seed := 0; ; seed++ {
			for _, c := range []bool{true, false} {
				walkBytes(states(func() gv.Stepper { return s5424.New(c) }, seed), func(in []byte) {
					x.try(Case{Bools: []bool{c}, Bytess: [][]byte{in}})
				})
			}
		}
	}}
}
