package main

import (
	"strings"

	"verifspec/gv"
	"verifspec/h"
	"verifspec/s5424"
)

func init() {
	harnesses["Parse5424"] = harness{h.Parse5424, func(x *explorer) {
		var pool [][]byte
		// parts of every length
		for n := 0; n < 300; n++ {
			y := strings.Repeat("y", n)
			for _, m := range []string{y + " - - - - m", "- " + y + " - - - m", "- - " + y + " - - m", "- - - " + y + " - m", "- - - - [" + y + "]", "- - - - [a " + y + "=\"\"] m", "- - - - [a b=\"" + y + "\"] m", "- - - - - " + y} {
				for k := 0; k < 4; k++ {
					x.try(Case{Bools: []bool{k&1 == 0, k&2 == 0}, Bytess: [][]byte{[]byte("<1>1 - " + m)}, Loops: 1})
				}
			}
		}
		for _, n := range []int{1024, 4097, 65536, 70001} {
			y := strings.Repeat("y", n)
			x.try(Case{Bools: []bool{false, false}, Bytess: [][]byte{[]byte("<1>1 - - - - - - " + y)}, Loops: 1})
			x.try(Case{Bools: []bool{false, true}, Bytess: [][]byte{[]byte("<1>1 - - - - - [a b=\"" + y + "\"] m")}, Loops: 1})
		}
		for seed := 0; ; seed++ {
			for _, compliant := range []bool{true, false} {
				ns := states(func() gv.Stepper { return s5424.New(compliant) }, seed)
				n := 0
				walkBytes(ns, func(in []byte) {
					for _, best := range []bool{true, false} {
						x.try(Case{Bools: []bool{best, compliant}, Bytess: [][]byte{in}, Loops: 1})
					}
					n++
					if n%7 == 0 && len(pool) < 5000 {
						pool = append(pool, in)
					}
				})
				for i := 0; i < 200000; i++ {
					mutate5424(x, pool, compliant)
				}
			}
		}
	}}
}

var pieces5424 = []string{"<1>1 ", "<191>999 ", "- ", "-", " ", "[", "]", "[a]", "[a b=\"c\"]", "b=\"\\\"\" ", " b=\"x\"", "\\", "\"", "=", "2003-10-11T22:14:15.003Z ", "2003-02-31T22:14:15Z ", "\xef\xbb\xbf", "\xef\xbb", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x80", "\n", "a", "abc", "- - - - - ", "<34>1 - - - - - [a b=\"1\" b=\"2\"][a]", "1", "9"}

func mutate5424(x *explorer, pool [][]byte, compliant bool) {
	r := x.rnd
	mk := func() []byte {
		p := pool[r.Intn(len(pool))]
		in := append([]byte{}, p...)
		for k := r.Intn(3); k >= 0; k-- {
			i := r.Intn(len(in) + 1)
			switch r.Intn(4) {
			case 0:
				in = cat(in[:i], []byte(pieces5424[r.Intn(len(pieces5424))]), in[i:])
			case 1:
				j := i + r.Intn(len(in)-i+1)
				in = cat(in[:i], in[j:])
			case 2:
				q := pool[r.Intn(len(pool))]
				in = cat(in[:i], q[min(i, len(q)):])
			case 3:
				in = cat(in[:i], []byte{byte(r.Intn(256))}, in[i:])
			}
		}
		return in
	}
	x.try(Case{Bools: []bool{r.Intn(2) == 0, compliant}, Bytess: [][]byte{mk(), mk()}, Loops: 2})
}
