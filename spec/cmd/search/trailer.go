package main

import (
	"strings"

	"verifspec/h"
)

func init() {
	harnesses["TrailerStream"] = harness{h.TrailerStream, genTrailer}
}

func genTrailer(x *explorer) {
	pieces := append([]string{"\n", "\x00", "<", "", "\n\n", "\x00\x00", "<\n", "<\x00", "x\n", "x\x00", "\n<", "\r\n", "<1>1 - - - - - - a\nb\n", "<1>1 - - - - - - a\x00b\x00", ">", " <", "é", "\xff"}, octetMessages[:9]...)
	run := func(in string) {
		for i := 0; i < 8; i++ {
			for _, chunk := range []int64{0, 1, 3} {
				if i&4 != 0 && chunk != 1 {
					continue
				}
				x.try(Case{Bytess: [][]byte{[]byte(in)}, Ints: []int64{chunk}, Bools: []bool{i&1 != 0, i&2 != 0, i&4 != 0}})
			}
		}
	}
	for _, p := range pieces {
		run(p)
		for _, q := range pieces {
			run(p + q)
		}
	}
	stream := func(d string) string {
		var sb strings.Builder
		for i := x.rnd.Intn(6); i >= 0; i-- {
			sb.WriteString(pieces[x.rnd.Intn(len(pieces))])
			if x.rnd.Intn(4) > 0 {
				sb.WriteString(d)
			}
		}
		return sb.String()
	}
	// lines beyond the buffer of the reader
	long := "<1>1 - - - - - - " + strings.Repeat("y", 5000)
	run(long)
	run(long + "\n" + long + "\x00")
	run("<1>1 - - - - - -\n" + long + "\n<1>")
	for {
		d := []string{"\n", "\x00"}[x.rnd.Intn(2)]
		in := stream(d)
		run(in)
		x.try(Case{Bytess: [][]byte{[]byte(in), []byte(stream(d))}, Ints: []int64{1, 1}, Bools: []bool{d != "\n", x.rnd.Intn(2) == 0, x.rnd.Intn(2) == 0, false}, Loops: 1})
	}
}
