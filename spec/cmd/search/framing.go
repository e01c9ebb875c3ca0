package main

import (
	"fmt"
	"strings"

	"verifspec/h"
)

func init() {
	harnesses["Octet"] = harness{h.Octet, genOctet}
}

// octetMessages are what a frame may hold: good and bad messages.
var octetMessages = []string{
	"<1>1 - - - - - -",
	"<1>1 - - - - - - ab",
	"<1>1 - - - - - - é\x00\n",
	"<34>1 2003-10-11T22:14:15.003Z mymachine.example.com su - ID47 [a b=\"c\"] x",
	"<1>1 - - - - - ",
	"<1>",
	"<",
	"<12 abc",
	"<1>2 - - - - - - " + strings.Repeat("x", 60),
	"<1>1 - - - - - - " + strings.Repeat("y", 8192-17),
	"<1>1 - - - - - - " + strings.Repeat("y", 8193-17),
}

func genOctet(x *explorer) {
	frame := func(m string) string { return fmt.Sprintf("%d %s", len(m), m) }
	sizes := []int64{8192, 0, 1, 16, 17, 20, 100, -1, 9000}
	run := func(in string) {
		for _, best := range []bool{false, true} {
			for _, chunk := range []int64{0, 1, 2, 7} {
				for _, fails := range []bool{false, true} {
					if fails && chunk != 1 {
						continue
					}
					for i, max := range sizes {
						c := Case{Bytess: [][]byte{[]byte(in)}, Ints: []int64{chunk}, Bools: []bool{best, i > 0, fails}}
						if i > 0 {
							if chunk > 1 {
								break
							}
							c.Ints = []int64{max, chunk}
						}
						x.try(c)
					}
				}
			}
		}
	}
	junk := []string{"", " ", "<", "a", "0", "1", "12 ", "5 <", "5 <1>", "17 <1>1 - -", "3  <1>", "3<1>", "3 a", "3 4", "3 45 ", "30 45", "10 \n", "99999 <1>", "18446744073709551616 <", "99999999999999999999999 <1>", "01 <", "1 <", "1 <2 <1>", "-1 <", "1\x00", "16 é<", "\xff", "12", "9000 <1>", "8193 <", "8192 <"}
	for _, j := range junk {
		run(j)
	}
	// a stream of frames, and then something else; used again after another stream
	for n := 0; n < 400; n++ {
		var sb strings.Builder
		k := x.rnd.Intn(4)
		for i := 0; i < k; i++ {
			sb.WriteString(frame(octetMessages[x.rnd.Intn(len(octetMessages)-2)]))
		}
		if x.rnd.Intn(2) == 0 {
			sb.WriteString(junk[x.rnd.Intn(len(junk))])
		}
		in := sb.String()
		if x.rnd.Intn(3) == 0 && len(in) > 0 {
			in = in[:x.rnd.Intn(len(in))]
		}
		run(in)
		x.try(Case{Bytess: [][]byte{[]byte(in), []byte(junk[x.rnd.Intn(len(junk))])}, Ints: []int64{1, 1}, Bools: []bool{n%2 == 0, false, false, false}, Loops: 1})
	}
	big := frame("<1>1 - - - - - - " + strings.Repeat("z", 70000))
	for _, max := range []int64{69999, 70016, 70017, 70018, 1 << 20, 1 << 33} {
		for _, in := range []string{big, big + big, big[:70010], big + "x"} {
			x.try(Case{Bytess: [][]byte{[]byte(in)}, Ints: []int64{max, 0}, Bools: []bool{false, true, false}})
		}
	}
	for _, m := range octetMessages {
		run(frame(m))
		run(frame(m) + "x")
	}
	for {
		var sb strings.Builder
		for i := x.rnd.Intn(5); i >= 0; i-- {
			sb.WriteString(frame(octetMessages[x.rnd.Intn(len(octetMessages)-2)]))
		}
		b := []byte(sb.String())
		if x.rnd.Intn(4) > 0 {
			b = x.mutate([][]byte{b}, junk)
		}
		if len(b) > 3000 {
			continue
		}
		run(string(b))
	}
}
