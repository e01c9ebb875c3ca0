package main

import (
	"strings"

	"verifspec/gv"
	"verifspec/h"
	"verifspec/s3164"
)

func init() {
	harnesses["Parse3164"] = harness{h.Parse3164, func(x *explorer) {
		var pool [][]byte
		r := x.rnd
		cfg := func(in ...[]byte) Case {
			c := Case{Bools: []bool{r.Intn(2) == 0, true}, Bytess: in, Loops: len(in)}
			c.Ints = append(c.Ints, []int64{0, 1, 1999, 2000, 2021, 2024, -1, 9999}[r.Intn(8)], int64(r.Intn(5)), int64(r.Intn(5)))
			return c
		}
		// parts of every length
		for n := 0; n < 300; n++ {
			y := strings.Repeat("y", n)
			for _, m := range []string{"h " + y + "[1]: m", "h " + y + ": m", "h a[" + y + "]: m", y + " a: m", "h a: " + y} {
				for k := 0; k < 4; k++ {
					c := cfg([]byte("<13>Dec  2 16:31:03 " + m))
					c.Bools[0], c.Bools[1] = k&1 == 0, k&2 == 0
					x.try(c)
				}
			}
		}
		for _, n := range []int{1024, 4097, 65536, 70001} {
			x.try(cfg([]byte("<13>Dec  2 16:31:03 h a[1]: " + strings.Repeat("y", n))))
		}
		for seed := 0; ; seed++ {
			for _, r3339 := range []bool{true, false} {
				ns := states(func() gv.Stepper { return s3164.New(r3339, 0, nil, nil) }, seed)
				n := 0
				walkBytes(ns, func(in []byte) {
					for _, best := range []bool{true, false} {
						c := cfg(in)
						c.Bools[0], c.Bools[1] = best, r3339
						x.try(c)
					}
					n++
					if n%7 == 0 && len(pool) < 5000 {
						pool = append(pool, in)
					}
				})
				for i := 0; i < 200000; i++ {
					c := cfg(x.mutate(pool, pieces3164), x.mutate(pool, pieces3164))
					c.Bools[1] = r3339
					x.try(c)
				}
			}
		}
	}}
}

var pieces3164 = []string{"<1>", "<191>", "<192>", "<13>Dec  2 16:31:03 ", "Feb 29 00:00:00 ", "Feb 30 00:00:00 ", "Jan 31 23:59:59 ", "2003-10-11T22:14:15Z ", "2003-02-31T22:14:15Z ", "2004-02-29T22:14:15+01:00 ", "host ", "- ", "app", "app:", "app: ", "app[", "app[1]: ", "[1]", "]: ", "]:", "]", ": ", " ", ":", "\x01", "\x80", "\xff", "\n", "\r", "\x7f", "a", "some text", "-", "1"}

// mutate changes an input of the pool.
func (x *explorer) mutate(pool [][]byte, pieces []string) []byte {
	r := x.rnd
	in := append([]byte{}, pool[r.Intn(len(pool))]...)
	for k := r.Intn(3); k >= 0; k-- {
		i := r.Intn(len(in) + 1)
		switch r.Intn(4) {
		case 0:
			in = cat(in[:i], []byte(pieces[r.Intn(len(pieces))]), in[i:])
		case 1:
			j := i + r.Intn(len(in)-i+1)
			in = cat(in[:i], in[j:])
		case 2:
			q := pool[r.Intn(len(pool))]
			in = cat(in[:i], q[min(i, len(q)):])
		case 3:
			in = cat(in[:i], []byte{byte(r.Intn(256))}, in[i:])
		}
	}
	return in
}
