package main

import (
	"strings"

	"verifspec/h"
)

func init() {
	harnesses["Removed"] = harness{h.Removed, func(x *explorer) {
		// every choice of positions in short data
		for n := 0; n <= 7; n++ {
			data := []byte("abcdefg"[:n])
			for m := 0; m < 1<<n; m++ {
				for _, off := range []int64{0, 1, 5, -3} {
					var pos []int64
					for i := 0; i < n; i++ {
						if m>>i&1 == 1 {
							pos = append(pos, int64(i)+off)
						}
					}
					ints := append([]int64{int64(len(pos))}, pos...)
					x.try(Case{Bytess: [][]byte{append([]byte{}, data...)}, Ints: append(ints, off)})
				}
			}
		}
		for _, n := range []int{31, 32, 33, 64, 255, 256, 257, 1000} {
			data := make([]byte, n)
			for i := range data {
				data[i] = byte(i)
			}
			for k := 1; k < n; k += 1 + n/16 {
				var pos []int64
				for i := 0; i < n; i += k {
					pos = append(pos, int64(i)+7)
				}
				ints := append([]int64{int64(len(pos))}, pos...)
				x.try(Case{Bytess: [][]byte{append([]byte{}, data...)}, Ints: append(ints, 7)})
			}
		}
	}}
	harnesses["Escaped"] = harness{h.Escaped, func(x *explorer) {
		for b := 0; b < 256; b++ {
			for c := 0; c < 256; c++ {
				x.try(Case{Strs: []string{string([]byte{byte(b), byte(c)})}})
			}
			x.try(Case{Strs: []string{string([]byte{byte(b)})}})
		}
		al := []string{"", "a", `\`, "]", `"`, "é", "\xff", "€", `\\`}
		var rec func(s string, d int)
		rec = func(s string, d int) {
			x.try(Case{Strs: []string{s}})
			if d < 4 {
				for _, c := range al[1:] {
					rec(s+c, d+1)
				}
			}
		}
		rec("", 0)
		x.try(Case{Strs: []string{strings.Repeat(`a\"`, 500)}})
	}}
	harnesses["Decimal"] = harness{h.Decimal, func(x *explorer) {
		for n := 0; n <= 17; n++ {
			for _, p := range []string{"0", "1", "9", "10", "01", "123456789", "90", "09"} {
				x.try(Case{Bytess: [][]byte{[]byte(strings.Repeat(p, 17)[:n])}})
			}
			for i := 0; i < n; i++ {
				for d := '0'; d <= '9'; d++ {
					v := []byte(strings.Repeat("0", n))
					v[i] = byte(d)
					x.try(Case{Bytess: [][]byte{v}})
				}
			}
		}
	}}
}
