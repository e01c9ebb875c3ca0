package main

import "verifspec/h"

// ints tries every combination of some values of the integers of a harness.
func ints(x *explorer, vals ...[]int64) {
	var rec func(i int, c []int64)
	rec = func(i int, c []int64) {
		if i == len(vals) {
			x.try(Case{Ints: append([]int64{}, c...)})
			return
		}
		for _, v := range vals[i] {
			rec(i+1, append(c, v))
		}
	}
	rec(0, nil)
}

func upto(lo, hi int64) (r []int64) {
	for ; lo <= hi; lo++ {
		r = append(r, lo)
	}
	return
}

func init() {
	harnesses["BasePriority"] = harness{h.BasePriority, func(x *explorer) {
		ints(x, upto(0, 255), []int64{0, 1, 2, 10, 255, 256, 257, 500, 998, 999, 1000, 1001, 1024, 9999, 65535})
		ints(x, []int64{0, 1, 191, 192, 255}, upto(0, 65535))
	}}
	harnesses["FacilityText"] = harness{h.FacilityText, func(x *explorer) { ints(x, upto(0, 23)) }}
	harnesses["SeverityText"] = harness{h.SeverityText, func(x *explorer) { ints(x, upto(0, 7)) }}
	harnesses["Ranges"] = harness{h.Ranges, func(x *explorer) {
		w := []int64{-1 << 62, -1000, -2, -1, 0, 1, 2, 1000, 1 << 62}
		ints(x, w, w, w, []int64{0}, []int64{1})
		ints(x, w[:1], w[:1], w[:1], upto(0, 255), []int64{1})
		ints(x, w[:1], w[:1], w[:1], []int64{0}, upto(0, 65535))
	}}
	harnesses["TrailerText"] = harness{h.TrailerText, func(x *explorer) {
		al := []string{"", "L", "F", "N", "U", "l", "f", "n", "u", "\"", "'", " ", "LF", "NUL", "nul", "\x00", "\n", "\u0131", "\u017f", "\u00b5", "A"}
		for _, b := range upto(-1, 2) {
			var rec func(s string, d int)
			rec = func(s string, d int) {
				x.try(Case{Strs: []string{s}, Ints: []int64{b}})
				if d < 5 {
					for _, c := range al[1:] {
						if d < 3 || len(s) > 2 && (c == "\"" || c == "'" || c == "L" || c == "l") {
							rec(s+c, d+1)
						}
					}
				}
			}
			rec("", 0)
		}
	}}
	harnesses["TrailerValue"] = harness{h.TrailerValue, func(x *explorer) {
		ints(x, []int64{-1 << 62, -257, -256, -3, -2, -1, 0, 1, 2, 3, 10, 255, 256, 257, 1 << 32, 1 << 62}, upto(-1, 2))
	}}
}
