package main

import "verifspec/h"

func init() {
	opts := func(name string, run func(), n int64, extra func(k int64) []int64) {
		harnesses[name] = harness{run, func(x *explorer) {
			var rec func(d int, c []int64)
			rec = func(d int, c []int64) {
				if d == 3 {
					x.try(Case{Ints: append([]int64{}, c...)})
					return
				}
				for k := int64(0); k <= n; k++ {
					e := extra(k)
					if e == nil {
						rec(d+1, append(c[:len(c):len(c)], k))
						continue
					}
					for _, v := range e {
						rec(d+1, append(c[:len(c):len(c)], k, v))
					}
				}
			}
			rec(0, nil)
		}}
	}
	none := func(int64) []int64 { return nil }
	opts("Options5424", h.Options5424, 2, none)
	opts("Options3164", h.Options3164, 5, func(k int64) []int64 {
		switch k {
		case 2:
			return []int64{0, 1999, 2024, -7}
		case 3, 4:
			return []int64{0, 1, 2}
		}
		return nil
	})
	limits := []int64{0, 1, 5, 6, 7, 100, 8191, 8192, 8193, 9998, 9999, 10000, 1 << 20, -1, -6}
	opts("OptionsOctet", h.OptionsOctet, 2, func(k int64) []int64 {
		if k == 1 {
			return limits
		}
		return nil
	})
	opts("OptionsTrailer", h.OptionsTrailer, 6, func(k int64) []int64 {
		switch k {
		case 3:
			return []int64{2, 3, 10, 255, 256, 257}
		case 4:
			return []int64{-1, -2, -255, -256}
		case 5:
			return limits[:4]
		}
		return nil
	})
	steps := func(name string, run func(), n int, lists ...[]int64) {
		harnesses[name] = harness{run, func(x *explorer) {
			var rec func(d int, c []int64)
			rec = func(d int, c []int64) {
				if d == len(lists) {
					for k := 0; k < 1<<n; k++ {
						var b []bool
						for i := 0; i < n; i++ {
							b = append(b, k>>i&1 == 1)
						}
						x.try(Case{Bools: b, Ints: append([]int64{}, c...)})
					}
					return
				}
				for _, v := range lists[d] {
					rec(d+1, append(c[:len(c):len(c)], v))
				}
			}
			rec(0, nil)
		}}
	}
	few := upto(0, 5)
	steps("OptionsStep5424", h.OptionsStep5424, 2, few)
	steps("OptionsStep3164", h.OptionsStep3164, 5, few, few, few, few, few)
	steps("OptionsStepOctet", h.OptionsStepOctet, 2, append(upto(0, 2), 8192, 9999), append(upto(0, 2), 8192, 9999), few)
	steps("OptionsStepTrailer", h.OptionsStepTrailer, 2, upto(0, 6), append(upto(-1, 6), -256, 256))
	harnesses["Parser5424"] = harness{h.Parser5424, func(x *explorer) {
		ms := [][]byte{[]byte("<1>1 - - - - - - a"), []byte("<1>1 x"), []byte("x"), []byte(""), []byte("<34>1 2003-10-11T22:14:15Z h a - - [a b=\"c\"]"), []byte("<1>1 - - - - - - \xef\xbb\xbf\xff"), []byte("<1>1 - - - - - [a b=")}
		for _, a := range ms {
			for _, b := range ms {
				for k := 0; k < 4; k++ {
					x.try(Case{Bytess: [][]byte{a, b}, Bools: []bool{k&1 > 0, k&2 > 0}})
				}
			}
		}
	}}
	harnesses["Parser3164"] = harness{h.Parser3164, func(x *explorer) {
		ms := [][]byte{[]byte("<1>Mar  2 15:04:05 h a: m"), []byte("<1>x"), []byte("x"), []byte(""), []byte("<34>2003-10-11T22:14:15Z h a[1]: m"), []byte("<1>Mar  2 15:04:05 "), []byte("<192>")}
		for _, a := range ms {
			for _, b := range ms {
				for k := 0; k < 4; k++ {
					for l := int64(0); l < 9; l++ {
						x.try(Case{Bytess: [][]byte{a, b}, Bools: []bool{k&1 > 0, k&2 > 0}, Ints: []int64{2000 + l, l / 3, l % 3}})
					}
				}
			}
		}
	}}
}
