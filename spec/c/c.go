// Package c has the contracts of functions of the repository: what a caller may
// rely on instead of the body. Each has a harness in package h which proves
// that the body meets it.
package c

import (
	"verifspec/gv"
	"verifspec/s5424"
)

// RemoveBytes is the contract of common.RemoveBytes.
func RemoveBytes(data []byte, positions []int, offset int) []byte {
	gv.Requires("C50.RemoveBytes.requires", gv.IncIn(positions, offset, offset+len(data)))
	r := s5424.RemoveAt(string(data), positions, offset)
	gv.Assume(len(r) == len(data)-len(positions)) // C50.RemoveBytes.len
	return []byte(r)
}

// EscapeBytes is the contract of common.EscapeBytes: a function, which
// harness Escaped gives.
func EscapeBytes(v string) string { return gv.UFStr("common.EscapeBytes", v) }
