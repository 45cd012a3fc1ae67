// Package props holds the harnesses: each states one property over symbolic
// inputs (package sym) about the code of github.com/moov-io/dukpt.
package props

import (
	"dukptverif/sym"
)

// digits is an arbitrary string of n decimal digits.
func digits(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] >= '0', s[i] <= '9'))
	}
	return s
}

// action is an arbitrary action string; k selects its length class.
func action(k int) (s string, response bool) {
	switch k {
	case 0:
		s = sym.Str("action", 8)
	case 1:
		s = sym.Str("action", 7)
	case 2:
		s = ""
	default:
		s = sym.Str("action", 9)
	}
	return s, sym.Fork(s == "response")
}

// vector is an optional byte slice: k 0 is nil, otherwise k-1 bytes.
func vector(name string, k int) []byte {
	if k == 0 {
		return nil
	}
	return sym.Bytes(name, k-1)
}

func str(b []byte) string { return string(b) }

// same asserts that a byte result equals its specification.
func same(got []byte, err error, want []byte, what string) {
	sym.Assert(err == nil, what+": fails on valid input")
	if err != nil {
		return
	}
	sym.Assert(len(got) == len(want), what+": wrong length")
	if len(got) == len(want) {
		sym.Assert(sym.EqBytes(got, want), what+": wrong value")
	}
}

// refused asserts an error without a result.
func refused(got []byte, err error, what string) {
	sym.Assert(err != nil, what+": accepted")
	sym.Assert(len(got) == 0, what+": result returned")
}

// lengths are those around which code is likely to change its ways.
var lengths = []int{64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049,
	4095, 4096, 4097, 5000, 8191, 8192, 8193, 10001, 16385, 32769, 65535, 65536, 65537}

// length is n, or from number from on one of lengths.
func length(n, from int) int {
	if n < from {
		return n
	}
	return lengths[n-from]
}
