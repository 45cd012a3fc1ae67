package props

import (
	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg"
)

// split restricts the counter's successor c+1 to one of the cases that
// together are exhaustive, which keeps each solver query small: k 99 is a
// value of at most max set bits, otherwise there are more and k is the
// position of the max-th highest one.
func split(c1 uint32, w, max, k int) {
	if k == 99 {
		sym.Assume(spec.AtMost(c1, w, max))
		return
	}
	sym.Assume(c1>>uint(k)&1 == 1)
	sym.Assume(spec.AtMost(c1>>uint(k), w-k, max))
	sym.Assume(!spec.AtMost(c1>>uint(k), w-k, max-1))
	sym.Assume(c1<<uint(32-k) != 0)
}

// successor is the smallest value from c1 on with few enough set bits: c1
// itself, or else its leading part with the max-th highest bit rounded up.
// The harnesses check this claim as well.
func successor(c1 uint32, k int) uint32 {
	if k == 99 {
		return c1
	}
	return (c1>>uint(k) + 1) << uint(k)
}

// K01: parameter is 100*length of the serial number + case.
//
//sym:prop K01 quick=499,401-411,1099,1001-1011 thorough=499,401-411,599,501-511,699,601-611,799,701-711,899,801-811,999,901-911,1099,1001-1011,1299,1201-1211 secs=240 reach=next,exhausted
func K01NextTdes() {
	n := sym.Param() / 100
	ksn := sym.Bytes("ksn", n)
	c := tdesCounter(ksn)
	split(c+1, 22, 10, sym.Param()%100)
	// any counter at all: one that is skipped must not be usable
	x := sym.U32("x")
	sym.Assume(x <= 0x1fffff)
	usable := spec.AtMost(x, 21, 10)
	next, err := pkg.GenerateNextDesKsn(spec.Clone(ksn))
	if err != nil {
		sym.Assert(sym.Implies(x > c, !usable), "exhausted although a counter is left")
		sym.Assert(len(next) == 0, "serial number returned together with an error")
		sym.Reach("exhausted")
		return
	}
	sym.Assert(len(next) == n, "length changed")
	if len(next) != n {
		return
	}
	d := tdesCounter(next)
	want := successor(c+1, sym.Param()%100)
	sym.Assert(d == want, "not the next usable counter")
	sym.Assert(sym.And(want > c, spec.AtMost(want, 21, 10), sym.Implies(sym.And(c < x, x < want), !usable)), "specification: next usable counter")
	sym.Assert(sym.EqBytes(next[:n-3], ksn[:n-3]), "bytes outside the counter changed")
	sym.Assert(next[n-3]&0xe0 == ksn[n-3]&0xe0, "bits outside the counter changed")
	sym.Assert(pkg.GetDesTcFromKsn(next) == d, "counter read back differs")
	sym.Out("next", next)
	sym.Reach("next")
}

// K02: parameter is the case.
//
//sym:prop K02 quick=99,1-16 secs=300 reach=next,exhausted
func K02NextAes() {
	ksn := sym.Bytes("ksn", 12)
	c := be(ksn[8:])
	split(c+1, 32, 16, sym.Param())
	x := sym.U32("x")
	usable := spec.AtMost(x, 32, 16)
	next, err := pkg.GenerateNextAesKsn(spec.Clone(ksn))
	if err != nil {
		sym.Assert(sym.Implies(x > c, !usable), "exhausted although a counter is left")
		sym.Assert(len(next) == 0, "serial number returned together with an error")
		sym.Reach("exhausted")
		return
	}
	sym.Assert(len(next) == 12, "length changed")
	if len(next) != 12 {
		return
	}
	d := be(next[8:])
	want := successor(c+1, sym.Param())
	sym.Assert(d == want, "not the next usable counter")
	sym.Assert(sym.And(want > c, spec.AtMost(want, 32, 16), sym.Implies(sym.And(c < x, x < want), !usable)), "specification: next usable counter")
	sym.Assert(sym.EqBytes(next[:8], ksn[:8]), "initial key ID changed")
	sym.Assert(pkg.IsValidAesKsn(next), "next serial number is not valid")
	sym.Assert(pkg.GetAesTcFromKsn(next) == d, "counter read back differs")
	sym.Out("next", next)
	sym.Reach("next")
}

// tdesCounter is the low 21 bits.
func tdesCounter(ksn []byte) uint32 { return be(ksn[len(ksn)-4:]) & 0x1fffff }

func be(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// K03: parameter is the serial number's length.
//
//sym:prop K03 quick=5-16,20,24 reach=valid,invalid
func K03ValidAes() {
	n := sym.Param()
	ksn := sym.Bytes("ksn", n)
	c := be(ksn[n-4:])
	ok := pkg.IsValidAesKsn(ksn)
	sym.Assert(ok == sym.And(c != 0, spec.AtMost(c, 32, 16)), "wrong validity")
	sym.Assert(pkg.GetAesTcFromKsn(ksn) == c, "wrong AES counter")
	sym.Out("valid", ok)
	if ok {
		sym.Reach("valid")
	} else {
		sym.Reach("invalid")
	}
}

// K03: parameter is the serial number's length.
//
//sym:prop K03 quick=4-24 reach=done
func K03TdesCounter() {
	n := sym.Param()
	ksn := sym.Bytes("ksn", n)
	c := tdesCounter(ksn)
	sym.Assert(pkg.GetDesTcFromKsn(ksn) == c, "wrong TDES counter")
	sym.Out("tc", pkg.GetDesTcFromKsn(ksn))
	sym.Reach("done")
}
