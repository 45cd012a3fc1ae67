// Package spec is an independent statement of the standards: ANSI X9.24-1
// (TDES DUKPT), X9.24-3 (AES DUKPT), ISO 9797-1 algorithm 3, SP 800-38B and
// ISO 9564. It shares no code with the implementation; only the primitives
// (DES, AES, SHA-256) are common.
package spec

import (
	"crypto/des"

	"dukptverif/sym"
)

func DES(k, b []byte) []byte {
	c, err := des.NewCipher(k)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 8)
	c.Encrypt(o, b)
	return o
}

func DESinv(k, b []byte) []byte {
	c, err := des.NewCipher(k)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 8)
	c.Decrypt(o, b)
	return o
}

// TDES is two-key triple DES: E(k1) D(k2) E(k1).
func TDES(k, b []byte) []byte {
	return DES(k[:8], DESinv(k[8:16], DES(k[:8], b)))
}

func TDESinv(k, b []byte) []byte {
	return DESinv(k[:8], DES(k[8:16], DESinv(k[:8], b)))
}

func Xor(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range o {
		o[i] = a[i] ^ b[i]
	}
	return o
}

func Cat(parts ...[]byte) []byte {
	var o []byte
	for _, p := range parts {
		o = append(o, p...)
	}
	return o
}

func Clone(b []byte) []byte {
	o := make([]byte, len(b))
	copy(o, b)
	return o
}

// KSN10 is the serial number as a 10-byte register.
func KSN10(ksn []byte) []byte {
	o := []byte{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}
	copy(o[10-len(ksn):], ksn)
	return o
}

var c0mask = []byte{0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0, 0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0}

// TdesInitialKey: X9.24-1 A.6.
func TdesInitialKey(bdk, ksn []byte) []byte {
	reg := KSN10(ksn)
	reg[7] &= 0xE0
	return Cat(TDES(bdk, reg[:8]), TDES(Xor(bdk, c0mask), reg[:8]))
}

// TdesCounter is the 21-bit transaction counter of a 10-byte register.
func TdesCounter(reg []byte) uint32 {
	return uint32(reg[7]&0x1F)<<16 | uint32(reg[8])<<8 | uint32(reg[9])
}

// NRKG is the non-reversible key generation process of X9.24-1.
func NRKG(key, reg8 []byte) []byte {
	half := func(k []byte) []byte {
		l, r := k[:8], k[8:]
		return Xor(DES(l, Xor(reg8, r)), r)
	}
	right := half(key)
	left := half(Xor(key, c0mask))
	return Cat(left, right)
}

// TdesTransactionKey: X9.24-1, one NRKG step per set counter bit.
func TdesTransactionKey(ik, ksn []byte) []byte {
	reg := KSN10(ksn)
	tc := TdesCounter(reg)
	base := Clone(reg)
	base[7] &= 0xE0
	base[8], base[9] = 0, 0
	key := Clone(ik)
	var sofar uint32
	for bit := 20; bit >= 0; bit-- {
		b := uint32(1) << uint(bit)
		if tc&b == 0 {
			continue
		}
		sofar |= b
		r := Clone(base)
		r[7] |= byte(sofar >> 16)
		r[8] = byte(sofar >> 8)
		r[9] = byte(sofar)
		key = NRKG(key, r[2:])
	}
	return key
}

// Variant inverts bytes n and n+8 of a double-length key.
func Variant(k []byte, n int) []byte {
	o := Clone(k)
	o[n] = ^o[n]
	o[n+8] = ^o[n+8]
	return o
}

func ZeroPad(b []byte, n int) []byte {
	return append(Clone(b), make([]byte, (n-len(b)%n)%n)...)
}

// RetailMAC is ISO 9797-1 algorithm 3 with zero padding.
func RetailMAC(k, msg []byte) []byte {
	h := make([]byte, 8)
	m := ZeroPad(msg, 8)
	for i := 0; i < len(m); i += 8 {
		h = DES(k[:8], Xor(h, m[i:i+8]))
	}
	return DES(k[:8], DESinv(k[8:], h))
}

func TdesMAC(key, msg []byte, response bool) []byte {
	n := 6
	if response {
		n = 4
	}
	return RetailMAC(Variant(key, n), msg)
}

func TdesDataKey(key []byte, response bool) []byte {
	n := 5
	if response {
		n = 3
	}
	v := Variant(key, n)
	return Cat(TDES(v, v[:8]), TDES(v, v[8:]))
}

// IV fits an initialisation vector to n bytes.
func IV(iv []byte, n int) []byte {
	o := make([]byte, n)
	copy(o, iv)
	return o
}

func CBC(enc func(b []byte) []byte, iv, msg []byte) []byte {
	var out []byte
	n := len(iv)
	m := ZeroPad(msg, n)
	for i := 0; i < len(m); i += n {
		iv = enc(Xor(iv, m[i:i+n]))
		out = append(out, iv...)
	}
	return out
}

func CBCinv(dec func(b []byte) []byte, iv, msg []byte) []byte {
	var out []byte
	n := len(iv)
	m := ZeroPad(msg, n)
	for i := 0; i < len(m); i += n {
		out = append(out, Xor(iv, dec(m[i:i+n]))...)
		iv = m[i : i+n]
	}
	return out
}

func TdesEncryptData(key, iv, msg []byte, response bool) []byte {
	k := TdesDataKey(key, response)
	return CBC(func(b []byte) []byte { return TDES(k, b) }, IV(iv, 8), msg)
}

func TdesDecryptData(key, iv, ct []byte, response bool) []byte {
	k := TdesDataKey(key, response)
	return CBCinv(func(b []byte) []byte { return TDESinv(k, b) }, IV(iv, 8), ct)
}

func TdesPinKey(key []byte) []byte { return Variant(key, 7) }

// AtMost reports that at most n of the low w bits of v are set.
func AtMost(v uint32, w, n int) bool {
	// more[j]: at least j of the bits seen so far are set
	more := make([]bool, n+2)
	more[0] = true
	for i := 0; i < w; i++ {
		bit := v>>uint(i)&1 == 1
		for j := n + 1; j > 0; j-- {
			more[j] = sym.Or(more[j], sym.And(more[j-1], bit))
		}
	}
	return !more[n+1]
}

// HexLower and HexUpper render bytes.
func Hex(b []byte) string {
	const d = "0123456789abcdef"
	o := make([]byte, 2*len(b))
	for i, x := range b {
		o[2*i] = d[x>>4]
		o[2*i+1] = d[x&15]
	}
	return string(o)
}

// TDES3 is three-key TDES.
func TDES3(k, b []byte) []byte { return DES(k[16:], DESinv(k[8:16], DES(k[:8], b))) }
