package spec

import (
	"crypto/aes"
	"crypto/sha256"
)

func AES(k, b []byte) []byte {
	c, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 16)
	c.Encrypt(o, b)
	return o
}

func AESinv(k, b []byte) []byte {
	c, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	o := make([]byte, 16)
	c.Decrypt(o, b)
	return o
}

// Key usages of X9.24-3 6.3.2.
const (
	UsagePin        = 0x1000
	UsageMacGen     = 0x2000
	UsageMacVerify  = 0x2001
	UsageDataEnc    = 0x3000
	UsageDataDec    = 0x3001
	UsageDerivation = 0x8000
	UsageInitial    = 0x8001
)

// Derive is X9.24-3 6.3.1: left-most n bytes of ECB over numbered blocks.
func Derive(key []byte, usage, alg, n int, id []byte) []byte {
	var out []byte
	for ctr := 1; len(out) < n; ctr++ {
		blk := []byte{1, byte(ctr), byte(usage >> 8), byte(usage), byte(alg >> 8), byte(alg), byte(n * 8 >> 8), byte(n * 8)}
		out = append(out, AES(key, append(blk, id...))...)
	}
	return out[:n]
}

// AES128 = 2, AES192 = 3, AES256 = 4; HMAC = 5.
func aesAlg(n int) int {
	switch n {
	case 16:
		return 2
	case 24:
		return 3
	}
	return 4
}

func AesInitialKey(bdk, ksn []byte) []byte {
	return Derive(bdk, UsageInitial, aesAlg(len(bdk)), len(bdk), ksn[:8])
}

func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// AesTransactionKey for a 12-byte serial number.
func AesTransactionKey(ik, ksn []byte) []byte {
	tc := uint32(ksn[8])<<24 | uint32(ksn[9])<<16 | uint32(ksn[10])<<8 | uint32(ksn[11])
	key := Clone(ik)
	var sofar uint32
	for bit := 31; bit >= 0; bit-- {
		b := uint32(1) << uint(bit)
		if tc&b == 0 {
			continue
		}
		sofar |= b
		key = AesStep(key, ksn, sofar)
	}
	return key
}

// AesStep is one derivation step for the counter value given.
func AesStep(key, ksn []byte, sofar uint32) []byte {
	return Derive(key, UsageDerivation, aesAlg(len(key)), len(key), Cat(ksn[4:8], be32(sofar)))
}

// AesWorkingKey for a 12-byte serial number.
func AesWorkingKey(key, ksn []byte, usage int) []byte {
	return Derive(key, usage, aesAlg(len(key)), len(key), ksn[4:12])
}

func HmacWorkingKey(key, ksn []byte, usage int) []byte {
	return Derive(key, usage, 5, len(key), ksn[4:12])
}

func AesPinKey(key, ksn []byte) []byte { return AesWorkingKey(key, ksn, UsagePin) }

func MacUsage(response bool) int {
	if response {
		return UsageMacVerify
	}
	return UsageMacGen
}

func DataUsage(response bool) int {
	if response {
		return UsageDataDec
	}
	return UsageDataEnc
}

func double(b []byte) []byte {
	o := make([]byte, 16)
	for i := 0; i < 16; i++ {
		o[i] = b[i] << 1
		if i < 15 {
			o[i] |= b[i+1] >> 7
		}
	}
	o[15] ^= 0x87 * (b[0] >> 7)
	return o
}

// CMAC is SP 800-38B.
func CMAC(k, msg []byte) []byte {
	k1 := double(AES(k, make([]byte, 16)))
	k2 := double(k1)
	n := (len(msg) + 15) / 16
	if n == 0 {
		n = 1
	}
	c := make([]byte, 16)
	for i := 0; i < n-1; i++ {
		c = AES(k, Xor(c, msg[16*i:16*i+16]))
	}
	last := Clone(msg[16*(n-1):])
	if len(last) == 16 {
		last = Xor(last, k1)
	} else {
		last = append(last, 0x80)
		last = Xor(append(last, make([]byte, 16-len(last))...), k2)
	}
	return AES(k, Xor(c, last))
}

// HMAC is HMAC-SHA-256 with a key of at most 64 bytes.
func HMAC(k, msg []byte) []byte {
	i, o := make([]byte, 64), make([]byte, 64)
	for j := range i {
		i[j], o[j] = 0x36, 0x5C
		if j < len(k) {
			i[j] ^= k[j]
			o[j] ^= k[j]
		}
	}
	in := sha256.Sum256(append(i, msg...))
	out := sha256.Sum256(append(o, in[:]...))
	return out[:]
}

func AesCMAC(key, ksn, msg []byte, response bool) []byte {
	return CMAC(AesWorkingKey(key, ksn, MacUsage(response)), msg)
}

func AesHMAC(key, ksn, msg []byte, response bool) []byte {
	return HMAC(HmacWorkingKey(key, ksn, MacUsage(response)), msg)
}

func AesEncryptData(key, ksn, iv, msg []byte, response bool) []byte {
	k := AesWorkingKey(key, ksn, DataUsage(response))
	return CBC(func(b []byte) []byte { return AES(k, b) }, IV(iv, 16), msg)
}

func AesDecryptData(key, ksn, iv, ct []byte, response bool) []byte {
	k := AesWorkingKey(key, ksn, DataUsage(response))
	return CBCinv(func(b []byte) []byte { return AESinv(k, b) }, IV(iv, 16), ct)
}

// Nibbles packs hexadecimal digit values.
func Nibbles(d []byte) []byte {
	o := make([]byte, len(d)/2)
	for i := range o {
		o[i] = d[2*i]<<4 | d[2*i+1]
	}
	return o
}

// Digits gives the values of decimal digit characters.
func Digits(s string) []byte {
	o := make([]byte, len(s))
	for i := range o {
		o[i] = s[i] - '0'
	}
	return o
}

// ISO4Field is the plain-text PIN field of ISO 9564 format 4.
func ISO4Field(pin string, random []byte) []byte {
	f := []byte{4, byte(len(pin))}
	f = append(f, Digits(pin)...)
	for len(f) < 16 {
		f = append(f, 0xA)
	}
	return Cat(Nibbles(f), random)
}

// ISO4PanField is the PAN field of ISO 9564 format 4.
func ISO4PanField(pan string) []byte {
	f := []byte{byte(len(pan) - 12)}
	f = append(f, Digits(pan)...)
	for len(f) < 32 {
		f = append(f, 0)
	}
	return Nibbles(f)
}

func ISO4(k []byte, pin, pan string, random []byte) []byte {
	return AES(k, Xor(ISO4PanField(pan), AES(k, ISO4Field(pin, random))))
}
