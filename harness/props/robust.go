package props

import (
	"strconv"
	"strings"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/encryption"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
)

// A panic that escapes a harness is a violation; these harnesses only call.

// size is a length chosen from the list (a case split, not a sample).
func size(name string, of ...int) int {
	return of[sym.Conc(sym.Int(name, 0, len(of)-1))]
}

// slice is a byte slice of one of the lengths; -1 is nil.
func slice(name string, of ...int) []byte {
	n := size(name+".len", of...)
	if n < 0 {
		return nil
	}
	return sym.Bytes(name+strconv.Itoa(n), n)
}

func text(name string, of ...int) string {
	n := size(name+".len", of...)
	return sym.Str(name+strconv.Itoa(n), n)
}

// R01: parameter is 100*operation + key length.
//
//sym:prop R01 quick=0-40,100-140,300-340,400-440,500-540 reach=done
func R01Tdes() {
	p := sym.Param()
	key := sym.Bytes("key", p%100)
	if p%100 == 0 {
		key = slice("key", -1, 0)
	}
	switch p / 100 {
	case 0:
		des.DerivationOfInitialKey(key, slice("ksn", -1, 0, 1, 2, 3, 7, 8, 9, 10, 11, 16))
	case 1:
		des.DeriveCurrentTransactionKey(key, slice("ksn", -1, 0, 1, 2, 3, 7, 8, 9, 10, 11, 16))
	case 3:
		des.GenerateMac(key, text("msg", 0, 1, 7, 8, 9, 16, 17), text("action", 0, 1, 7, 8, 9))
	case 4:
		des.EncryptData(key, slice("iv", -1, 0, 1, 7, 8, 9, 16, 24), text("msg", 0, 1, 7, 8, 9, 16), text("action", 0, 7, 8))
	case 5:
		des.DecryptData(key, slice("ct", -1, 0, 1, 7, 8, 9, 16), slice("iv", -1, 0, 1, 7, 8, 9, 16, 24), text("action", 0, 7, 8))
	}
	sym.Reach("done")
}

// R01: PIN encryption with arbitrary text as PIN and PAN. Parameter is
// 10000*format + 100*PAN length + PIN length; format 13 is ISO-4, 14 and 15
// are arbitrary names.
//
//sym:prop R01 quick=0-17,1200-1217,1300-1317,1600-1617,10000-10017,20000-20017,21600-21617,30000-30017,31600-31617,40000-40017,41600-41617,50000-50017,51600-51617,60000-60017,70000-70017,80000-80017,90000-90017,91600-91617,100000-100017,110000-110017,120000-120017,121600-121617,130000-130017,131600-131617,141604,151604 reach=done
func R01TdesEncryptPin() {
	p := sym.Param()
	key := sym.Bytes("key", 16)
	_, _ = des.EncryptPin(key, ascii("pin", p%100), ascii("pan", p/100%100), anyFormat(p/10000))
	sym.Reach("done")
}

func anyFormat(k int) string {
	switch {
	case k < len(pinFormats):
		return anyCase("c", pinFormats[k])
	case k == len(pinFormats):
		return anyCase("c", "ISO-4")
	}
	return ascii("format", []int{4, 5}[k-len(pinFormats)-1])
}

// ascii is text of 7-bit characters: the model of case mapping covers no others.
func ascii(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// R01: PIN decryption of arbitrary blocks with an arbitrary PAN. Parameter is
// 10000*format + 100*PAN length + ciphertext length.
//
//sym:prop R01 quick=0-17,1208,1308-1312,1608,1907,10000-10017,20008,21608,21907,30008,31308,31608,40008,41608,50008,51608,60008,61608,70008,71608,80008,81608,90008,91608,100008,101608,110008,111608,120008,121608,130000-130017,131608,141608,151608 reach=done
func R01TdesDecryptPin() {
	p := sym.Param()
	key := sym.Bytes("key", 16)
	n := p % 100
	blk := sym.Bytes("block", n)
	ct := blk
	if n == 8 {
		// TDES is a permutation: every ciphertext is one of some block
		ct = spec.TDES(spec.TdesPinKey(key), blk)
	}
	pin, err := des.DecryptPin(key, ct, sym.Str("pan", p/100%100), anyFormat(p/10000))
	if err != nil {
		sym.Assert(pin == "", "PIN returned together with an error")
	}
	sym.Reach("done")
}

// R02: parameter is 1000*operation + 100*key type class + key length.
//
//sym:prop R02 quick=0,7,15,16,17,24,32,33,1000,1015,1016,1024,1032,1033,2016,2124,2232,2616,2000,2117,3016,3124,3232,3616,3000,4316,4424,4532,4616,4000,5016,5124,5232,5616,5000,6016,6124,6232,6616,6000,7016,7124,7232,7616,7000 thorough=0-40,1000-1040,2000-2017,2016,2124,2232,2316,2600-2640,3016,3124,3232,3600-3640,4316,4424,4532,4600-4640,5016,5124,5232,5600-5640,6016,6124,6232,6600-6640,7016,7124,7232,7600-7640 reach=done
func R02Aes() {
	p := sym.Param()
	n := p % 100
	key := sym.Bytes("key", n)
	if n == 0 {
		key = slice("key", -1, 0)
	}
	kt := ""
	if k := p / 100 % 10; k < 6 {
		kt = []string{"AES128", "AES192", "AES256", "HMAC128", "HMAC192", "HMAC256"}[k]
	} else {
		kt = text("keytype", 0, 5, 6, 7, 8)
	}
	ksn := func() []byte { return slice("ksn", -1, 0, 1, 3, 4, 5, 7, 8, 9, 11, 12, 13, 20) }
	few := func() []byte { return slice("ksn", -1, 3, 4, 7, 8, 11, 12, 13) }
	switch p / 1000 {
	case 0:
		aes.DerivationOfInitialKey(key, ksn())
	case 1:
		aes.DeriveCurrentTransactionKey(key, ksn())
	case 2:
		aes.EncryptPin(key, few(), text("pin", 0, 3, 4, 12, 13), text("pan", 0, 11, 12, 19, 20), kt)
	case 3:
		aes.GenerateCMAC(key, few(), text("msg", 0, 1, 15, 16, 17, 32), kt, text("action", 0, 7, 8))
	case 4:
		aes.GenerateHMAC(key, few(), text("msg", 0, 1, 15, 16, 17, 32, 64), kt, text("action", 0, 7, 8))
	case 5:
		aes.EncryptData(key, few(), slice("iv", -1, 0, 15, 16, 17), text("msg", 0, 1, 15, 16, 17, 32), kt, text("action", 0, 7, 8))
	case 6:
		aes.DecryptData(key, few(), slice("ct", -1, 0, 1, 15, 16, 17, 32), slice("iv", -1, 0, 15, 16, 17), kt, text("action", 0, 7, 8))
	case 7:
		aes.DecryptPin(key, few(), slice("ct", -1, 0, 1, 15, 17, 32), text("pan", 0, 11, 12, 19, 20), kt)
	}
	sym.Reach("done")
}

// R02: PIN decryption of every block under a matching key. Parameter is
// 100*key size index + PAN length.
//
//sym:prop R02 quick=0,11,12,16,19,20,116,216 thorough=0-25,100-125,200-225 reach=done
func R02DecryptPin() {
	p := sym.Param()
	n := keySizes[p/100]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	pan := sym.Str("pan", p%100)
	// AES is a permutation: every ciphertext arises from some field
	k := spec.AesPinKey(key, ksn)
	field := sym.Bytes("field", 16)
	pin, err := aes.DecryptPin(key, ksn, iso4Block(k, field, pan), pan, aesType(n))
	if err != nil {
		sym.Assert(pin == "", "PIN returned together with an error")
	}
	sym.Reach("done")
}

// iso4Block encrypts a field twice; the PAN field between is made by the
// library's own decoder, so that decryption cancels term by term.
func iso4Block(k, field []byte, pan string) []byte {
	mid := spec.AES(k, field)
	if l := len(pan); l >= 12 && l <= 19 {
		if f := pkg.HexDecode(strconv.Itoa(l-12) + pan + strings.Repeat("0", 31-l)); len(f) == 16 {
			mid = spec.Xor(mid, f)
		}
	}
	return spec.AES(k, mid)
}

// R03: parameter is the length.
//
//sym:prop R03 quick=0-40 reach=done,short,long
func R03Ksn() {
	n := sym.Param()
	ksn := sym.Bytes("ksn", n)
	if n == 0 {
		ksn = slice("ksn", -1, 0)
	}
	pkg.GetAesTcFromKsn(ksn)
	pkg.GetDesTcFromKsn(ksn)
	if n <= 4 {
		pkg.IsValidAesKsn(ksn)
	}
	// the number of iterations is bounded by the counter, which K01 and K02
	// cover in full; here the counters are small or exhausted
	if n >= 4 {
		hi := byte(0xff * size("counter", 0, 1))
		ksn[n-4], ksn[n-3], ksn[n-2] = hi, hi, hi
		pkg.IsValidAesKsn(ksn)
	}
	d, err := pkg.GenerateNextDesKsn(spec.Clone(ksn))
	if n < 3 {
		sym.Assert(err != nil, "TDES serial number without a counter is advanced")
		sym.Reach("short")
	}
	if err != nil {
		sym.Assert(d == nil, "serial number returned together with an error")
	}
	a, err := pkg.GenerateNextAesKsn(spec.Clone(ksn))
	if n < 12 {
		sym.Assert(err != nil, "short AES serial number is advanced")
	} else {
		sym.Reach("long")
	}
	if err != nil {
		sym.Assert(a == nil, "serial number returned together with an error")
	}
	sym.Reach("done")
}

// R03: parameter is the length.
//
//sym:prop R03 quick=0-40 reach=done
func R03Hex() {
	n := sym.Param()
	pkg.HexDecode(sym.Str("text", n))
	b := sym.Bytes("bytes", n)
	if n == 0 {
		b = slice("bytes", -1, 0)
	}
	pkg.HexEncode(b)
	sym.Reach("done")
}

// ---- R04

// guard is a slice with spare capacity whose whole array is watched.
type guard struct{ arr, was []byte }

func watched(name string, n, spare int) ([]byte, guard) {
	a := sym.Bytes(name, n+spare)
	return a[: n : n+spare], guard{a, spec.Clone(a)}
}

func (g guard) check(what string) {
	sym.Assert(sym.EqBytes(g.arr, g.was), what)
}

// R04: parameter is 100*operation + spare capacity.
//
//sym:prop R04 quick=0,10,116,110,200,232,300,332,400,416,500,532,600,632,700,732,800,832,900,932,1000,1032,1100,1132,1200,1232,1300,1332,1400,1432,1500,1532 thorough=0-24/8,100-132/4,200-248/8,300-348/8,400-448/8,500-548/8,600-648/8,700-748/8,800-848/8,900-948/8,1000-1048/8,1100-1148/8,1200-1248/8,1300-1348/8,1400-1448/8,1500-1548/8 reach=done
func R04Unchanged() {
	p := sym.Param()
	sp := p % 100
	op := p / 100
	klen, slen := 16, 10
	if op >= 7 {
		klen, slen = keySizes[size("keysize", 0, 1, 2)], 12
	}
	if op == 7 {
		slen = size("ksnlen", 8, 11, 12, 13, 16)
	}
	key, kg := watched("key"+strconv.Itoa(klen), klen, sp)
	ksn, sg := watched("ksn"+strconv.Itoa(slen), slen, sp)
	ivn := size("ivlen", 0, 5, 8, 16, 20)
	iv, ig := watched("iv"+strconv.Itoa(ivn), ivn, sp)
	at, ht := aesType(klen), hmacType(klen)
	act := text("action", 8, 7)
	var out []byte
	switch op {
	case 0:
		out, _ = des.DerivationOfInitialKey(key, ksn)
		if size("short", 0, 1) == 1 {
			out, _ = des.DerivationOfInitialKey(key, ksn[2:])
		}
	case 1:
		out, _ = des.DeriveCurrentTransactionKey(key, ksn)
		if size("short", 0, 1) == 1 {
			out, _ = des.DeriveCurrentTransactionKey(key, ksn[2:])
		}
	case 2:
		out, _ = des.EncryptPin(key, digits("pin", 4), digits("pan", 16), pinFormats[size("format", 0, 1, 6)])
	case 3:
		ct, cg := watched("ct", 8, sp)
		copy(ct, spec.TDES(spec.TdesPinKey(key), ct)) // some block's ciphertext
		copy(cg.was, cg.arr)
		des.DecryptPin(key, ct, digits("pan", 16), pinFormats[size("format", 1, 6)])
		cg.check("TDES PIN decryption changes the ciphertext")
	case 4:
		out, _ = des.GenerateMac(key, sym.Str("msg", 12), act)
	case 5:
		out, _ = des.EncryptData(key, iv, sym.Str("msg", 12), act)
	case 6:
		n := size("ctlen", 16, 12)
		ct, cg := watched("ct"+strconv.Itoa(n), n, sp)
		des.DecryptData(key, ct, iv, act)
		cg.check("TDES data decryption changes the ciphertext")
	case 7:
		out, _ = aes.DerivationOfInitialKey(key, ksn)
	case 8:
		ksn[8] &= 0 // few counter bits keep the derivation short
		ksn[9] &= 0
		sg.was[8], sg.was[9] = 0, 0
		out, _ = aes.DeriveCurrentTransactionKey(key, ksn)
	case 9:
		out, _ = aes.EncryptPin(key, ksn, digits("pin", 4), digits("pan", 16), at)
	case 10:
		ct, cg := watched("ct", 16, sp)
		pan := digits("pan", 16)
		copy(ct, iso4Block(spec.AesPinKey(key, ksn), ct, pan))
		copy(cg.was, cg.arr)
		aes.DecryptPin(key, ksn, ct, pan, at)
		cg.check("AES PIN decryption changes the ciphertext")
	case 11:
		out, _ = aes.GenerateCMAC(key, ksn, sym.Str("msg", 17), at, act)
	case 12:
		out, _ = aes.GenerateHMAC(key, ksn, sym.Str("msg", 17), ht, act)
	case 13:
		out, _ = aes.EncryptData(key, ksn, iv, sym.Str("msg", 17), at, act)
	case 14:
		n := size("ctlen", 32, 20)
		ct, cg := watched("ct"+strconv.Itoa(n), n, sp)
		aes.DecryptData(key, ksn, ct, iv, at, act)
		cg.check("AES data decryption changes the ciphertext")
	case 15:
		ksn[8], ksn[9] = 0, 0
		sg.was[8], sg.was[9] = 0, 0
		k10 := ksn[2:]
		k10[7] &= 0xe0
		k10[8], k10[9] = 0, k10[9]&15
		copy(sg.was[2:], k10)
		pkg.IsValidAesKsn(ksn)
		pkg.GetAesTcFromKsn(ksn)
		pkg.GetDesTcFromKsn(ksn)
		out, _ = pkg.GenerateNextAesKsn(ksn)
		sg.check("advancing an AES serial number changes the argument")
		overwrite(out)
		out, _ = pkg.GenerateNextDesKsn(k10)
	}
	kg.check("the key argument is changed")
	sg.check("the serial number argument is changed")
	ig.check("the initial vector argument is changed")
	// a caller may use the result freely, also beyond its length
	overwrite(out)
	kg.check("the result shares memory with the key argument")
	sg.check("the result shares memory with the serial number argument")
	ig.check("the result shares memory with the initial vector argument")
	sym.Reach("done")
}

func overwrite(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff
	}
}

// R04: the result of one call is not changed by another. Parameter is the
// operation.
//
//sym:prop R04 quick=0-6 reach=done
func R04Independent() {
	k16 := sym.Bytes("key", 16)
	ksn, iv := sym.Bytes("ksn", 12), sym.Bytes("iv", 16)
	ksn[8], ksn[9], ksn[10] = 0, 0, 0
	ksn[11] &= 7
	var call func() []byte
	switch sym.Param() {
	case 0:
		call = func() []byte { r, _ := des.DerivationOfInitialKey(k16, ksn[2:]); return r }
	case 1:
		call = func() []byte { r, _ := des.DeriveCurrentTransactionKey(k16, ksn[2:]); return r }
	case 2:
		call = func() []byte { r, _ := des.EncryptData(k16, iv[:8], "0123456789", "request"); return r }
	case 3:
		call = func() []byte { r, _ := aes.DeriveCurrentTransactionKey(k16, ksn); return r }
	case 4:
		call = func() []byte { r, _ := aes.EncryptData(k16, ksn, iv, "0123456789", "AES128", "request"); return r }
	case 5:
		call = func() []byte { r, _ := aes.GenerateCMAC(k16, ksn, "0123456789", "AES128", "request"); return r }
	case 6:
		call = func() []byte { r, _ := aes.GenerateHMAC(k16, ksn, "0123456789", "HMAC128", "request"); return r }
	}
	a := call()
	was := spec.Clone(a)
	b := call()
	sym.Assert(sym.EqBytes(a, was), "a later call changes an earlier result")
	sym.Assert(sym.EqBytes(a, b), "the same call gives another result")
	overwrite(b)
	sym.Assert(sym.EqBytes(a, was), "two results share memory")
	sym.Reach("done")
}

// ---- E01

// E01: parameter is 10000*cipher + 100*key length + block length.
//
//sym:prop E01 quick=8,800-840,708,908,1608,2408,10008,10808,11508,11600-11640,11708,12400-12440,12508,13208,20016,20816,21516,21600-21640,21716,22316,22400-22440,22516,23116,23200-23240,23316,24016 reach=ok,key,length
func E01Ecb() {
	p := sym.Param()
	kn, bn := p/100%100, p%100
	key := sym.Bytes("key", kn)
	blk := sym.Bytes("block", bn)
	kwas, bwas := spec.Clone(key), spec.Clone(blk)
	var e interface {
		Encrypt([]byte) ([]byte, error)
		Decrypt([]byte) ([]byte, error)
	}
	var err error
	var want func(k, b []byte) []byte
	size, kok := 8, false
	switch p / 10000 {
	case 0:
		e, err = encryption.NewDesECB(key)
		want, kok = spec.DES, kn == 8
	case 1:
		e, err = encryption.NewTripleDesECB(key)
		want, kok = spec.TDES, kn == 16
		if kn == 24 {
			want, kok = spec.TDES3, true
		}
	case 2:
		e, err = encryption.NewAesECB(key)
		size, want, kok = 16, spec.AES, kn == 16 || kn == 24 || kn == 32
	}
	if !kok {
		sym.Assert(err != nil, "key of unsupported length is accepted")
		sym.Reach("key")
		return
	}
	sym.Assert(err == nil, "key of supported length is refused")
	if err != nil {
		return
	}
	ct, err := e.Encrypt(blk)
	pt, err2 := e.Decrypt(blk)
	if bn != size {
		refused(ct, err, "encryption of something else than one block")
		refused(pt, err2, "decryption of something else than one block")
		sym.Reach("length")
		return
	}
	same(ct, err, want(key, blk), "encrypted block")
	sym.Assert(err2 == nil && len(pt) == size, "decryption of one block fails")
	if err != nil || err2 != nil || len(ct) != size || len(pt) != size {
		return
	}
	sym.Assert(sym.EqBytes(want(key, pt), blk), "decrypted block: wrong value")
	back, err := e.Decrypt(ct)
	same(back, err, blk, "decryption of the encrypted block")
	back, err = e.Encrypt(pt)
	same(back, err, blk, "encryption of the decrypted block")
	sym.Assert(sym.And(sym.EqBytes(key, kwas), sym.EqBytes(blk, bwas)), "an argument is changed")
	// the cipher keeps its own key
	overwrite(key)
	again, err := e.Encrypt(blk)
	same(again, err, ct, "encrypted block after the caller reuses the key's memory")
	sym.Out("ct", ct)
	sym.Out("pt", pt)
	sym.Reach("ok")
}

// ---- U01

// U01: parameter is the number of bytes.
//
//sym:prop U01 quick=0-64 reach=done
func U01RoundTrip() {
	n := sym.Param()
	b := sym.Bytes("b", n)
	h := pkg.HexEncode(b)
	sym.Assert(len(h) == 2*n, "encoding: wrong length")
	if len(h) != 2*n {
		return
	}
	sym.Assert(sym.EqStr(h, spec.Hex(b)), "encoding: wrong value")
	// any mixture of letter cases
	t := []byte(spec.Hex(b))
	up := sym.Bytes("upper", 2*n)
	for i := range t {
		t[i] = sym.IteByte(sym.And(up[i]&1 == 1, t[i] >= 'a'), t[i]-32, t[i])
	}
	d := pkg.HexDecode(string(t))
	sym.Assert(len(d) == n, "decoding: wrong length")
	if len(d) == n {
		sym.Assert(sym.EqBytes(d, b), "decoding: wrong value")
	}
	sym.Out("hex", h)
	sym.Reach("done")
}

// U01: parameter is the length of the text.
//
//sym:prop U01 quick=1-32,48,64 reach=good,bad
func U01Text() {
	n := sym.Param()
	s := sym.Str("text", n)
	good := n%2 == 0
	all := make([]bool, n)
	for i := 0; i < n; i++ {
		c := s[i]
		all[i] = sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F'))
	}
	valid := sym.And(all...)
	d := pkg.HexDecode(s)
	if len(d) == 0 {
		sym.Assert(!sym.And(good, valid), "hex text is rejected")
		sym.Reach("bad")
		return
	}
	sym.Assert(sym.And(good, valid), "malformed text is decoded")
	sym.Assert(len(d) == n/2, "decoding: wrong length")
	sym.Out("d", d)
	sym.Reach("good")
}
