package props

import (
	"strconv"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/encryption"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
)

// One call of the library: arguments, and what the result must be whatever
// else is or was called.

type libArgs struct {
	op, kn        int
	key, ksn, iv  []byte
	msg, pin, pan string
	response      bool
	action        string
	ct            []byte
}

// newLibArgs are arbitrary arguments of an operation; n distinguishes lengths.
func newLibArgs(name string, op, kn, n int) *libArgs {
	a := &libArgs{op: op, kn: kn}
	if op < 7 || op == 15 || op == 17 {
		a.kn = 16
		a.ksn = fewBits(sym.Bytes(name+".ksn10", 10), "des")
	} else {
		a.ksn = fewBits(sym.Bytes(name+".ksn12", 12), "aes")
	}
	a.key = sym.Bytes(name+".key"+strconv.Itoa(a.kn), a.kn)
	a.iv = sym.Bytes(name+".iv"+strconv.Itoa(8+n), 8+n)
	a.msg = sym.Str(name+".msg"+strconv.Itoa(9+n), 9+n)
	a.pin, a.pan = digits(name+".pin"+strconv.Itoa(4+n/4), 4+n/4), digits(name+".pan"+strconv.Itoa(16-n/4), 16-n/4)
	if op >= 4 && op <= 6 || op >= 11 && op <= 14 {
		a.response = size(name+".response", 0, 1) == 1
	}
	a.action = pkg.ActionRequest
	if a.response {
		a.action = pkg.ActionResponse
	}
	return a
}

// prepare makes what decryption starts from.
func (a *libArgs) prepare(name string) {
	switch a.op {
	case 3:
		a.ct = spec.TDES(spec.TdesPinKey(a.key), iso0Block(a.pin, a.pan))
	case 6:
		a.ct = sym.Bytes(name+".ct", 16)
	case 10:
		a.ct = spec.ISO4(spec.AesPinKey(a.key, a.ksn), a.pin, a.pan, sym.Bytes(name+".fill", 8))
	case 14:
		a.ct = sym.Bytes(name+".ct", 32)
	}
}

// iso0Block is the ISO 9564 format 0 block.
func iso0Block(pin, pan string) []byte {
	d, p := spec.Digits(pin), spec.Digits(pan[len(pan)-13:len(pan)-1])
	nib := []byte{0, byte(len(d))}
	nib = append(nib, d...)
	for len(nib) < 16 {
		nib = append(nib, 15)
	}
	out := make([]byte, 8)
	for i := range nib {
		v := nib[i]
		if i >= 4 {
			v ^= p[i-4]
		}
		out[i/2] |= v << uint(4*(1-i%2))
	}
	return out
}

func (a *libArgs) call() ([]byte, error) {
	switch a.op {
	case 0:
		return des.DerivationOfInitialKey(a.key, a.ksn)
	case 1:
		return des.DeriveCurrentTransactionKey(a.key, a.ksn)
	case 2:
		return des.EncryptPin(a.key, a.pin, a.pan, "ISO-0")
	case 3:
		s, err := des.DecryptPin(a.key, a.ct, a.pan, "ISO-0")
		return []byte(s), err
	case 4:
		return des.GenerateMac(a.key, a.msg, a.action)
	case 5:
		return des.EncryptData(a.key, a.iv, a.msg, a.action)
	case 6:
		s, err := des.DecryptData(a.key, a.ct, a.iv, a.action)
		return []byte(s), err
	case 7:
		return aes.DerivationOfInitialKey(a.key, a.ksn)
	case 8:
		return aes.DeriveCurrentTransactionKey(a.key, a.ksn)
	case 9:
		return aes.EncryptPin(a.key, a.ksn, a.pin, a.pan, aesType(a.kn))
	case 10:
		s, err := aes.DecryptPin(a.key, a.ksn, a.ct, a.pan, aesType(a.kn))
		return []byte(s), err
	case 11:
		return aes.GenerateCMAC(a.key, a.ksn, a.msg, aesType(a.kn), a.action)
	case 12:
		return aes.GenerateHMAC(a.key, a.ksn, a.msg, hmacType(a.kn), a.action)
	case 13:
		return aes.EncryptData(a.key, a.ksn, a.iv, a.msg, aesType(a.kn), a.action)
	case 14:
		s, err := aes.DecryptData(a.key, a.ksn, a.ct, a.iv, aesType(a.kn), a.action)
		return []byte(s), err
	case 15:
		return pkg.GenerateNextDesKsn(a.ksn)
	case 16:
		return pkg.GenerateNextAesKsn(a.ksn)
	case 17:
		c, err := encryption.NewTripleDesECB(a.key)
		if err != nil {
			return nil, err
		}
		return c.Encrypt(a.iv[:8])
	case 18:
		c, err := encryption.NewAesECB(a.key)
		if err != nil {
			return nil, err
		}
		return c.Encrypt(a.ksn[:12:12])
	}
	return nil, nil
}

// right says what the call must return.
func (a *libArgs) right(got []byte, err error) bool {
	if a.op == 18 { // not a block
		return err != nil
	}
	if err != nil {
		return false
	}
	var want []byte
	switch a.op {
	case 0:
		want = spec.TdesInitialKey(a.key, a.ksn)
	case 1:
		want = spec.TdesTransactionKey(a.key, a.ksn)
	case 2:
		want = spec.TDES(spec.TdesPinKey(a.key), iso0Block(a.pin, a.pan))
	case 3, 10:
		want = []byte(a.pin)
	case 4:
		want = spec.TdesMAC(a.key, []byte(a.msg), a.response)
	case 5:
		want = spec.TdesEncryptData(a.key, a.iv, []byte(a.msg), a.response)
	case 6:
		want = spec.TdesDecryptData(a.key, a.iv, a.ct, a.response)
	case 7:
		want = spec.AesInitialKey(a.key, a.ksn)
	case 8:
		want = spec.AesTransactionKey(a.key, a.ksn)
	case 9: // the fill is random
		if len(got) != 16 {
			return false
		}
		k := spec.AesPinKey(a.key, a.ksn)
		f := spec.AESinv(k, spec.Xor(spec.ISO4PanField(a.pan), spec.AESinv(k, got)))
		want = spec.ISO4(k, a.pin, a.pan, f[8:])
	case 11:
		want = spec.AesCMAC(a.key, a.ksn, []byte(a.msg), a.response)
	case 12:
		want = spec.AesHMAC(a.key, a.ksn, []byte(a.msg), a.response)
	case 13:
		want = spec.AesEncryptData(a.key, a.ksn, a.iv, []byte(a.msg), a.response)
	case 14:
		want = spec.AesDecryptData(a.key, a.ksn, a.iv, a.ct, a.response)
	case 15, 16: // with few bits set the next counter is one more
		want = spec.Clone(a.ksn)
		want[len(want)-1]++
	case 17:
		want = spec.TDES(a.key, a.iv[:8])
	}
	return len(got) == len(want) && sym.EqBytes(got, want)
}

// L01: a call, another one with other arguments, and the first again.
// Parameter is 10000*key size + 100*first + second operation.
//
//sym:prop L01 quick=0-6,15,17,100-106,115,117,200-206,215,217,300-306,315,317,400-406,415,417,500-506,515,517,600-606,615,617,707-714,716,718,807-814,816,818,907-914,916,918,1007-1014,1016,1018,1107-1114,1116,1118,1207-1214,1216,1218,1307-1314,1316,1318,1407-1414,1416,1418,1500-1506,1515,1517,1607-1614,1616,1618,1700-1706,1715,1717,1807-1814,1816,1818,10707,10808,10909,11010,11111,11212,11313,11414,20707,20808,20909,21010,21111,21212,21313,21414 thorough=0-18,100-118,200-218,300-318,400-418,500-518,600-618,700-718,800-818,900-918,1000-1018,1100-1118,1200-1218,1300-1318,1400-1418,1500-1518,1600-1618,1700-1718,1800-1818,10707-10714,10716,10718,10807-10814,10816,10818,10907-10914,10916,10918,11007-11014,11016,11018,11107-11114,11116,11118,11207-11214,11216,11218,11307-11314,11316,11318,11407-11414,11416,11418,11607-11614,11616,11618,11807-11814,11816,11818,20707-20714,20716,20718,20807-20814,20816,20818,20907-20914,20916,20918,21007-21014,21016,21018,21107-21114,21116,21118,21207-21214,21216,21218,21307-21314,21316,21318,21407-21414,21416,21418,21607-21614,21616,21618,21807-21814,21816,21818 reach=done
func L01History() {
	p := sym.Param()
	kn := keySizes[p/10000]
	a, b := newLibArgs("a", p/100%100, kn, 8), newLibArgs("b", p%100, kn, 0)
	a.prepare("a")
	b.prepare("b")
	for i, c := range []*libArgs{a, b, a} {
		got, err := c.call()
		sym.Assert(c.right(got, err), []string{"the first call is wrong", "a call after another one is wrong", "the repeated call is wrong"}[i])
		overwrite(got) // the result is the caller's
	}
	sym.Reach("done")
}

// L01: two calls at the same time that share their slices. Parameter as above.
//
//sym:prop L01 quick=0,1,101,102,202,203,303,304,404,405,505,506,606,607,707,708,808,809,909,910,1010,1011,1111,1112,1212,1213,1313,1314,1414,1415,1515,1516,1616,1617,1717,1718,1818,10707,10808,10909,11010,11111,11212,11313,11414,20707,20808,20909,21010,21111,21212,21313,21414 thorough=0-6,15,17,100-106,115,117,200-206,215,217,300-306,315,317,400-406,415,417,500-506,515,517,600-606,615,617,707-714,716,718,807-814,816,818,907-914,916,918,1007-1014,1016,1018,1107-1114,1116,1118,1207-1214,1216,1218,1307-1314,1316,1318,1407-1414,1416,1418,1500-1506,1515,1517,1607-1614,1616,1618,1700-1706,1715,1717,1807-1814,1816,1818,10707,10808,10909,11010,11111,11212,11313,11414,20707,20808,20909,21010,21111,21212,21313,21414 reach=done stress=1
func L01Concurrent() {
	p := sym.Param()
	kn := keySizes[p/10000]
	a, b := newLibArgs("a", p/100%100, kn, 8), newLibArgs("b", p%100, kn, 0)
	if a.kn == b.kn {
		b.key = a.key
	}
	if len(a.ksn) == len(b.ksn) {
		b.ksn = a.ksn
	}
	a.prepare("a")
	b.prepare("b")
	var r [2][]byte
	var e [2]error
	sym.Par(func() { r[0], e[0] = a.call() }, func() { r[1], e[1] = b.call() })
	sym.Assert(a.right(r[0], e[0]), "the first of two calls at the same time is wrong")
	sym.Assert(b.right(r[1], e[1]), "the second of two calls at the same time is wrong")
	sym.Reach("done")
}

// L01: one cipher object used at the same time. Parameter is the cipher.
//
//sym:prop L01 quick=0-3 reach=done stress=1
func L01Cipher() {
	p := sym.Param()
	n, k := 8, 8
	if p > 0 {
		k = 8 + 8*p
	}
	if p == 3 {
		n, k = 16, 16
	}
	key := sym.Bytes("key", k)
	x, y := sym.Bytes("x", n), sym.Bytes("y", n)
	var c interface {
		Encrypt([]byte) ([]byte, error)
		Decrypt([]byte) ([]byte, error)
	}
	var err error
	enc, dec := spec.TDES, spec.TDESinv
	switch p {
	case 0:
		c, err = encryption.NewDesECB(key)
		enc, dec = spec.DES, spec.DESinv
	case 1:
		c, err = encryption.NewTripleDesECB(key)
	case 2:
		c, err = encryption.NewTripleDesECB(key)
		enc = spec.TDES3
		dec = nil
	case 3:
		c, err = encryption.NewAesECB(key)
		enc, dec = spec.AES, spec.AESinv
	}
	sym.Assert(err == nil, "no cipher for a good key")
	if err != nil {
		return
	}
	var a, b, d []byte
	var e [3]error
	sym.Par(func() { a, e[0] = c.Encrypt(x) }, func() { b, e[1] = c.Encrypt(y) }, func() { d, e[2] = c.Decrypt(x) })
	sym.Assert(e[0] == nil && e[1] == nil && e[2] == nil, "a block is refused")
	same(a, e[0], enc(key, x), "encryption beside another one")
	same(b, e[1], enc(key, y), "encryption beside another one")
	if dec != nil {
		same(d, e[2], dec(key, x), "decryption beside an encryption")
	}
	a2, err := c.Encrypt(x)
	same(a2, err, enc(key, x), "encryption after others")
	sym.Reach("done")
}
