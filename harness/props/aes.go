package props

import (
	"strconv"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg/aes"
)

var keySizes = []int{16, 24, 32}

func aesType(n int) string  { return "AES" + strconv.Itoa(n*8) }
func hmacType(n int) string { return "HMAC" + strconv.Itoa(n*8) }

// A01: parameter is 100*base key length + serial number length.
//
//sym:prop A01 quick=1608-1620,2408-2420,3208-3220 reach=done
func A01InitialKey() {
	p := sym.Param()
	bdk := sym.Bytes("bdk", p/100)
	ksn := sym.Bytes("ksn", p%100)
	want := spec.AesInitialKey(bdk, ksn)
	got, err := aes.DerivationOfInitialKey(bdk, ksn)
	same(got, err, want, "initial key")
	sym.Out("ik", got)
	sym.Reach("done")
}

// A01, A02: keys of other lengths are refused. Parameter is the length.
//
//sym:prop A01 quick=0-15,17-23,25-31,33-70 reach=done
func A01KeyLength() {
	got, err := aes.DerivationOfInitialKey(sym.Bytes("bdk", sym.Param()), sym.Bytes("ksn", 12))
	refused(got, err, "initial key from a base key of unsupported length")
	sym.Reach("done")
}

// A02: parameter is the initial key's length.
//
//sym:prop A02 quick=16,24,32 reach=done
func A02TransactionKey() {
	ik := sym.Bytes("ik", sym.Param())
	ksn := sym.Bytes("ksn", 12)
	want := spec.AesTransactionKey(ik, ksn)
	got, err := aes.DeriveCurrentTransactionKey(ik, ksn)
	same(got, err, want, "transaction key")
	sym.Out("key", got)
	sym.Reach("done")
}

// A02: parameter is the initial key's length.
//
//sym:prop A02 quick=0-15,17-23,25-31,33-70 reach=done
func A02KeyLength() {
	got, err := aes.DeriveCurrentTransactionKey(sym.Bytes("ik", sym.Param()), sym.Bytes("ksn", 12))
	refused(got, err, "transaction key from an initial key of unsupported length")
	sym.Reach("done")
}

// A03: parameter is 10000*key size index + 10*message length + action class.
//
//sym:prop A03 quick=0,2,10,150,160,161,162,163,170,320,330,480,10000,10150,10160,10162,10170,10320,20000,20150,20160,20162,20170,20320,20330,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2120,2130,2141,2150,2160,2190,12001,12070,12160,22010,22080,22160 thorough=0-3,10-650/10,161-163,10000-10003,10010-10650/10,10161-10163,20000-20003,20010-20650/10,20161-20163,800,1280,2560,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2120,2130,2141,2150,2160,2190,12001,12070,12160,22010,22080,22160,2170,2180,2200,2210,2220,2230,2270,12190,22190 reach=done,response
func A03CMAC() {
	p := sym.Param()
	n := keySizes[p/10000]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	msg := sym.Str("msg", length(p%10000/10, 200))
	act, response := action(p % 10)
	want := spec.AesCMAC(key, ksn, []byte(msg), response)
	got, err := aes.GenerateCMAC(key, ksn, msg, aesType(n), act)
	same(got, err, want, "CMAC")
	sym.Out("mac", got)
	sym.Reach("done")
	if response {
		sym.Reach("response")
	}
}

// A04: parameter as for A03.
//
//sym:prop A04 quick=0,2,10,150,160,161,162,163,310,320,550,560,640,650,10000,10150,10160,10162,10640,20000,20150,20160,20162,20640,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2120,2130,2141,2150,2160,2170,2181,2190,2200,2211,2220,2230,2260,12001,12070,12160,12220,22010,22080,22160,22220 thorough=0-3,10-1300/10,161-163,10000-10003,10010-10650/10,10161-10163,20000-20003,20010-20650/10,20161-20163,2560,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2120,2130,2141,2150,2160,2170,2181,2190,2200,2211,2220,2230,2260,12001,12070,12160,12220,22010,22080,22160,22220,2270,2280 reach=done,response
func A04HMAC() {
	p := sym.Param()
	n := keySizes[p/10000]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	msg := sym.Str("msg", length(p%10000/10, 200))
	act, response := action(p % 10)
	want := spec.AesHMAC(key, ksn, []byte(msg), response)
	got, err := aes.GenerateHMAC(key, ksn, msg, hmacType(n), act)
	same(got, err, want, "HMAC")
	sym.Out("mac", got)
	sym.Reach("done")
	if response {
		sym.Reach("response")
	}
}

// A05: parameter is 1000000*key size index + 10000*IV class + 10*message
// length + action class.
//
//sym:prop A05 quick=0,2,11,150,160,161,162,163,170,320,330,10160,20160,90170,90171,160160,170160,170171,170320,180170,250160,330160,1000000,1000160,1000162,1090170,1170320,1180160,2000000,2000160,2000162,2090170,2170320,2180160,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2121,2130,2140,2151,2160,2171,2180,2190,2201,2210,2220,1012001,1172070,1172160,1172220,2012010,2172080,2172160,2172220,340160,410160,650161,990170,1340160,2340161 thorough=0-3,10-500/10,10160,20160,30160,40160,50160,60160,70160,80160,90160-90163,100160,110160,120160,130160,140160,150160,160160,170010-170500/10,180160,190160,250160,330160,1000000-1000003,1000010-1000500/10,1010160,1090170,1170010-1170500/10,1180160,2000000-2000003,2000010-2000500/10,2010160,2090170,2170010-2170500/10,2180160,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2121,2130,2140,2151,2160,2171,2180,2190,2201,2210,2220,1012001,1172070,1172160,1172220,2012010,2172080,2172160,2172220,340160,410160,650161,990170,1340160,2340161,2230,2250,2270 reach=done,response
func A05EncryptData() {
	p := sym.Param()
	n := keySizes[p/1000000]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	iv := vector("iv", p%1000000/10000)
	msg := sym.Str("msg", length(p%10000/10, 200))
	act, response := action(p % 10)
	want := spec.AesEncryptData(key, ksn, iv, []byte(msg), response)
	got, err := aes.EncryptData(key, ksn, iv, msg, aesType(n), act)
	same(got, err, want, "encrypted data")
	sym.Out("ct", got)
	sym.Reach("done")
	if response {
		sym.Reach("response")
	}
}

// A05, decryption half: parameter as above with the ciphertext's length.
//
//sym:prop A05 quick=0,2,11,150,160,161,162,163,170,320,330,10160,20160,90170,90171,160160,170160,170171,170320,180170,250160,330160,1000000,1000160,1000162,1090170,1170320,1180160,2000000,2000160,2000162,2090170,2170320,2180160,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2121,2130,2140,2151,2160,2171,2180,2190,2201,2210,2220,1012001,1172070,1172160,1172220,2012010,2172080,2172160,2172220,340160,410160,650161,990170,1340160,2340161 thorough=0-3,10-500/10,10160,20160,30160,40160,50160,60160,70160,80160,90160-90163,100160,110160,120160,130160,140160,150160,160160,170010-170500/10,180160,190160,250160,330160,1000000-1000003,1000010-1000500/10,1010160,1090170,1170010-1170500/10,1180160,2000000-2000003,2000010-2000500/10,2010160,2090170,2170010-2170500/10,2180160,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2121,2130,2140,2151,2160,2171,2180,2190,2201,2210,2220,1012001,1172070,1172160,1172220,2012010,2172080,2172160,2172220,340160,410160,650161,990170,1340160,2340161,2230,2250,2270 reach=done,response
func A05DecryptData() {
	p := sym.Param()
	n := keySizes[p/1000000]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	iv := vector("iv", p%1000000/10000)
	ct := sym.Bytes("ct", length(p%10000/10, 200))
	act, response := action(p % 10)
	want := spec.AesDecryptData(key, ksn, iv, ct, response)
	got, err := aes.DecryptData(key, ksn, ct, iv, aesType(n), act)
	same([]byte(got), err, want, "decrypted data")
	sym.Out("pt", got)
	sym.Reach("done")
	if response {
		sym.Reach("response")
	}
}

// A06: parameter as for A05.
//
//sym:prop A06 quick=0,2,10,150,160,161,162,170,320,330,10160,90170,90171,160160,170160,170320,180170,330160,1000000,1000160,1090170,1170320,1180160,2000000,2000160,2090170,2170320,2180160,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2121,2130,2140,2151,2160,2171,2180,2190,2201,2210,2220,1012001,1172070,1172160,1172220,2012010,2172080,2172160,2172220,340160,410160,650161,990170,1340160,2340161 thorough=0-3,10-500/10,10160,20160,30160,40160,50160,60160,70160,80160,90160-90163,100160,110160,120160,130160,140160,150160,160160,170010-170500/10,180160,190160,250160,330160,1000000-1000003,1000010-1000500/10,1010160,1090170,1170010-1170500/10,1180160,2000000-2000003,2000010-2000500/10,2010160,2090170,2170010-2170500/10,2180160,2000,2011,2020,2031,2040,2050,2061,2070,2080,2091,2100,2110,2121,2130,2140,2151,2160,2171,2180,2190,2201,2210,2220,1012001,1172070,1172160,1172220,2012010,2172080,2172160,2172220,340160,410160,650161,990170,1340160,2340161,2230,2250,2270 reach=done
func A06RoundTrip() {
	p := sym.Param()
	n := keySizes[p/1000000]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	iv := vector("iv", p%1000000/10000)
	msg := sym.Str("msg", length(p%10000/10, 200))
	act, _ := action(p % 10)
	ct, err := aes.EncryptData(spec.Clone(key), spec.Clone(ksn), cloneOrNil(iv), msg, aesType(n), act)
	sym.Assert(err == nil, "encryption fails on valid input")
	if err != nil {
		return
	}
	pt, err := aes.DecryptData(key, ksn, ct, iv, aesType(n), act)
	same([]byte(pt), err, spec.ZeroPad([]byte(msg), 16), "decryption of encrypted data")
	sym.Out("ct", ct)
	sym.Reach("done")
}

// A07: parameter is 10000*key size index + 100*PAN length + PIN length.
//
//sym:prop A07 quick=1204-1212,1304-1312,1404-1412,1504-1512,1604-1612,1704-1712,1804-1812,1904-1912,11204-11212,11604-11612,11904-11912,21204-21212,21604-21612,21904-21912 reach=done
func A07PinBlock() {
	p := sym.Param()
	n := keySizes[p/10000]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	pan := digits("pan", p/100%100)
	pin := digits("pin", p%100)
	got, err := aes.EncryptPin(spec.Clone(key), spec.Clone(ksn), pin, pan, aesType(n))
	sym.Assert(err == nil, "PIN encryption fails on valid input")
	if err != nil {
		return
	}
	sym.Assert(len(got) == 16, "encrypted PIN is not one block")
	if len(got) != 16 {
		return
	}
	// undo both layers and compare the plain-text PIN field
	k := spec.AesPinKey(key, ksn)
	f := spec.AESinv(k, spec.Xor(spec.ISO4PanField(pan), spec.AESinv(k, got)))
	want := spec.ISO4Field(pin, f[8:])
	sym.Assert(sym.EqBytes(f[:8], want[:8]), "wrong PIN field")
	// the fill is what the random source delivered
	ref := spec.ISO4(k, pin, pan, f[8:])
	sym.Assert(sym.EqBytes(got, ref), "wrong PIN block")
	sym.Out("ct", got)
	sym.Reach("done")
}

// A07: the random fill comes from the random source: two draws that differ
// give blocks that differ.
//
//sym:prop A07 quick=0-2 reach=differ
func A07Random() {
	n := keySizes[sym.Param()]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	a, err1 := aes.EncryptPin(spec.Clone(key), spec.Clone(ksn), "1234", "4111111111111111", aesType(n))
	b, err2 := aes.EncryptPin(spec.Clone(key), spec.Clone(ksn), "1234", "4111111111111111", aesType(n))
	if err1 != nil || err2 != nil || len(a) != 16 || len(b) != 16 {
		return // stated by A07PinBlock
	}
	k := spec.AesPinKey(key, ksn)
	pf := spec.ISO4PanField("4111111111111111")
	fa := spec.AESinv(k, spec.Xor(pf, spec.AESinv(k, a)))
	fb := spec.AESinv(k, spec.Xor(pf, spec.AESinv(k, b)))
	if sym.Fork(!sym.EqBytes(fa[8:], fb[8:])) {
		sym.Reach("differ")
	}
}

// A07: parameter is 100*PAN length + PIN length, at least one out of range.
//
//sym:prop A07 quick=1600-1603,1613-1620,4,104,1004-1012,1104-1112,2004-2012,2504,3204,3304,4004 reach=done
func A07Refused() {
	p := sym.Param()
	for _, n := range keySizes {
		got, err := aes.EncryptPin(sym.Bytes("key"+strconv.Itoa(n), n), sym.Bytes("ksn", 12), digits("pin", p%100), digits("pan", p/100), aesType(n))
		refused(got, err, "PIN or PAN of unsupported length")
	}
	sym.Reach("done")
}

// A08: parameter as for A07.
//
//sym:prop A08 quick=1204-1212,1304-1312,1404-1412,1504-1512,1604-1612,1704-1712,1804-1812,1904-1912,11204-11212,11604-11612,11904-11912,21204-21212,21604-21612,21904-21912 reach=done
func A08RoundTrip() {
	p := sym.Param()
	n := keySizes[p/10000]
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	pan := digits("pan", p/100%100)
	pin := digits("pin", p%100)
	ct, err := aes.EncryptPin(spec.Clone(key), spec.Clone(ksn), pin, pan, aesType(n))
	sym.Assert(err == nil, "PIN encryption fails on valid input")
	if err != nil {
		return
	}
	got, err := aes.DecryptPin(key, ksn, ct, pan, aesType(n))
	sym.Assert(err == nil, "decryption of an encrypted PIN fails")
	if err != nil {
		return
	}
	sym.Assert(len(got) == len(pin), "decrypted PIN has a different length")
	if len(got) == len(pin) {
		sym.Assert(sym.EqStr(got, pin), "decrypted PIN differs")
	}
	sym.Out("pin", got)
	sym.Reach("done")
}

// A09: parameter is 10000*operation + 100*key type class + key length. Class
// 0-5 names a type, 6 and above are arbitrary strings of 0, 5, 6, 7 and 8
// bytes that name none.
//
//sym:prop A09 quick=0-40,100-140,200-240,300-340,400-440,500-540,616,624,632,716,724,732,816,824,832,916,924,932,1016,1024,1032,10000-10040,10100-10140,10200-10240,10316,10424,10532,10616,10716,10816,10924,11032,20000-20040,20100-20140,20200-20240,20316,20424,20532,20616,20716,20816,20924,21032,30000-30040,30100-30140,30200-30240,30316,30424,30532,30616,30716,30816,30924,31032,40000-40040,40100-40140,40200-40240,40316,40424,40532,40616,40716,40816,40924,41032,50300-50340,50400-50440,50500-50540,50016,50124,50232,50616,50716,50816,50924,51032 reach=ok,refused
func A09KeyType() {
	p := sym.Param()
	n := p % 100
	class := p / 100 % 100
	names := []string{"AES128", "AES192", "AES256", "HMAC128", "HMAC192", "HMAC256"}
	kt := ""
	if class < 6 {
		kt = names[class]
	} else {
		kt = sym.Str("keytype", []int{0, 5, 6, 7, 8}[class-6])
		for _, s := range names {
			if len(s) == len(kt) {
				sym.Assume(!sym.EqStr(s, kt))
			}
		}
	}
	op := p / 10000
	key := sym.Bytes("key", n)
	ksn := sym.Bytes("ksn", 12)
	want := class < 3 && n == keySizes[class]
	if op == 5 {
		want = class >= 3 && class < 6 && n == keySizes[class-3]
	}
	var got []byte
	var err error
	switch op {
	case 0:
		got, err = aes.EncryptPin(key, ksn, "1234", "4111111111111111", kt)
	case 1:
		// any block that decrypts to a well-formed field
		ct := make([]byte, 16)
		if want {
			ct = spec.ISO4(spec.AesPinKey(key, ksn), "1234", "4111111111111111", sym.Bytes("fill", 8))
		}
		var s string
		s, err = aes.DecryptPin(key, ksn, ct, "4111111111111111", kt)
		got = []byte(s)
	case 2:
		got, err = aes.GenerateCMAC(key, ksn, sym.Str("msg", 5), kt, "request")
	case 3:
		got, err = aes.EncryptData(key, ksn, nil, sym.Str("msg", 5), kt, "request")
	case 4:
		var s string
		s, err = aes.DecryptData(key, ksn, sym.Bytes("ct", 16), nil, kt, "request")
		got = []byte(s)
	case 5:
		got, err = aes.GenerateHMAC(key, ksn, sym.Str("msg", 5), kt, "request")
	}
	if want {
		sym.Assert(err == nil, "matching key type refused")
		if err == nil {
			sym.Assert(len(got) > 0, "no result")
			sym.Reach("ok")
		}
		return
	}
	refused(got, err, "key type that does not match the key")
	sym.Reach("refused")
}
