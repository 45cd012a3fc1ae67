package props

import (
	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg/des"
)

// D01: parameter is the serial number's length.
//
//sym:prop D01 quick=0-10 reach=done
func D01InitialKey() {
	bdk := sym.Bytes("bdk", 16)
	ksn := sym.Bytes("ksn", sym.Param())
	want := spec.TdesInitialKey(bdk, ksn)
	got, err := des.DerivationOfInitialKey(bdk, ksn)
	same(got, err, want, "initial key")
	sym.Out("ik", got)
	sym.Reach("done")
}

// D02: parameter is the serial number's length.
//
//sym:prop D02 quick=0-10 reach=done
func D02TransactionKey() {
	ik := sym.Bytes("ik", 16)
	ksn := sym.Bytes("ksn", sym.Param())
	want := spec.TdesTransactionKey(ik, ksn)
	got, err := des.DeriveCurrentTransactionKey(ik, ksn)
	same(got, err, want, "transaction key")
	sym.Out("key", got)
	sym.Reach("done")
}

// D03: parameter is 10*message length + action class.
//
//sym:prop D03 quick=0,2,10,12,70,80,81,82,83,90,91,150,160,170,240,243,1000,1011,1020,1031,1040,1050,1061,1070,1081,1090,1101,1110,1121,1130,1141,1150,1160,1171,1180,1190,1201,1210,1221,1230,1260,1271 thorough=0-3,10-13,20,30,40,50,60,70-73,80-83,90-93,100-330/10,400,480,640,1000,1011,1020,1031,1040,1050,1061,1070,1081,1090,1101,1110,1121,1130,1141,1150,1160,1171,1180,1190,1201,1210,1221,1230,1260,1271,1250,1280,1290,1310,1320 reach=done,response
func D03Mac() {
	key := sym.Bytes("key", 16)
	msg := sym.Str("msg", length(sym.Param()/10, 100))
	act, response := action(sym.Param() % 10)
	want := spec.TdesMAC(key, []byte(msg), response)
	got, err := des.GenerateMac(key, msg, act)
	same(got, err, want, "MAC")
	sym.Out("mac", got)
	sym.Reach("done")
	if response {
		sym.Reach("response")
	}
}

// D04: parameter is 1000*IV class + 10*message length + action class.
//
//sym:prop D04 quick=0,2,11,70,80,81,82,83,90,160,170,240,1080,2080,5090,5091,8090,8160,9090,9091,9160,10090,17170,20080,500,511,520,531,540,550,560,571,580,590,601,610,621,630,640,651,660,671,680,690,701,710,720,9501,9570,9660,9720,34090,41160,65090,101160,258090 thorough=0-3,10-240/10,1010-1240/10,2080,3080,4080,5080-5083,6080,7080,8080,9010-9400/10,10080,11080,12080,17080-17083,25080,500,511,520,531,540,550,560,571,580,590,601,610,621,630,640,651,660,671,680,690,701,710,720,9501,9570,9660,9720,34090,41160,65090,101160,258090,731,751,760,770 reach=done,response
func D04EncryptData() {
	p := sym.Param()
	key := sym.Bytes("key", 16)
	iv := vector("iv", p/1000)
	msg := sym.Str("msg", length(p%1000/10, 50))
	act, response := action(p % 10)
	want := spec.TdesEncryptData(key, iv, []byte(msg), response)
	got, err := des.EncryptData(key, iv, msg, act)
	same(got, err, want, "encrypted data")
	sym.Out("ct", got)
	sym.Reach("done")
	if response {
		sym.Reach("response")
	}
}

// D04, decryption half. The ciphertext is stated as the encryption of an
// arbitrary block sequence, which covers every ciphertext of whole blocks
// because TDES is a permutation; partial blocks are arbitrary bytes.
//
//sym:prop D04 quick=0,2,11,70,80,81,82,83,90,160,170,240,1080,2080,5090,5091,8090,8160,9090,9091,9160,10090,17170,20080,500,511,520,531,540,550,560,571,580,590,601,610,621,630,640,651,660,671,680,690,701,710,720,9501,9570,9660,9720,34090,41160,65090,101160,258090 thorough=0-3,10-240/10,1010-1240/10,2080,3080,4080,5080-5083,6080,7080,8080,9010-9400/10,10080,11080,12080,17080-17083,25080,500,511,520,531,540,550,560,571,580,590,601,610,621,630,640,651,660,671,680,690,701,710,720,9501,9570,9660,9720,34090,41160,65090,101160,258090,731,751,760,770 reach=done,response
func D04DecryptData() {
	p := sym.Param()
	key := sym.Bytes("key", 16)
	iv := vector("iv", p/1000)
	ct := sym.Bytes("ct", length(p%1000/10, 50))
	act, response := action(p % 10)
	want := spec.TdesDecryptData(key, iv, ct, response)
	got, err := des.DecryptData(key, ct, iv, act)
	same([]byte(got), err, want, "decrypted data")
	sym.Out("pt", got)
	sym.Reach("done")
	if response {
		sym.Reach("response")
	}
}

// D05: parameter is 1000*IV class + 10*message length + action class.
//
//sym:prop D05 quick=0,10,70,80,81,82,90,160,170,1080,5090,5091,8160,9090,9091,10090,17170,20080,500,511,520,531,540,550,560,571,580,590,601,610,621,630,640,651,660,671,680,690,701,710,720,9501,9570,9660,9720,34090,41160,65090,101160,258090 thorough=0-3,10-240/10,1010-1240/10,2080,3080,4080,5080-5083,6080,7080,8080,9010-9400/10,10080,11080,12080,17080-17083,25080,500,511,520,531,540,550,560,571,580,590,601,610,621,630,640,651,660,671,680,690,701,710,720,9501,9570,9660,9720,34090,41160,65090,101160,258090,731,751,760,770 reach=done
func D05RoundTrip() {
	p := sym.Param()
	key := sym.Bytes("key", 16)
	iv := vector("iv", p/1000)
	n := length(p%1000/10, 50)
	msg := sym.Str("msg", n)
	act, _ := action(p % 10)
	ct, err := des.EncryptData(spec.Clone(key), cloneOrNil(iv), msg, act)
	sym.Assert(err == nil, "encryption fails on valid input")
	if err != nil {
		return
	}
	pt, err := des.DecryptData(key, ct, iv, act)
	same([]byte(pt), err, spec.ZeroPad([]byte(msg), 8), "decryption of encrypted data")
	sym.Out("ct", ct)
	sym.Reach("done")
}

func cloneOrNil(b []byte) []byte {
	if b == nil {
		return nil
	}
	return spec.Clone(b)
}
