package props

import (
	"strconv"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
	"github.com/moov-io/dukpt/pkg/server"
)

// hexField is the hex text of n arbitrary bytes in lower case, or, for n < 0,
// arbitrary text of -n characters.
func hexField(name string, n int) string {
	if n < 0 {
		return ascii(name+"text"+strconv.Itoa(-n), -n)
	}
	return spec.Hex(sym.Bytes(name+strconv.Itoa(n), n))
}

// sameText checks a result of a unified call against the library's.
func sameText(got string, gerr error, want string, werr error, what string) {
	sym.Assert((gerr == nil) == (werr == nil), what+": error differs from the library's")
	if werr != nil {
		sym.Assert(got == "", what+": result returned together with an error")
		return
	}
	sym.Assert(len(got) == len(want), what+": wrong length")
	if gerr == nil && len(got) == len(want) {
		sym.Assert(sym.EqStr(got, want), what+": wrong value")
	}
}

func hexOf(b []byte, err error) (string, error) { return spec.Hex(b), err }

// libCall is the library operation a unified call names.
func libCall(op int, q server.UnifiedParams) (string, error) {
	h := pkg.HexDecode
	if q.Algorithm == "aes" {
		switch op {
		case 0:
			return hexOf(aes.DerivationOfInitialKey(h(q.BKD), h(q.KSN)))
		case 1:
			return hexOf(aes.DeriveCurrentTransactionKey(h(q.IK), h(q.KSN)))
		case 2:
			return hexOf(aes.EncryptPin(h(q.TK), h(q.KSN), q.PIN, q.PAN, q.AlgorithmKey))
		case 3:
			return aes.DecryptPin(h(q.TK), h(q.KSN), h(q.PIN), q.PAN, q.AlgorithmKey)
		case 4:
			switch q.MacType {
			case "cmac":
				return hexOf(aes.GenerateCMAC(h(q.TK), h(q.KSN), q.Plaintext, q.AlgorithmKey, q.Action))
			case "hmac":
				return hexOf(aes.GenerateHMAC(h(q.TK), h(q.KSN), q.Plaintext, q.AlgorithmKey, q.Action))
			}
			return "", server.ErrNotFound // any error
		case 5:
			return hexOf(aes.EncryptData(h(q.TK), h(q.KSN), h(q.IV), q.Plaintext, q.AlgorithmKey, q.Action))
		}
		return aes.DecryptData(h(q.TK), h(q.KSN), h(q.Ciphertext), h(q.IV), q.AlgorithmKey, q.Action)
	}
	switch op {
	case 0:
		return hexOf(des.DerivationOfInitialKey(h(q.BKD), h(q.KSN)))
	case 1:
		return hexOf(des.DeriveCurrentTransactionKey(h(q.IK), h(q.KSN)))
	case 2:
		return hexOf(des.EncryptPin(h(q.TK), q.PIN, q.PAN, q.Format))
	case 3:
		return des.DecryptPin(h(q.TK), h(q.PIN), q.PAN, q.Format)
	case 4:
		return hexOf(des.GenerateMac(h(q.TK), q.Plaintext, q.Action))
	case 5:
		return hexOf(des.EncryptData(h(q.TK), h(q.IV), q.Plaintext, q.Action))
	}
	return des.DecryptData(h(q.TK), h(q.Ciphertext), h(q.IV), q.Action)
}

var unified = []server.WrapperCall{server.InitialKey, server.TransactionKey, server.EncryptPin, server.DecryptPin, server.GenerateMac, server.EncryptData, server.DecryptData}
var opNames = []string{"initial key", "transaction key", "PIN encryption", "PIN decryption", "MAC", "data encryption", "data decryption"}

// S07: every field carries its own value. Parameter is 100*operation +
// 10*algorithm + variant: des 0 well-formed, 1 malformed; aes 0-2 well-formed
// with a key of that size, 3-5 with the HMAC key type, 6 malformed.
//
//sym:prop S07 quick=0,1,10-12,16,100,101,110-112,116,200-205,210-212,216,300-303,310-312,316,400,401,410-416,500,501,510-512,516,600,601,610-612,616 reach=done
func S07Dispatch() {
	p := sym.Param()
	op, alg, v := p/100, p/10%10, p%10
	kn, sn := 16, 10
	q := server.UnifiedParams{Algorithm: "des"}
	mal := v >= 6
	if alg == 1 {
		q.Algorithm = "aes"
		kn, sn = keySizes[v%3], 12
		q.AlgorithmKey = aesType(kn)
		if v >= 3 && v < 6 {
			q.AlgorithmKey = hmacType(kn)
		}
		q.MacType = text("mactype", 4, 5)
	} else {
		mal = v == 1
		q.AlgorithmKey, q.MacType = sym.Str("algkey", 6), sym.Str("mac", 4)
		q.Format = "ISO-0"
		if op == 2 || op == 3 {
			q.Format = []string{"ISO-0", "", "ISO-1", "ISO-2", "VISA4", "ECI2"}[v]
			mal = false
		}
	}
	q.BKD, q.KSN = hexField("bdk", kn), hexField("ksn", sn)
	q.IK, q.TK = hexField("ik", kn), hexField("tk", kn)
	if op == 1 {
		// few counter bits keep the derivation short
		b := sym.Bytes("ksnbytes", sn)
		b[sn-2], b[sn-3] = 0, b[sn-3]&0xe0
		if alg == 1 {
			b[sn-3], b[sn-4] = 0, 0
		}
		b[sn-1] &= 7
		q.KSN = spec.Hex(b)
	}
	q.PIN, q.PAN = digits("pin", 4), digits("pan", 16)
	if op == 3 {
		field := sym.Bytes("field", 8)
		if alg == 1 {
			k := spec.AesPinKey(pkg.HexDecode(q.TK), pkg.HexDecode(q.KSN))
			q.PIN = spec.Hex(iso4Block(k, sym.Bytes("field16", 16), q.PAN))
		} else {
			q.PIN = spec.Hex(spec.TDES(spec.TdesPinKey(pkg.HexDecode(q.TK)), field))
		}
	}
	q.Plaintext, q.Ciphertext = sym.Str("plain", 9), hexField("cipher", 16)
	q.Action = text("action", 8, 7)
	q.IV = hexField("iv", 8*(1+alg))
	if mal {
		bad := func(name string) string { return hexField(name, []int{-3, -4}[size(name+".len", 0, 1)]) }
		switch size("malformed", 0, 1, 2, 3) {
		case 0:
			q.BKD, q.IK, q.TK = bad("badkey"), bad("badkey"), bad("badkey")
		case 1:
			q.KSN = bad("badksn")
		case 2:
			q.IV = bad("badiv")
		case 3:
			q.Ciphertext, q.PIN = bad("badtext"), bad("badtext")
		}
	}
	at := sym.Rewind(-1)
	got, gerr := unified[op](q)
	sym.Rewind(at)
	want, werr := libCall(op, q)
	sameText(got, gerr, want, werr, opNames[op])
	if gerr == nil && werr == nil {
		sym.Out("result", got)
	}
	sym.Reach("done")
}

// S07: parameter is the length of the algorithm's name.
//
//sym:prop S07 quick=0-16 reach=refused
func S07Names() {
	n := sym.Param()
	a := sym.Str("algorithm", n)
	err := server.UnifiedParams{Algorithm: a}.ValidateAlgorithm()
	sym.Assert((err == nil) == sym.Or(sym.And(n == 3, a == "des"), sym.And(n == 3, a == "aes")), "wrong set of algorithm names")
	if err != nil {
		sym.Reach("refused")
	}
}
