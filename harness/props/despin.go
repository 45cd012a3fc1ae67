package props

import (
	"strconv"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg/des"
)

// pinFormats are the documented formats with an 8-byte PIN block.
var pinFormats = []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4"}

// anyCase is s in arbitrary letter case.
func anyCase(name, s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = sym.IteByte(sym.Bool(name+strconv.Itoa(i)), c+32, c)
		}
	}
	return string(b)
}

func isISO0Family(f string) bool {
	switch f {
	case "ISO-0", "ISO-3", "ANSI", "ECI1", "VISA1", "VISA4":
		return true
	}
	return false
}

// blockOK states the layout a format prescribes for a clear PIN block.
func blockOK(f string, blk []byte, pin, pan string) bool {
	d := spec.Digits(pin)
	n := len(d)
	var nib [16]byte
	for i := range nib {
		nib[i] = blk[i/2] >> uint(4*(1-i%2)) & 15
	}
	var c []bool
	is := func(i int, v byte) { c = append(c, nib[i] == v) }
	if isISO0Family(f) {
		a := spec.Digits(pan[len(pan)-13 : len(pan)-1])
		for i := 0; i < 12; i++ {
			nib[4+i] ^= a[i]
		}
		ctl := byte(0)
		if f == "ISO-3" {
			ctl = 3
		}
		is(0, ctl)
		is(1, byte(n))
		for i := 0; i < 14; i++ {
			if i < n {
				is(2+i, d[i])
			} else if f == "ISO-3" {
				c = append(c, nib[2+i] >= 10)
			} else {
				is(2+i, 15)
			}
		}
		return sym.And(c...)
	}
	switch f {
	case "ISO-1", "ECI4", "ISO-2":
		ctl := byte(1)
		if f == "ISO-2" {
			ctl = 2
		}
		is(0, ctl)
		is(1, byte(n))
		for i := 0; i < 14; i++ {
			if i < n {
				is(2+i, d[i])
			} else if f == "ISO-2" {
				is(2+i, 15)
			}
		}
	case "ECI2":
		for i := 0; i < 4; i++ {
			is(i, d[i])
		}
	case "ECI3", "VISA2":
		m := n
		if m > 6 {
			m = 6
		}
		is(0, byte(m))
		for i := 0; i < 6; i++ {
			if i < m {
				is(1+i, d[i])
			} else {
				is(1+i, 0)
			}
		}
		if f == "VISA2" {
			for i := 7; i < 16; i++ {
				c = append(c, nib[i] <= 9)
			}
		}
	case "VISA3":
		for i := 0; i < n; i++ {
			is(i, d[i])
		}
		is(n, 15)
		for i := n + 2; i < 16; i++ {
			c = append(c, nib[i] == nib[n+1])
		}
	}
	return sym.And(c...)
}

// D06: parameter is 10000*format + 100*PAN length + PIN length.
//
//sym:prop D06 quick=1304-1312,1604-1612,1904-1912,11604-11612,10004-10012,21604-21612,31304-31312,31604-31612,31904-31912,41604-41612,51604-51612,61604-61612,71604-71612,81604-81612,91604-91612,101604-101612,111604-111612,121604-121612 reach=done
func D06Block() {
	p := sym.Param()
	f := pinFormats[p/10000]
	key := sym.Bytes("key", 16)
	pan := digits("pan", p/100%100)
	pin := digits("pin", p%100)
	got, err := des.EncryptPin(spec.Clone(key), pin, pan, anyCase("c", f))
	sym.Assert(err == nil, f+": PIN encryption fails on valid input")
	if err != nil {
		return
	}
	sym.Assert(len(got) == 8, f+": PIN block is not 8 bytes")
	if len(got) != 8 {
		return
	}
	blk := spec.TDESinv(spec.TdesPinKey(key), got)
	sym.Assert(blockOK(f, blk, pin, pan), f+": wrong PIN block layout")
	sym.Out("block", got)
	sym.Reach("done")
}

// D06: PINs shorter than 4 digits, short PANs and unknown formats are refused.
// Parameter as above; format 13 and above are arbitrary unknown names.
//
//sym:prop D06 quick=1600-1603,1004,1104,1204,11600-11603,21600-21603,31600-31603,31204,41600-41603,51600-51603,61600-61603,71600-71603,81600-81603,91600-91603,101600-101603,111600-111603,121600-121603,131604,141604,151604,161604,171604,1613,31613,41613,51613,91613,121613 reach=done
func D06Refused() {
	p := sym.Param()
	key := sym.Bytes("key", 16)
	pan := digits("pan", p/100%100)
	pin := digits("pin", p%100)
	f := ""
	if k := p / 10000; k < len(pinFormats) {
		f = anyCase("c", pinFormats[k])
	} else {
		n := []int{0, 4, 5, 6, 7}[k-len(pinFormats)]
		f = sym.Str("format", n)
		for _, g := range append([]string{"ISO-4"}, pinFormats...) {
			if len(g) == n {
				m := true
				for i := 0; i < n; i++ {
					c := f[i]
					m = sym.And(m, sym.Or(c == g[i], sym.And(g[i] >= 'A', c == g[i]+32)))
				}
				sym.Assume(!m)
			}
			for i := 0; i < n; i++ {
				sym.Assume(f[i] < 0x80)
			}
		}
	}
	got, err := des.EncryptPin(key, pin, pan, f)
	refused(got, err, "invalid PIN, PAN or format")
	sym.Reach("done")
}

// carried is the part of the PIN a format carries.
func carried(f, pin string) string {
	n := len(pin)
	if f == "ECI2" {
		n = 4
	}
	if (f == "ECI3" || f == "VISA2") && n > 6 {
		n = 6
	}
	return pin[:n]
}

// D07: parameter is 10000*format + 100*PAN length + PIN length.
//
//sym:prop D07 quick=1304-1312,1604-1612,1904-1912,11604-11612,10004-10012,21604-21612,31304-31312,31604-31612,31904-31912,41604-41612,51604-51612,61604-61612,71604-71612,81604-81612,91604-91612,101604-101612,111604-111612,121604-121612 reach=done
func D07RoundTrip() {
	p := sym.Param()
	f := pinFormats[p/10000]
	key := sym.Bytes("key", 16)
	pan := digits("pan", p/100%100)
	pin := digits("pin", p%100)
	what := f + " with " + strconv.Itoa(len(pin)) + " digits: "
	ct, err := des.EncryptPin(spec.Clone(key), pin, pan, anyCase("c", f))
	sym.Assert(err == nil, what+"encryption fails on valid input")
	if err != nil {
		return
	}
	got, err := des.DecryptPin(key, ct, pan, anyCase("d", f))
	sym.Assert(err == nil, what+"decryption of an encrypted PIN fails")
	if err != nil {
		return
	}
	want := carried(f, pin)
	sym.Assert(len(got) == len(want), what+"decrypted PIN has a different length")
	if len(got) == len(want) {
		sym.Assert(sym.EqStr(got, want), what+"decrypted PIN differs")
	}
	sym.Out("pin", got)
	sym.Reach("done")
}

// D08: parameter is 100*operation + key length.
//
//sym:prop D08 quick=0-15,17-40,100-115,117-140,200-215,217-240,300-315,317-340,400-415,417-440,500-515,517-540,600-615,617-640 reach=done
func D08KeyLength() {
	p := sym.Param()
	key := sym.Bytes("key", p%100)
	switch p / 100 {
	case 0:
		got, err := des.DerivationOfInitialKey(key, sym.Bytes("ksn", 10))
		refused(got, err, "initial key from a base key of wrong length")
	case 1:
		got, err := des.DeriveCurrentTransactionKey(key, sym.Bytes("ksn", 10))
		refused(got, err, "transaction key from an initial key of wrong length")
	case 2:
		got, err := des.EncryptPin(key, digits("pin", 4), digits("pan", 16), "ISO-0")
		refused(got, err, "PIN encryption with a key of wrong length")
	case 3:
		got, err := des.DecryptPin(key, sym.Bytes("ct", 8), digits("pan", 16), "ISO-1")
		refused([]byte(got), err, "PIN decryption with a key of wrong length")
	case 4:
		got, err := des.GenerateMac(key, sym.Str("msg", 12), sym.Str("action", 8))
		refused(got, err, "MAC with a key of wrong length")
	case 5:
		got, err := des.EncryptData(key, sym.Bytes("iv", 8), sym.Str("msg", 12), sym.Str("action", 8))
		refused(got, err, "data encryption with a key of wrong length")
	case 6:
		got, err := des.DecryptData(key, sym.Bytes("ct", 16), sym.Bytes("iv", 8), sym.Str("action", 8))
		refused([]byte(got), err, "data decryption with a key of wrong length")
	}
	sym.Reach("done")
}
