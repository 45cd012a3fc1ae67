package props

import (
	"errors"
	"strconv"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/server"
)

// kind of machine: 0 TDES, 1-3 AES with a key of that size.
func kindKey(kind int) (alg string, klen, slen int) {
	if kind == 0 {
		return "des", 16, 10
	}
	return "aes", keySizes[kind-1], 12
}

// fewBits clears all counter bits but the low three, to keep derivations short.
func fewBits(ksn []byte, alg string) []byte {
	n := len(ksn)
	ksn[n-1] &= 7
	ksn[n-2] = 0
	if alg == "aes" {
		ksn[n-3], ksn[n-4] = 0, 0
	} else {
		ksn[n-3] &= 0xe0
	}
	return ksn
}

// baseKey is an arbitrary base key; the names of its inputs start with name.
func baseKey(name string, kind int) server.BaseKey {
	alg, kn, sn := kindKey(kind)
	return baseKeyFrom(kind, sym.Bytes(name+".bdk", kn), fewBits(sym.Bytes(name+".ksn", sn), alg))
}

func baseKeyFrom(kind int, bdk, ksn []byte) server.BaseKey {
	alg, kn, _ := kindKey(kind)
	at := ""
	if kind > 0 {
		at = aesType(kn)
	}
	return server.BaseKey{Algorithm: alg, AlgorithmKey: at, BaseDerivativeKey: spec.Hex(bdk), KeySerialNumber: spec.Hex(ksn)}
}

func newService() server.Service { return server.NewService(server.NewRepositoryInMemory(nil)) }

func specInitial(b server.BaseKey) []byte {
	if b.Algorithm == "aes" {
		return spec.AesInitialKey(pkg.HexDecode(b.BaseDerivativeKey), pkg.HexDecode(b.KeySerialNumber))
	}
	return spec.TdesInitialKey(pkg.HexDecode(b.BaseDerivativeKey), pkg.HexDecode(b.KeySerialNumber))
}

func specTransaction(alg string, ik, ksn []byte) []byte {
	if alg == "aes" {
		return spec.AesTransactionKey(ik, ksn)
	}
	return spec.TdesTransactionKey(ik, ksn)
}

// state is what a machine must look like.
type state struct {
	server.BaseKey
	ik, ksn, tk string
}

func fresh(b server.BaseKey) state {
	ik := specInitial(b)
	return state{b, spec.Hex(ik), b.KeySerialNumber, spec.Hex(specTransaction(b.Algorithm, ik, pkg.HexDecode(b.KeySerialNumber)))}
}

// advanced is the state after an advance.
func advanced(s state) (state, error) {
	ksn := pkg.HexDecode(s.ksn)
	var err error
	if s.Algorithm == "aes" {
		ksn, err = pkg.GenerateNextAesKsn(ksn)
	} else {
		ksn, err = pkg.GenerateNextDesKsn(ksn)
	}
	if err != nil {
		return s, err
	}
	s.ksn = spec.Hex(ksn)
	s.tk = spec.Hex(specTransaction(s.Algorithm, pkg.HexDecode(s.ik), ksn))
	return s, nil
}

// observed is the state a machine is in.
func observed(m *server.Machine) state {
	return state{m.BaseKey, m.InitialKey, m.CurrentKSN, m.TransactionKey}
}

func eqText(a, b string) bool { return len(a) == len(b) && sym.EqStr(a, b) }

func isState(m *server.Machine, s state) bool {
	return m != nil && sym.And(eqText(m.Algorithm, s.Algorithm), eqText(m.AlgorithmKey, s.AlgorithmKey),
		eqText(m.BaseDerivativeKey, s.BaseDerivativeKey), eqText(m.KeySerialNumber, s.KeySerialNumber),
		eqText(m.InitialKey, s.ik), eqText(m.CurrentKSN, s.ksn), eqText(m.TransactionKey, s.tk))
}

// stored checks that the service holds exactly the given machines.
func stored(s server.Service, want []state, what string) {
	all := s.GetMachines()
	sym.Assert(len(all) == len(want), what+": wrong number of machines")
	for _, w := range want {
		m, err := s.GetMachine(w.ik)
		sym.Assert(err == nil && isState(m, w), what+": machine is not found in its state")
		in := []bool{false}
		for _, x := range all {
			in = append(in, isState(x, w))
		}
		sym.Assert(sym.Or(in...), what+": machine is not listed in its state")
	}
}

// create makes a machine that must be accepted.
func create(s server.Service, b server.BaseKey) (state, bool) {
	return createFrom(s, server.NewMachine(b))
}

func createFrom(s server.Service, m *server.Machine) (state, bool) {
	want := fresh(m.BaseKey)
	err := s.CreateMachine(m)
	sym.Assert(err == nil, "creation from a valid base key fails")
	if err == nil {
		sym.Assert(isState(m, want), "created machine has a wrong state")
	}
	return want, err == nil
}

// S01: parameter is the kind of machine; with 10 added the caller's machine
// carries arbitrary derived values already.
//
//sym:prop S01 quick=0-3,10-13 reach=done
func S01Create() {
	k := sym.Param() % 10
	s := newService()
	b := baseKey("m", k)
	// the serial number in any letter case
	t := []byte(b.KeySerialNumber)
	up := sym.Bytes("upper", len(t))
	for i := range t {
		t[i] = sym.IteByte(sym.And(up[i]&1 == 1, t[i] >= 'a'), t[i]-32, t[i])
	}
	b.KeySerialNumber = string(t)
	m := server.NewMachine(b)
	if sym.Param() >= 10 {
		m.InitialKey, m.TransactionKey = text("left.ik", 0, 2*len(b.BaseDerivativeKey)), text("left.tk", 0, 32)
		m.CurrentKSN = spec.Hex(sym.Bytes("left.ksn", len(t)/2))
		if size("nonhex", 0, 1) == 1 {
			m.CurrentKSN = sym.Str("left.text", len(t))
		}
	}
	want, ok := createFrom(s, m)
	if !ok {
		return
	}
	stored(s, []state{want}, "after creation")
	m, err := s.GetMachine(want.ik)
	if err == nil && m != nil {
		sym.Out("ik", m.InitialKey)
		sym.Out("tk", m.TransactionKey)
	}
	sym.Reach("done")
}

// S01: creation from arbitrary texts. Parameter is 100*case + length.
//
//sym:prop S01 quick=0-6,108,132,133,148,149,150,164,165,203,216,219,220,221,224,225,226,300,416,424,432,512,520,524,600 thorough=0-8,100-102,108,124,131-134,148,149,150,164,165,200-230,300,416,424,432,512,520,524,600 reach=done
func S01Refused() {
	n := sym.Param() % 100
	s := newService()
	k := size("kind", 0, 1, 2, 3)
	b := baseKey("k"+strconv.Itoa(k), k)
	bad := true
	switch sym.Param() / 100 {
	case 0: // any other algorithm
		b.Algorithm = sym.Str("algorithm", n)
		if n == 3 {
			sym.Assume(sym.And(b.Algorithm != "des", b.Algorithm != "aes"))
		}
	case 1: // base key text of any length that contains something else than hex, or of an unusable length
		b.BaseDerivativeKey = ascii("bdktext", n)
		if n%2 == 0 && n > 0 {
			b.BaseDerivativeKey = "g" + b.BaseDerivativeKey[1:]
		}
	case 2: // serial number of any length
		b.KeySerialNumber = ascii("ksntext", n)
		if n%2 == 0 && n > 0 {
			b.KeySerialNumber = b.KeySerialNumber[:n-1] + "z"
		}
		bad = k > 0 // TDES pads what there is of a serial number
	case 3: // no machine
		err := s.CreateMachine(nil)
		sym.Assert(err != nil, "no machine at all is accepted")
		stored(s, nil, "after a refused creation")
		sym.Reach("done")
		return
	case 4: // base key of n bytes
		b.BaseDerivativeKey = spec.Hex(sym.Bytes("bdk"+strconv.Itoa(n), n))
		bad = !(n == 16 || k > 0 && (n == 24 || n == 32))
	case 5: // serial number of n digits
		b.KeySerialNumber = spec.Hex(fewBits(sym.Bytes("ksn"+strconv.Itoa(n), n/2), b.Algorithm))
		bad = k > 0 && n < 16
		if k > 0 && n > 24 {
			return
		}
	case 6: // empty texts
		b.BaseDerivativeKey, b.KeySerialNumber = "", ""
	}
	m := server.NewMachine(b)
	err := s.CreateMachine(m)
	ik, err1 := server.InitialKey(server.UnifiedParams{Algorithm: b.Algorithm, BKD: b.BaseDerivativeKey, KSN: b.KeySerialNumber})
	tk, err2 := server.TransactionKey(server.UnifiedParams{Algorithm: b.Algorithm, IK: ik, KSN: b.KeySerialNumber})
	if bad {
		sym.Assert(err != nil, "creation from unusable values succeeds")
	} else {
		sym.Assert((err == nil) == (err1 == nil && err2 == nil), "creation does not succeed exactly when both derivations do")
	}
	if err != nil {
		stored(s, nil, "after a refused creation")
	} else {
		stored(s, []state{{b, ik, b.KeySerialNumber, tk}}, "after creation")
	}
	sym.Reach("done")
}

// S02: parameter is 10*kind + number of advances; thousands pass another
// machine object (0), the same one (1), a fresh look-up (2) or another one
// with other settings (3).
//
//sym:prop S02 quick=0-1,1000-1001,2000-2001,3000-3001,10-11,1010-1011,2010-2011,3010-3011,21,1021,2021,3021,31,1031,2031,3031 thorough=0-9,1000-1009,2000-2009,3000-3009,10-17,1010-1017,2010-2017,3010-3017,20-25,1020-1025,2020-2025,3020-3025,30-35,1030-1035,2030-2035,3030-3035 reach=done
func S02Duplicate() {
	p := sym.Param()
	k, n := p/10%100, p%10
	s := newService()
	b := baseKey("m", k)
	m := server.NewMachine(b)
	want := fresh(b)
	err := s.CreateMachine(m)
	sym.Assert(err == nil, "creation from a valid base key fails")
	if err != nil {
		return
	}
	for i := 0; i < n; i++ {
		_, err := s.MakeNextKSN(want.ik)
		var e2 error
		want, e2 = advanced(want)
		sym.Assert(err == nil && e2 == nil, "advance fails")
		if err != nil || e2 != nil {
			return
		}
	}
	stored(s, []state{want}, "before the duplicate")
	dup := m
	switch p / 1000 {
	case 0:
		dup = server.NewMachine(b)
	case 2:
		dup, err = s.GetMachine(want.ik)
		if err != nil {
			return
		}
	case 3:
		b.AlgorithmKey = sym.Str("other", 6)
		// every serial number of the same initial key will do
		x := pkg.HexDecode(b.KeySerialNumber)
		x[len(x)-1] = sym.Byte("last") & 7
		b.KeySerialNumber = spec.Hex(x)
		dup = server.NewMachine(b)
	}
	err = s.CreateMachine(dup)
	sym.Assert(err != nil && errors.Is(err, server.ErrAlreadyExists), "duplicate is not reported as already existing")
	stored(s, []state{want}, "after the duplicate")
	_, err = s.MakeNextKSN(want.ik)
	next, e2 := advanced(want)
	sym.Assert(err == nil && e2 == nil, "advance fails")
	if err == nil && e2 == nil {
		stored(s, []state{next}, "after the duplicate and an advance")
	}
	sym.Reach("done")
}

// S03: parameter is 10*kind + number of advances.
//
//sym:prop S03 quick=1,2,11-13,21,31 thorough=1-9,11-19,21-26,31-36 reach=done
func S03Advance() {
	k, n := sym.Param()/10, sym.Param()%10
	s := newService()
	want, ok := create(s, baseKey("m", k))
	if !ok {
		return
	}
	for i := 0; i < n; i++ {
		m, err := s.MakeNextKSN(want.ik)
		var e2 error
		want, e2 = advanced(want)
		sym.Assert(err == nil && e2 == nil, "advance fails although counters are left")
		if err != nil || e2 != nil {
			return
		}
		sym.Assert(isState(m, want), "advance returns another state than the next serial number with its key")
		stored(s, []state{want}, "after an advance")
	}
	sym.Out("tk", want.tk)
	sym.Reach("done")
}

// S03: near and at the end of the counter. Parameter is the kind.
//
//sym:prop S03 quick=0-3 reach=exhausted,next secs=200
func S03Exhausted() {
	k := sym.Param()
	s := newService()
	alg, kn, sn := kindKey(k)
	ksn := sym.Bytes("ksn", sn)
	// the top half of the counter bits is set, and a few low ones may be
	if alg == "aes" {
		ksn[8], ksn[9], ksn[10] = 0xff, []byte{0xff, 0xfe}[size("below", 0, 1)], 0
		ksn[11] &= 3
		if ksn[9] == 0xfe {
			ksn[11] &= 1
		}
	} else {
		ksn[7] |= 0x1f
		ksn[8] = []byte{0xf8, 0xf0}[size("below", 0, 1)]
		ksn[9] &= 3
		if ksn[8] == 0xf0 {
			ksn[9] &= 1
		}
	}
	want, ok := create(s, baseKeyFrom(k, sym.Bytes("bdk", kn), ksn))
	if !ok {
		return
	}
	for i := 0; i < 2; i++ {
		m, err := s.MakeNextKSN(want.ik)
		next, e2 := advanced(want)
		sym.Assert((err == nil) == (e2 == nil), "advance does not succeed exactly when a counter is left")
		if (err == nil) != (e2 == nil) {
			return
		}
		if err != nil {
			sym.Assert(m == nil, "machine returned together with an error")
			stored(s, []state{want}, "after the counter is exhausted")
			sym.Reach("exhausted")
			return
		}
		want = next
		sym.Assert(isState(m, want), "advance returns another state than the next serial number with its key")
		sym.Reach("next")
	}
}

// S04: parameter is 1000*sizes of the arguments + 100*operation + 10*kind +
// variant: PIN format ISO-1 (0), empty (1), or any other (2, 3); MAC type
// cmac (0), hmac (1) or any other (2).
//
//sym:prop S04 quick=200-203,210,220,230,300-303,310,320,330,400,401,402,410-412,420-422,430-432,500,510,520,530,600,610,620,630,1200-1203,1210,1211,1220,1300-1303,1310,1311,1400,1401,1410,1411,1421,1431,1500,1510,1600,1610,2200-2203,2210,2211,2230,2300-2303,2310,2311,2400,2401,2410,2411,2421,2431,2500,2510,2600,2610,3200-3203,3210,3300-3303,3310,3400,3410,3411,3500,3510,3600,3610,4200-4203,4210,4300-4303,4310,4400,4401,4410,4411,4500,4520,4600,4620,5200-5203,5210,5300-5303,5310 thorough=200-203,210-213,220-223,230-233,300-303,310-313,320-323,330-333,400-402,410-412,420-422,430-432,500,510,520,530,600,610,620,630,1200-1203,1210-1213,1220-1223,1230-1233,1300-1303,1310-1313,1320-1323,1330-1333,1400-1402,1410-1412,1420-1422,1430-1432,1500,1510,1520,1530,1600,1610,1620,1630,2200-2203,2210-2213,2220-2223,2230-2233,2300-2303,2310-2313,2320-2323,2330-2333,2400-2402,2410-2412,2420-2422,2430-2432,2500,2510,2520,2530,2600,2610,2620,2630,3200-3203,3210-3213,3220-3223,3230-3233,3300-3303,3310-3313,3320-3323,3330-3333,3400-3402,3410-3412,3420-3422,3430-3432,3500,3510,3520,3530,3600,3610,3620,3630,4200-4203,4210-4213,4220-4223,4230-4233,4300-4303,4310-4313,4320-4323,4330-4333,4400-4402,4410-4412,4420-4422,4430-4432,4500,4510,4520,4530,4600,4610,4620,4630,5200-5203,5210-5213,5220-5223,5230-5233,5300-5303,5310-5313,5320-5323,5330-5333 reach=done
func S04Operations() {
	z := sym.Param() / 1000
	p := sym.Param() % 1000
	op, k, v := p/100, p/10%10, p%10
	pinLen, panLen := []int{4, 12, 5, 8, 11, 13}[z], []int{16, 19, 12, 13, 15, 11}[z]
	dataLen, blockLen, ivLen := []int{9, 0, 40, 1, 300}[z%5], []int{16, 8, 48, 13, 304}[z%5], []int{16, 8, 0, 5, 20}[z%5]
	s := newService()
	b := baseKey("m", k)
	want, ok := create(s, b)
	if !ok {
		return
	}
	if size("advance", 0, 1) == 1 {
		// what the state after an advance must be is S03
		m, err := s.MakeNextKSN(want.ik)
		if err != nil || m == nil {
			return
		}
		want = observed(m)
	}
	q := server.UnifiedParams{Algorithm: b.Algorithm, AlgorithmKey: b.AlgorithmKey, TK: want.tk, KSN: want.ksn}
	at := sym.Rewind(-1)
	var got string
	var err error
	switch op {
	case 2, 3:
		q.PIN, q.PAN = digits("pin", pinLen), digits("pan", panLen)
		f := "ISO-1"
		q.Format = f
		switch v {
		case 1:
			f, q.Format = "", "ISO-0"
		case 2:
			f = []string{"ISO-0", "ISO-2", "ISO-3", "ISO-4"}[size("format", 0, 1, 2, 3)]
			q.Format = f
		case 3:
			f = ascii("formattext", 5)
			q.Format = f
		}
		if op == 2 {
			got, err = s.EncryptPin(want.ik, q.PIN, q.PAN, f)
			break
		}
		if k == 0 {
			q.PIN = spec.Hex(spec.TDES(spec.TdesPinKey(pkg.HexDecode(want.tk)), sym.Bytes("field", 8)))
		} else {
			key := spec.AesPinKey(pkg.HexDecode(want.tk), pkg.HexDecode(want.ksn))
			q.PIN = spec.Hex(iso4Block(key, sym.Bytes("field16", 16), q.PAN))
		}
		got, err = s.DecryptPin(want.ik, q.PIN, q.PAN, f)
	case 4:
		q.Plaintext, q.Action = sym.Str("data", dataLen), text("action", 8, 7)
		q.MacType = "cmac"
		if v == 1 {
			q.MacType = "hmac"
			if k > 0 {
				q.AlgorithmKey = hmacType(keySizes[k-1])
			}
		} else if v == 2 {
			q.MacType = text("mactype", 0, 4, 5)
			sym.Assume(sym.And(q.MacType != "cmac", q.MacType != "hmac"))
		}
		got, err = s.GenerateMac(want.ik, q.Plaintext, q.Action, q.MacType)
	case 5:
		q.Plaintext, q.Action, q.IV = sym.Str("data", dataLen), text("action", 8, 7), hexField("iv", ivLen)
		got, err = s.EncryptData(want.ik, q.Plaintext, q.Action, q.IV)
	case 6:
		q.Ciphertext, q.Action, q.IV = hexField("data", blockLen), text("action", 8, 7), hexField("iv", ivLen)
		got, err = s.DecryptData(want.ik, q.Ciphertext, q.Action, q.IV)
	}
	sym.Rewind(at)
	w, werr := libCall(op, q)
	sameText(got, err, w, werr, opNames[op])
	if err == nil && werr == nil {
		sym.Out("result", got)
	}
	stored(s, []state{want}, "after an operation")
	sym.Reach("done")
}

// S05: any history of the given length over two machines, whose base keys may
// also be the same. Parameter is 10*kinds + length; kinds 0 is two arbitrary
// TDES machines, 1 two arbitrary AES machines, 2 one of each; kinds 3 and 4
// are TDES and AES machines with fixed base keys.
//
//sym:prop S05 quick=2,12,22,23,33,34 thorough=2,3,12,13,22,23,32-35,42-44 reach=done secs=240
func S05History() {
	p := sym.Param()
	s := newService()
	kinds := [][]int{{0, 0}, {1, 1}, {0, 1}, {0, 0}, {1, 1}}[p/10]
	var ops []int
	for step := 0; step < p%10; step++ {
		ops = append(ops, sym.Conc(sym.Int("op"+strconv.Itoa(step), 0, 7)))
	}
	var base [2]server.BaseKey
	var st [2]state
	one := kinds[0] == kinds[1] && size("same", 0, 1) == 1 // both name the same machine
	for i, k := range kinds {
		alg, kn, sn := kindKey(k)
		bdk, ksn := sym.Bytes("bdk"+strconv.Itoa(i), kn), sym.Bytes("ksn"+strconv.Itoa(i), sn)
		if p/10 >= 3 {
			for j := range bdk {
				bdk[j] = byte(17*j + i)
			}
			for j := range ksn {
				ksn[j] = byte(29*j + 5)
			}
		}
		base[i] = baseKeyFrom(k, bdk, fewBits(ksn, alg))
		if one && i == 1 {
			// another serial number of the same key
			other := pkg.HexDecode(base[0].KeySerialNumber)
			other[sn-1] = ksn[sn-1]
			base[1] = base[0]
			base[1].KeySerialNumber = spec.Hex(other)
		}
		st[i] = fresh(base[i])
	}
	if !one {
		sym.Assume(!eqText(st[0].ik, st[1].ik))
	}
	var live []state
	find := func(i int) int {
		for j, m := range live {
			if one || m.ik == st[i].ik {
				return j
			}
		}
		return -1
	}
	for _, op := range ops {
		i := op % 2
		j := find(i)
		switch op / 2 {
		case 0:
			err := s.CreateMachine(server.NewMachine(base[i]))
			if j >= 0 {
				sym.Assert(err != nil && errors.Is(err, server.ErrAlreadyExists), "existing machine is created again")
			} else {
				sym.Assert(err == nil, "creation of a machine that does not exist fails")
				live = append(live, st[i])
			}
		case 1:
			sym.Assert(s.DeleteMachine(st[i].ik) == nil, "deletion fails")
			if j >= 0 {
				live = append(append([]state{}, live[:j]...), live[j+1:]...)
			}
		case 2:
			m, err := s.MakeNextKSN(st[i].ik)
			if j < 0 {
				sym.Assert(err != nil, "machine that does not exist is advanced")
			} else {
				sym.Assert(err == nil && m != nil, "advance fails")
				if err != nil || m == nil {
					return
				}
				// that the key is the one of the next number is S03
				next, _ := advanced(live[j])
				live[j].ksn, live[j].tk = next.ksn, m.TransactionKey
				sym.Assert(isState(m, live[j]), "advance does not lead to the next number")
			}
		case 3:
			m, err := s.GetMachine(st[i].ik)
			if j < 0 {
				sym.Assert(err != nil && m == nil, "machine that does not exist is found")
			} else {
				sym.Assert(err == nil && isState(m, live[j]), "machine is not found in its state")
			}
		}
	}
	stored(s, live, "after the history")
	for i := range st {
		if find(i) < 0 {
			m, err := s.GetMachine(st[i].ik)
			sym.Assert(err != nil && m == nil, "machine that does not exist is found")
		}
	}
	sym.Reach("done")
}

// S05: the same machine object is used again after a deletion. Parameter is
// 10*kind + advances before.
//
//sym:prop S05 quick=0-2,10-12,21,31 thorough=0-6,10-16,20-23,30-33 reach=done
func S05Again() {
	k, n := sym.Param()/10, sym.Param()%10
	s := newService()
	b := baseKey("m", k)
	m := server.NewMachine(b)
	want := fresh(b)
	if err := s.CreateMachine(m); err != nil {
		sym.Assert(false, "creation from a valid base key fails")
		return
	}
	for i := 0; i < n; i++ {
		s.MakeNextKSN(want.ik)
	}
	s.DeleteMachine(want.ik)
	stored(s, nil, "after deletion")
	err := s.CreateMachine(m)
	sym.Assert(err == nil, "deleted machine cannot be created again")
	if err == nil {
		stored(s, []state{want}, "after the second creation")
	}
	sym.Reach("done")
}

// S05: many machines at once. Parameter is 100*kind + number of machines; one
// of them, whichever, is deleted, advanced or created again.
//
//sym:prop S05 quick=9,17,33,117,133 thorough=9,17,33,65,117,133,217,317 reach=done
func S05Many() {
	k, n := sym.Param()/100, sym.Param()%100
	s := newService()
	alg, kn, sn := kindKey(k)
	var live []state
	base := func(i int) server.BaseKey {
		bdk, ksn := make([]byte, kn), make([]byte, sn)
		for j := range bdk {
			bdk[j] = byte(17*j + 31*i)
		}
		for j := range ksn {
			ksn[j] = byte(29*j + i)
		}
		return baseKeyFrom(k, bdk, fewBits(ksn, alg))
	}
	for i := 0; i < n; i++ {
		b := base(i)
		err := s.CreateMachine(server.NewMachine(b))
		sym.Assert(err == nil, "creation of one more machine fails")
		live = append(live, fresh(b))
	}
	stored(s, live, "after the creations")
	w := sym.Conc(sym.Int("which", 0, n-1))
	ik := live[w].ik
	switch size("op", 0, 1, 2) {
	case 0:
		sym.Assert(s.DeleteMachine(ik) == nil, "deletion fails")
		live = append(append([]state{}, live[:w]...), live[w+1:]...)
	case 1:
		_, err := s.MakeNextKSN(ik)
		sym.Assert(err == nil, "advance fails")
		live[w], _ = advanced(live[w])
	case 2:
		err := s.CreateMachine(server.NewMachine(base(w)))
		sym.Assert(errors.Is(err, server.ErrAlreadyExists), "existing machine is created again")
	}
	stored(s, live, "after the operation")
	sym.Reach("done")
}

// S06: parameter is 1000*operation + 100*kind + length of the name.
//
//sym:prop S06 quick=0-40,100-140,1000-1040,1132,2000-2040,2132,3000,3031-3033,3132,4000,4031-4033,4132,5000,5031-5033,5132,6000,6031-6033,6132,7000,7031-7033,7132 reach=done
func S06Unknown() {
	p := sym.Param()
	n, k := p%100, p/100%10
	s := newService()
	want, ok := create(s, baseKey("m", k))
	if !ok {
		return
	}
	ik := sym.Str("name", n)
	if n == len(want.ik) {
		sym.Assume(ik != want.ik) // another letter case is another name
	}
	var err error
	res := ""
	switch p / 1000 {
	case 0:
		m, e := s.GetMachine(ik)
		err = e
		sym.Assert(m == nil, "machine returned for an unknown name")
	case 1:
		m, e := s.MakeNextKSN(ik)
		err = e
		sym.Assert(m == nil, "machine returned for an unknown name")
	case 2:
		res, err = s.EncryptPin(ik, digits("pin", 4), digits("pan", 16), "ISO-0")
	case 3:
		res, err = s.DecryptPin(ik, hexField("pinblock", 8), digits("pan", 16), "ISO-0")
	case 4:
		res, err = s.GenerateMac(ik, sym.Str("data", 8), "request", "cmac")
	case 5:
		res, err = s.EncryptData(ik, sym.Str("data", 8), "request", hexField("iv", 8))
	case 6:
		res, err = s.DecryptData(ik, hexField("ct", 8), "request", hexField("iv", 8))
	case 7: // deletion of an unknown machine may or may not be an error
		s.DeleteMachine(ik)
		err = server.ErrNotFound
	}
	sym.Assert(err != nil, "operation on an unknown machine succeeds")
	sym.Assert(err == nil || errors.Is(err, server.ErrNotFound), "operation on an unknown machine does not report that it is not found")
	sym.Assert(res == "", "result for an unknown machine")
	stored(s, []state{want}, "after an operation on an unknown machine")
	sym.Reach("done")
}

// window leaves three counter bits open, at bit 3*w; the top one is zero or
// one, the ones below are all zero, or ones (as many as a usable counter can have).
func window(ksn []byte, alg string, w int, ones bool) []byte {
	top := size("top", 0, 1) == 1
	n, bits, most := len(ksn), 21, 6
	if alg == "aes" {
		bits, most = 32, 12
	}
	for i := 0; i < bits; i++ {
		m := byte(1) << (i % 8)
		switch {
		case i/3 == w:
		case i == bits-1 && top:
			ksn[n-1-i/8] |= m
		case i/3 < w && ones && i >= 3*w-most:
			ksn[n-1-i/8] |= m
		default:
			ksn[n-1-i/8] &^= m
		}
	}
	return ksn
}

// S03: parameter is 100*kind + 10*ones below + place of the open bits.
//
//sym:prop S03 quick=0-6,11-16,100-110,121-130,200,205,210,221,225,230,300,305,310,321,325,330 thorough=0-6,11-16,100-110,121-130,200-210,221-230,300-310,321-330 reach=done secs=200
func S03Window() {
	p := sym.Param()
	k, ones, w := p/100, p%100 > 10, p%100
	if k == 0 && ones {
		w -= 10
	} else if ones {
		w -= 20
	}
	s := newService()
	alg, kn, sn := kindKey(k)
	want, ok := create(s, baseKeyFrom(k, sym.Bytes("bdk", kn), window(sym.Bytes("ksn", sn), alg, w, ones)))
	if !ok {
		return
	}
	m, err := s.MakeNextKSN(want.ik)
	next, e2 := advanced(want)
	sym.Assert((err == nil) == (e2 == nil), "advance does not succeed exactly when a counter is left")
	if (err == nil) != (e2 == nil) || err != nil {
		return
	}
	sym.Assert(isState(m, next), "advance returns another state than the next serial number with its key")
	stored(s, []state{next}, "after an advance")
	sym.Reach("done")
}
