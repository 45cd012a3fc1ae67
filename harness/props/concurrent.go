package props

import (
	"errors"
	"strconv"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg/server"
)

// Operations running at the same time. What they return and leave behind must
// be what the same operations do one after another, in some order.

const (
	opCreate      = iota
	opCreateOther // the same initial key with another key type setting
	opCreateSecond
	opDelete
	opAdvance
	opGet
	opList
	opEncrypt
	opMac
	opDecrypt
	opEncryptPin
	opDecryptPin
	opDeleteSecond
	opGetSecond
)

type scene struct {
	base, other, second server.BaseKey
	ik, ik2             string
	in                  server.UnifiedParams
}

// newScene has keys of the kind, and a counter that can be advanced left more
// times.
func newScene(kind, left int) scene {
	alg, kn, sn := kindKey(kind)
	ksn := make([]byte, sn)
	for i := range ksn {
		ksn[i] = byte(29*i + 7)
	}
	if alg == "aes" {
		ksn[8], ksn[9], ksn[10], ksn[11] = 0, 0, 0, 3
		if left == 1 {
			// one before the last: clearing is done in the low half
			ksn[8], ksn[9], ksn[10], ksn[11] = 0xff, 0xfe, 0x80, 0
		}
	} else {
		ksn[7], ksn[8], ksn[9] = ksn[7]&0xe0, 0, 3
		if left == 1 {
			ksn[7], ksn[8], ksn[9] = ksn[7]|0x1f, 0xf4, 0x00
		}
	}
	k0, k1 := make([]byte, kn), make([]byte, kn)
	for i := range k0 {
		k0[i], k1[i] = byte(17*i+1), byte(13*i+9)
	}
	c := scene{base: baseKeyFrom(kind, k0, ksn), second: baseKeyFrom(kind, k1, ksn)}
	c.other = c.base
	c.other.AlgorithmKey = "other"
	c.ik, c.ik2 = spec.Hex(specInitial(c.base)), spec.Hex(specInitial(c.second))
	c.in = server.UnifiedParams{Plaintext: sym.Str("data", 9), Action: "request", PIN: "1234", PAN: "4012345678909",
		Ciphertext: spec.Hex(sym.Bytes("cipher", 16))}
	return c
}

func machineText(m *server.Machine) string {
	if m == nil {
		return "none;"
	}
	return m.Algorithm + "," + m.AlgorithmKey + "," + m.BaseDerivativeKey + "," + m.KeySerialNumber + "," + m.InitialKey + "," + m.CurrentKSN + "," + m.TransactionKey + ";"
}

func errText(err error) string {
	switch {
	case err == nil:
		return "ok:"
	case errors.Is(err, server.ErrAlreadyExists):
		return "exists:"
	case errors.Is(err, server.ErrNotFound):
		return "unknown:"
	}
	return "error:"
}

// listText lists the two machines in a fixed order.
func (c *scene) listText(all []*server.Machine) string {
	a, b, more := "", "", 0
	for _, m := range all {
		switch {
		case m == nil:
			more++
		case m.InitialKey == c.ik && a == "":
			a = machineText(m)
		case m.InitialKey == c.ik2 && b == "":
			b = machineText(m)
		default:
			more++
		}
	}
	return a + "|" + b + "|" + strconv.Itoa(more)
}

// do performs an operation and tells what came of it.
func (c *scene) do(s server.Service, op int) string {
	switch op {
	case opCreate, opCreateOther, opCreateSecond:
		m := server.NewMachine([]server.BaseKey{c.base, c.other, c.second}[op])
		err := s.CreateMachine(m)
		if err != nil {
			return errText(err)
		}
		return errText(err) + machineText(m)
	case opDelete, opDeleteSecond:
		ik := c.ik
		if op == opDeleteSecond {
			ik = c.ik2
		}
		return errText(s.DeleteMachine(ik))
	case opAdvance:
		m, err := s.MakeNextKSN(c.ik)
		return errText(err) + machineText(m)
	case opGet, opGetSecond:
		ik := c.ik
		if op == opGetSecond {
			ik = c.ik2
		}
		m, err := s.GetMachine(ik)
		return errText(err) + machineText(m)
	case opList:
		return c.listText(s.GetMachines())
	}
	var r string
	var err error
	switch op {
	case opEncrypt:
		r, err = s.EncryptData(c.ik, c.in.Plaintext, c.in.Action, "")
	case opDecrypt:
		r, err = s.DecryptData(c.ik, c.in.Ciphertext, c.in.Action, "")
	case opMac:
		r, err = s.GenerateMac(c.ik, c.in.Plaintext, c.in.Action, "cmac")
	case opEncryptPin: // AES pads PIN blocks with random bytes, so its PINs are left out
		r, err = s.EncryptPin(c.ik, c.in.PIN, c.in.PAN, "ISO-0")
	case opDecryptPin:
		r, err = s.DecryptPin(c.ik, "1b9c1845eb993a7a", c.in.PAN, "ISO-1")
	}
	return errText(err) + r
}

func (c *scene) start(present bool) server.Service {
	s := newService()
	if present {
		if err := s.CreateMachine(server.NewMachine(c.base)); err != nil {
			sym.Assert(false, "creation from a valid base key fails")
		}
	}
	return s
}

var orders = map[int][][]int{
	2: {{0, 1}, {1, 0}},
	3: {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}},
}

// together runs the operations at the same time and one after another.
func (c *scene) together(present bool, ops []int) {
	s := c.start(present)
	got := make([]string, len(ops)+1)
	var fs []func()
	for i, op := range ops {
		i, op := i, op
		fs = append(fs, func() { got[i] = c.do(s, op) })
	}
	sym.Par(fs...)
	got[len(ops)] = c.listText(s.GetMachines())
	fits := []bool{false}
	for _, o := range orders[len(ops)] {
		q := c.start(present)
		want := make([]string, len(ops)+1)
		for _, i := range o {
			want[i] = c.do(q, ops[i])
		}
		want[len(ops)] = c.listText(q.GetMachines())
		all := []bool{true}
		for i := range want {
			all = append(all, eqText(got[i], want[i]))
		}
		fits = append(fits, sym.And(all...))
	}
	sym.Assert(sym.Or(fits...), "operations running at the same time do not take effect one after another")
	sym.Reach("done")
}

// S08: an advance with another operation. Parameter is 100*kind + operation.
//
//sym:prop S08 quick=3-11,103-109 thorough=0,1,3-11,100,101,103-109,203-209,303-309 reach=done stress=1
func S08Advance() {
	p := sym.Param()
	c := newScene(p/100, 9)
	c.together(true, []int{opAdvance, p % 100})
}

// S08: two advances with another operation. Parameter is 100*kind + operation.
//
//sym:prop S08 quick=3-7,9,103-107 thorough=0,1,3-11,100,101,103-109 reach=done stress=1 secs=200
func S08Three() {
	p := sym.Param()
	c := newScene(p/100, 9)
	c.together(true, []int{opAdvance, opAdvance, p % 100})
}

// S08: the last counter goes to one of two advances. Parameter is the kind.
//
//sym:prop S08 quick=0,1 thorough=0-3 reach=done stress=1
func S08Last() {
	c := newScene(sym.Param(), 1)
	s := c.start(true)
	var e [2]error
	sym.Par(func() { _, e[0] = s.MakeNextKSN(c.ik) }, func() { _, e[1] = s.MakeNextKSN(c.ik) })
	sym.Assert((e[0] == nil) != (e[1] == nil), "the last serial number is not handed out exactly once")
	sym.Reach("done")
}

// S09: two operations. Parameter is 10000*present + 100*first + second.
//
//sym:prop S09 quick=0,1,2,3,5,6,102,103,105,202,203,205,206,212,213,306,10000-10003,10005,10006,10203,10205,10206,10303-10306,10506,10606 thorough=0-6,101-106,202-206,212,213,303-306,505,506,606,10000-10013,10101-10113,10202-10213,10303-10311,10505-10513,10606-10613 reach=done stress=1
func S09Pair() {
	p := sym.Param()
	c := newScene(1, 9)
	c.together(p/10000 == 1, []int{p / 100 % 100, p % 100})
}

// S09: three operations, in the two low digits each.
//
//sym:prop S09 quick=103,105,306,10304,20306 thorough=1,103,105,106,203,306,10003,10304,10306,20306,30405 reach=done stress=1 secs=200
func S09Three() {
	p := sym.Param()
	c := newScene(1, 9)
	c.together(p >= 10000, []int{p / 10000, p / 100 % 100, p % 100})
}

// S09: the repository by itself. Parameter is 10*first + second of store,
// store another object of the same key, store another key, find, list, delete;
// hundreds start with a stored machine.
//
//sym:prop S09 quick=0-5,11-15,22-25,33-35,44,45,55,100-105,111-115,122-125,133-135,144,145,155 reach=done stress=1
func S09Repository() {
	p := sym.Param()
	mk := func(k string, other string) *server.Machine {
		m := server.NewMachine(server.BaseKey{Algorithm: other})
		m.InitialKey = k
		return m
	}
	do := func(r server.Repository, op int) string {
		switch op {
		case 0:
			return errText(r.StoreMachine(mk("k", "a")))
		case 1:
			return errText(r.StoreMachine(mk("k", "b")))
		case 2:
			return errText(r.StoreMachine(mk("l", "c")))
		case 3:
			m, err := r.FindMachine("k")
			return errText(err) + machineText(m)
		case 4:
			a, n := "", 0
			for _, m := range r.FindAllMachines() {
				n++
				if m != nil && m.InitialKey == "k" {
					a = machineText(m)
				}
			}
			return a + strconv.Itoa(n)
		}
		return errText(r.DeleteMachine("k"))
	}
	start := func() server.Repository {
		r := server.NewRepositoryInMemory(nil)
		if p >= 100 {
			r.StoreMachine(mk("k", "z"))
		}
		return r
	}
	ops := []int{p / 10 % 10, p % 10}
	r := start()
	var got [3]string
	sym.Par(func() { got[0] = do(r, ops[0]) }, func() { got[1] = do(r, ops[1]) })
	got[2] = do(r, 4)
	fits := false
	for _, o := range orders[2] {
		q := start()
		var want [3]string
		for _, i := range o {
			want[i] = do(q, ops[i])
		}
		want[2] = do(q, 4)
		fits = fits || got == want
	}
	sym.Assert(fits, "operations running at the same time do not take effect one after another")
	sym.Reach("done")
}
