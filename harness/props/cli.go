package props

import (
	"strconv"
	"strings"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/server"
)

// ---- the command line tool's operations and their flags

type cliFlag struct {
	name string
	of   func(q *server.UnifiedParams) *string
	need string // "both", "des", "aes", or "" for one with a default
}

type cliOp struct {
	flag  string
	flags []cliFlag
}

func fBDK(q *server.UnifiedParams) *string    { return &q.BKD }
func fKSN(q *server.UnifiedParams) *string    { return &q.KSN }
func fIK(q *server.UnifiedParams) *string     { return &q.IK }
func fTK(q *server.UnifiedParams) *string     { return &q.TK }
func fPIN(q *server.UnifiedParams) *string    { return &q.PIN }
func fPAN(q *server.UnifiedParams) *string    { return &q.PAN }
func fFormat(q *server.UnifiedParams) *string { return &q.Format }
func fPlain(q *server.UnifiedParams) *string  { return &q.Plaintext }
func fCipher(q *server.UnifiedParams) *string { return &q.Ciphertext }
func fAction(q *server.UnifiedParams) *string { return &q.Action }
func fType(q *server.UnifiedParams) *string   { return &q.MacType }
func fIV(q *server.UnifiedParams) *string     { return &q.IV }

var cliOps = []cliOp{
	{"ik", []cliFlag{{"bdk", fBDK, "both"}, {"ksn", fKSN, "both"}}},
	{"tk", []cliFlag{{"ik", fIK, "both"}, {"ksn", fKSN, "both"}}},
	{"ep", []cliFlag{{"tk", fTK, "both"}, {"ksn", fKSN, "aes"}, {"pin", fPIN, "both"}, {"pan", fPAN, "both"}, {"format", fFormat, "des"}}},
	{"dp", []cliFlag{{"tk", fTK, "both"}, {"ksn", fKSN, "aes"}, {"pin", fPIN, "both"}, {"pan", fPAN, "both"}, {"format", fFormat, "des"}}},
	{"gm", []cliFlag{{"tk", fTK, "both"}, {"ksn", fKSN, "aes"}, {"data", fPlain, "both"}, {"action", fAction, ""}, {"type", fType, ""}}},
	{"en", []cliFlag{{"tk", fTK, "both"}, {"ksn", fKSN, "aes"}, {"iv", fIV, "both"}, {"data", fPlain, "both"}, {"action", fAction, ""}}},
	{"de", []cliFlag{{"tk", fTK, "both"}, {"ksn", fKSN, "aes"}, {"iv", fIV, "both"}, {"data", fCipher, "both"}, {"action", fAction, ""}}},
}

// cliParams are good parameters for an operation, with keys of kn bytes.
func cliParams(op int, alg string, kn int) server.UnifiedParams {
	q := server.UnifiedParams{Algorithm: alg, AlgorithmKey: aesType(kn), MacType: "cmac", Action: "request"}
	sn, bl := 10, 8
	if alg == "aes" {
		sn, bl = 12, 16
	}
	q.KSN = spec.Hex(fewBits(sym.Bytes("ksn", sn), alg))
	switch op {
	case 0:
		q.BKD = hexField("bdk", kn)
	case 1:
		q.IK = hexField("ik", kn)
	default:
		q.TK = hexField("tk", kn)
	}
	switch op {
	case 2:
		q.PIN, q.PAN, q.Format = digits("pin", 4), digits("pan", 16), "ISO-0"
	case 3:
		q.PAN, q.Format = digits("pan", 16), "ISO-0"
		if alg == "des" {
			k := spec.TdesPinKey(pkg.HexDecode(q.TK))
			q.PIN = spec.Hex(spec.TDES(k, sym.Bytes("field8", 8)))
		} else {
			k := spec.AesPinKey(pkg.HexDecode(q.TK), pkg.HexDecode(q.KSN))
			q.PIN = spec.Hex(iso4Block(k, sym.Bytes("field16", 16), q.PAN))
		}
	case 4, 5:
		q.Plaintext = printable("data", 9)
		q.IV = hexField("iv", bl)
	case 6:
		q.Ciphertext, q.IV = hexField("cipher", bl), hexField("iv", bl)
	}
	return q
}

func result(out string) bool { return strings.Contains(out, "RESULT") }

// agrees checks a run against the library's result.
func agrees(out string, code int, op int, q server.UnifiedParams) {
	what := opNames[op]
	want, werr := libCall(op, q)
	if op == 2 && q.Algorithm == "aes" && werr == nil {
		// the fill is random: look into the block
		sym.Assert(code == 0, what+": exit status of a successful operation is not 0")
		sym.Assert(len(out) == len("RESULT: ")+33 && out[:8] == "RESULT: " && out[len(out)-1] == '\n', what+": output is not one result line")
		if len(out) == 41 {
			pin, err := aes.DecryptPin(pkg.HexDecode(q.TK), pkg.HexDecode(q.KSN), pkg.HexDecode(out[8:40]), q.PAN, q.AlgorithmKey)
			sym.Assert(err == nil && eqText(pin, q.PIN), what+": the block does not hold the PIN")
		}
		return
	}
	if werr != nil {
		sym.Assert(code != 0, what+": the operation fails but the exit status is 0")
		sym.Assert(len(out) > 0, what+": a failure without a message")
		sym.Assert(!result(out), what+": the operation fails but a result is printed")
		return
	}
	sym.Assert(code == 0, what+": exit status of a successful operation is not 0")
	want = "RESULT: " + want + "\n"
	sym.Assert(len(out) == len(want), what+": output is not one result line")
	if len(out) == len(want) {
		sym.Assert(sym.EqStr(out, want), what+": a wrong result is printed")
	}
}

// otherValue is a value for a flag of an operation that is not selected: text,
// or something that would do there but is not what the selected one is given.
func otherValue(o cliOp, f cliFlag, alg string, kn int, good bool, action string) string {
	name := "other." + o.flag + "." + f.name
	if !good {
		return printable(name, 3)
	}
	sn, bl := 10, 8
	if alg == "aes" {
		sn, bl = 12, 16
	}
	switch f.name {
	case "bdk", "ik", "tk":
		return hexField(name, kn)
	case "ksn":
		return hexField(name, sn)
	case "iv":
		return hexField(name, bl)
	case "pin", "pan":
		return digits(name, map[string]int{"pin": 5, "pan": 15}[f.name])
	case "format":
		return "ISO-3"
	case "type":
		return "hmac"
	case "action":
		if action == "request" {
			return "response"
		}
		return "request"
	}
	if o.flag == "de" {
		return hexField(name, bl)
	}
	return printable(name, 9)
}

func bit(name string) string {
	b := sym.Byte(name)
	sym.Assume(sym.Or(b == '0', b == '1'))
	return string([]byte{b})
}

// C01: parameter is 100*operation + 10*algorithm + size of key; operation 7 is
// the version. Main flags of later operations are arbitrary, and so are the
// values of all other operations' flags.
//
//sym:prop C01 quick=0,10,11,12,100,110,111,112,200,210,211,212,300,310,311,312,400,410,411,412,500,510,511,512,600,610,611,612,700 reach=done
func C01Dispatch() {
	p := sym.Param()
	op, alg, kn := p/100, "des", 16
	if p/10%10 == 1 {
		alg, kn = "aes", keySizes[p%10]
	}
	var args []string
	if op == 7 {
		args = append(args, "-v", "-algorithm="+printable("alg", 3))
	} else {
		args = append(args, "-algorithm="+alg, "-algorithm.key_type="+"aes"+strconv.Itoa(8*kn))
	}
	q := cliParams(op%7, alg, kn)
	q.Action = []string{"request", "response"}[size("action", 0, 1)]
	good := size("others", 0, 1) == 1
	for i, o := range cliOps {
		switch {
		case i == op:
			args = append(args, "-"+o.flag)
		case i > op:
			args = append(args, "-"+o.flag+"="+bit("main."+o.flag))
		case op == 7:
			args = append(args, "-"+o.flag+"="+bit("main."+o.flag))
		case i%2 == 0:
			args = append(args, "-"+o.flag+"=false")
		}
		for _, f := range o.flags {
			var v string
			if i == op {
				v = *f.of(&q)
			} else {
				v = otherValue(o, f, alg, kn, good, q.Action)
			}
			args = append(args, "-"+o.flag+"."+f.name+"="+v)
		}
	}
	out, code := sym.CLI(args...)
	if op == 7 {
		sym.Assert(code == 0 && strings.Contains(out, dukpt.Version), "the version is not printed")
		sym.Assert(!result(out), "an operation runs together with the version")
		sym.Reach("done")
		return
	}
	agrees(out, code, op, q)
	if op != 2 || alg != "aes" { // a random fill differs in every process
		sym.Out("stdout", out)
	}
	sym.Out("code", code)
	sym.Reach("done")
}

// C02: which of the operation's flags are given at all is arbitrary. Parameter
// is 10*operation + algorithm; operation 7 is none.
//
//sym:prop C02 quick=0,1,10,11,20,21,30,31,40,41,50,51,60,61,70,71 reach=refused
func C02Missing() {
	p := sym.Param()
	op, alg := p/10, []string{"des", "aes"}[p%10]
	q := cliParams(op%7, alg, 16)
	args := []string{"-algorithm=" + alg}
	missing := op == 7
	others := op != 7 && size("others", 0, 1) == 1
	for i, o := range cliOps {
		if others && i != op {
			// what is missing is there for the other operations
			for _, f := range o.flags {
				args = append(args, "-"+o.flag+"."+f.name+"="+otherValue(o, f, alg, 16, true, q.Action))
			}
		}
		if i != op && (op != 7 || i%2 == p%2) {
			continue
		}
		if i == op {
			args = append(args, "-"+o.flag)
		}
		for _, f := range o.flags {
			v := *f.of(&q)
			if op == 7 {
				v = "1234"
			}
			form := "form." + f.name
			if op == 7 {
				form = "form" // one for all
			}
			switch size(form, 0, 1, 2) {
			case 0:
				args = append(args, "-"+o.flag+"."+f.name+"="+v)
			case 1:
				args = append(args, "-"+o.flag+"."+f.name+"=")
				missing = missing || f.need == "both" || f.need == alg || f.name == "action" && o.flag == "gm" || f.name == "type" && alg == "aes"
			case 2:
				missing = missing || f.need == "both" || f.need == alg
			}
		}
	}
	sym.Assume(missing)
	out, code := sym.CLI(args...)
	sym.Assert(code != 0, "a required parameter is missing but the exit status is 0")
	sym.Assert(len(out) > 0, "a required parameter is missing and no message is printed")
	sym.Assert(!result(out), "a required parameter is missing but a result is printed")
	sym.Out("code", code)
	sym.Reach("refused")
}

// C02: parameters that are there but no good. Parameter is 100*operation +
// 10*algorithm + what is wrong.
//
//sym:prop C02 quick=0-2,10-14,100-102,110-114,200-202,210-214,300-302,310-314,400-403,410-415,500-502,510-514,600-602,610-614 reach=refused
func C02Invalid() {
	p := sym.Param()
	op, alg := p/100, []string{"des", "aes"}[p/10%10]
	q := cliParams(op, alg, 16)
	typ := "aes128"
	bad := true
	switch p % 10 {
	case 0: // another algorithm
		q.Algorithm = printable("algorithm", 0, 2, 3, 4)
		if len(q.Algorithm) == 3 {
			sym.Assume(sym.And(q.Algorithm != "des", q.Algorithm != "aes"))
		}
	case 1: // a key that is not one
		n := []int{5, 7}[size("keylen", 0, 1)]
		k := spec.Hex(sym.Bytes("badkey"+strconv.Itoa(n), n))
		q.BKD, q.IK, q.TK = k, k, k
	case 2: // text where hex digits belong
		k := "g" + printable("text", 31)
		q.BKD, q.IK, q.TK = k, k, k
	case 3: // another action; only the tool's MACs insist on a known one
		q.Action = printable("action", 6, 7)
		sym.Assume(sym.And(q.Action != "request", q.Action != "response"))
		bad = op == 4
	case 4: // another key type
		typ = printable("type", 0, 3, 6)
		sym.Assume(!strings.EqualFold(typ, "aes128"))
		sym.Assume(!strings.EqualFold(typ, "aes192"))
		sym.Assume(!strings.EqualFold(typ, "aes256"))
		bad = op >= 2 || typ == ""
	case 5: // another kind of MAC
		q.MacType = printable("mac", 0, 4)
		sym.Assume(sym.And(q.MacType != "cmac", q.MacType != "hmac"))
	}
	args := []string{"-algorithm=" + q.Algorithm, "-algorithm.key_type=" + typ, "-" + cliOps[op].flag}
	for _, f := range cliOps[op].flags {
		args = append(args, "-"+cliOps[op].flag+"."+f.name+"="+*f.of(&q))
	}
	out, code := sym.CLI(args...)
	if !bad {
		agrees(out, code, op, q)
	} else {
		sym.Assert(code != 0, "an invalid parameter is accepted")
		sym.Assert(len(out) > 0, "an invalid parameter is refused without a message")
		sym.Assert(!result(out), "an invalid parameter leads to a result")
	}
	sym.Out("code", code)
	sym.Reach("refused")
}

// C03: parameter is 100*operation + 10*kind of MAC + size of key, 3 for the
// default.
//
//sym:prop C03 quick=200-203,300-303,400-403,410-413,500-503,600-603 reach=done
func C03KeyTypes() {
	p := sym.Param()
	op, v := p/100, p%10
	kn := 16
	if v < 3 {
		kn = keySizes[v]
	}
	q := cliParams(op, "aes", kn)
	q.Action = []string{"request", "response"}[size("action", 0, 1)]
	args := []string{"-algorithm=aes", "-" + cliOps[op].flag}
	if v < 3 {
		t := []byte("aes" + strconv.Itoa(8*kn))
		up := sym.Bytes("upper", 3)
		for i := range up {
			t[i] = sym.IteByte(up[i]&1 == 1, t[i]-32, t[i])
		}
		args = append(args, "-algorithm.key_type="+string(t))
	}
	if p/10%10 == 1 {
		q.MacType, q.AlgorithmKey = "hmac", hmacType(kn)
	}
	for _, f := range cliOps[op].flags {
		args = append(args, "-"+cliOps[op].flag+"."+f.name+"="+*f.of(&q))
	}
	out, code := sym.CLI(args...)
	if op != 3 { // an arbitrary block need not hold a PIN
		sym.Assert(code == 0, "a documented key type is refused")
	}
	agrees(out, code, op, q)
	sym.Reach("done")
}
