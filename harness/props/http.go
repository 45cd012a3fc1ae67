package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"dukptverif/spec"
	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg/server"
)

// ---- a client that sees what a connection would

type answer struct {
	header http.Header
	status int
	body   []byte
}

func (a *answer) Header() http.Header { return a.header }

func (a *answer) WriteHeader(code int) {
	if a.status == 0 {
		a.status = code
	}
}

func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	a.body = append(a.body, b...)
	return len(b), nil
}

// failing reads as text and then fails.
type failing struct{ text io.Reader }

var errBroken = errors.New("connection reset")

func (f failing) Read(p []byte) (int, error) {
	n, err := f.text.Read(p)
	if err == io.EOF {
		err = errBroken
	}
	return n, err
}

func ask(h http.Handler, method, path string, header http.Header, body io.Reader) *answer {
	a := &answer{header: http.Header{}}
	if header == nil {
		header = http.Header{}
	}
	h.ServeHTTP(a, &http.Request{Method: method, URL: &url.URL{Path: path}, Header: header, Body: io.NopCloser(body), Host: "localhost"})
	a.WriteHeader(200)
	return a
}

func send(h http.Handler, method, path, body string) *answer {
	return ask(h, method, path, nil, strings.NewReader(body))
}

// object is the JSON object in the body.
func (a *answer) object(what string) map[string]any {
	var m map[string]any
	err := json.Unmarshal(a.body, &m)
	sym.Assert(err == nil && m != nil, what+": body is not a JSON object")
	return m
}

func isText(v any, want string) bool {
	s, ok := v.(string)
	return ok && eqText(s, want)
}

// ---- a service that records what it is asked

type call struct {
	op   string
	args []string
}

type recorder struct {
	calls   []call
	machine *server.Machine
	all     []*server.Machine
	result  string
	err     error
}

func (r *recorder) note(op string, args ...string) { r.calls = append(r.calls, call{op, args}) }

func (r *recorder) CreateMachine(m *server.Machine) error {
	r.note("CreateMachine", m.Algorithm, m.AlgorithmKey, m.BaseDerivativeKey, m.KeySerialNumber)
	if r.err == nil {
		m.InitialKey, m.CurrentKSN, m.TransactionKey = r.machine.InitialKey, r.machine.CurrentKSN, r.machine.TransactionKey
	}
	return r.err
}

func (r *recorder) GetMachine(ik string) (*server.Machine, error) {
	r.note("GetMachine", ik)
	return r.machine, r.err
}

func (r *recorder) GetMachines() []*server.Machine {
	r.note("GetMachines")
	return r.all
}

func (r *recorder) MakeNextKSN(ik string) (*server.Machine, error) {
	r.note("MakeNextKSN", ik)
	return r.machine, r.err
}

func (r *recorder) DeleteMachine(ik string) error {
	r.note("DeleteMachine", ik)
	return r.err
}

func (r *recorder) EncryptPin(ik, pin, pan, format string) (string, error) {
	r.note("EncryptPin", ik, pin, pan, format)
	return r.result, r.err
}

func (r *recorder) DecryptPin(ik, ciphertext, pan, format string) (string, error) {
	r.note("DecryptPin", ik, ciphertext, pan, format)
	return r.result, r.err
}

func (r *recorder) GenerateMac(ik, data, action, macType string) (string, error) {
	r.note("GenerateMac", ik, data, action, macType)
	return r.result, r.err
}

func (r *recorder) EncryptData(ik, data, action, iv string) (string, error) {
	r.note("EncryptData", ik, data, action, iv)
	return r.result, r.err
}

func (r *recorder) DecryptData(ik, ciphertext, action, iv string) (string, error) {
	r.note("DecryptData", ik, ciphertext, action, iv)
	return r.result, r.err
}

// ---- the documented routes

type route struct {
	method, path string
	ik           bool     // the path ends in an initial key
	fields       []string // of the request, in the order of the operation's arguments
	op           string
	result       string // field of the response
}

var routes = []route{
	{"GET", "/machines", false, nil, "GetMachines", "machines"},
	{"GET", "/machine", true, nil, "GetMachine", "machine"},
	{"POST", "/machine", false, []string{"Algorithm", "AlgorithmKey", "BaseDerivativeKey", "KeySerialNumber"}, "CreateMachine", "machine"},
	{"POST", "/generate_ksn", true, nil, "MakeNextKSN", "ksn"},
	{"POST", "/encrypt_pin", true, []string{"pin", "pan", "format"}, "EncryptPin", "encrypted"},
	{"POST", "/decrypt_pin", true, []string{"encrypted", "pan", "format"}, "DecryptPin", "decrypted"},
	{"POST", "/generate_mac", true, []string{"data", "action", "macType"}, "GenerateMac", "generated"},
	{"POST", "/encrypt_data", true, []string{"data", "action", "iv"}, "EncryptData", "encrypted"},
	{"POST", "/decrypt_data", true, []string{"data", "action", "iv"}, "DecryptData", "data"},
}

// printable is text that JSON writes as it is.
func printable(name string, of ...int) string {
	s := text(name, of...)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] >= ' ', s[i] < 0x7f, s[i] != '"', s[i] != '\\', s[i] != '<', s[i] != '>', s[i] != '&'))
	}
	return s
}

// long is printable text that is arbitrary at its ends.
func long(name string, n int) string {
	if n <= 40 {
		return printable(name, n)
	}
	return printable(name+".head", 20) + strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz", n/36+1)[:n-40] + printable(name+".tail", 20)
}

// keyText is an initial key as it can stand in a path.
func keyText(name string, of ...int) string {
	s := text(name, of...)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.Or(sym.And('0' <= s[i], s[i] <= '9'), sym.And('a' <= s[i], s[i] <= 'z'), sym.And('A' <= s[i], s[i] <= 'Z')))
	}
	return s
}

func machineOf(name string, n int) *server.Machine {
	m := &server.Machine{}
	for i, f := range []*string{&m.Algorithm, &m.AlgorithmKey, &m.BaseDerivativeKey, &m.KeySerialNumber, &m.InitialKey, &m.CurrentKSN, &m.TransactionKey} {
		k := name + strconv.Itoa(i)
		*f = printable(k, n)
	}
	return m
}

// shows checks a machine in a response.
func shows(v any, m *server.Machine) bool {
	o, ok := v.(map[string]any)
	return ok && sym.And(isText(o["Algorithm"], m.Algorithm), isText(o["AlgorithmKey"], m.AlgorithmKey),
		isText(o["BaseDerivativeKey"], m.BaseDerivativeKey), isText(o["KeySerialNumber"], m.KeySerialNumber),
		isText(o["InitialKey"], m.InitialKey), isText(o["CurrentKSN"], m.CurrentKSN), isText(o["TransactionKey"], m.TransactionKey))
}

// fill makes a request body with the values; style 1 adds blanks and a field
// nobody knows, style 2 reverses the order.
func fill(names, values []string, style int) string {
	out := "{"
	sep := ""
	if style == 1 {
		out = " {\n\t\"unknown\" : [1.5e3, {\"pin\": null}, true] "
		sep = " , "
	}
	for k := range names {
		i := k
		if style == 2 {
			i = len(names) - 1 - k
		}
		out += sep + "\"" + names[i] + "\":\"" + values[i] + "\""
		sep = ","
	}
	return out + "}"
}

// H01: parameter is 10*route + variant of the values' lengths, or of the body.
//
//sym:prop H01 quick=0,10-12,20-29,30-32,35,40-49,50-59,60-69,70-79,80-89 reach=done
func H01Route() {
	p := sym.Param()
	rt, v := routes[p/10], p%10
	n := []int{3, 1, 33, 8, 8, 70, 300, 1500, 5000, 70000}[v]
	r := &recorder{machine: machineOf("m", 4), result: long("result", n)}
	r.all = []*server.Machine{r.machine, machineOf("n", 3)}
	path := rt.path
	var want []string
	if rt.ik {
		ik := keyText("ik", min(n, 70))
		path += "/" + ik
		want = append(want, ik)
	}
	body := ""
	if len(rt.fields) > 0 {
		var values []string
		for i, f := range rt.fields {
			k := n + i
			if v == 1 && i != 0 {
				k = 0
			}
			values = append(values, long(f, k))
		}
		want = append(want, values...)
		body = fill(rt.fields, values, []int{0, 0, 0, 1, 2, 0, 1, 2, 0, 0}[v])
	}
	a := send(server.MakeHTTPHandler(r), rt.method, path, body)
	sym.Assert(len(r.calls) == 1 && r.calls[0].op == rt.op, "the route does not perform exactly its own operation")
	if len(r.calls) == 1 && r.calls[0].op == rt.op {
		ok := []bool{len(r.calls[0].args) == len(want)}
		for i, w := range want {
			ok = append(ok, eqText(r.calls[0].args[i], w))
		}
		sym.Assert(sym.And(ok...), "an argument is not the request's value")
	}
	sym.Assert(a.status == 200, "a successful operation is not answered with 200")
	sym.Assert(strings.HasPrefix(a.header.Get("Content-Type"), "application/json"), "the response is not declared to be JSON")
	o := a.object("response")
	sym.Assert(o["error"] == nil, "a successful response carries an error")
	switch rt.result {
	case "machines":
		l, ok := o["machines"].([]any)
		sym.Assert(ok && len(l) == 2 && sym.And(shows(l[0], r.all[0]), shows(l[1], r.all[1])), "the response does not list the machines")
	case "machine":
		m := *r.machine
		if rt.op == "CreateMachine" {
			m.Algorithm, m.AlgorithmKey, m.BaseDerivativeKey, m.KeySerialNumber = want[0], want[1], want[2], want[3]
			sym.Assert(isText(o["ik"], m.InitialKey), "the response does not carry the initial key")
		}
		sym.Assert(shows(o["machine"], &m), "the response does not carry the machine")
	case "ksn":
		sym.Assert(isText(o["ksn"], r.machine.CurrentKSN), "the response does not carry the serial number")
	default:
		sym.Assert(isText(o[rt.result], r.result), "the response does not carry the result")
	}
	sym.Out("body", a.body)
	sym.Reach("done")
}

// wide is text outside the plain range: any ASCII, or any two-byte character.
func wide(name string, form int) string {
	s := sym.Str(name, 2)
	if form == 3 {
		sym.Assume(sym.And(s[0] >= 0xc2, s[0] <= 0xdf, s[1] >= 0x80, s[1] <= 0xbf))
	} else {
		sym.Assume(sym.And(s[0] < 0x80, s[1] < 0x80))
	}
	return s
}

// H01: values that JSON must escape or that are not ASCII. Parameter is
// 10*route + form: 0 and 3 ASCII and two-byte characters in the response; in
// the request 1 numeric escapes, 2 short escapes, 4 a surrogate pair, 5
// two-byte characters.
//
//sym:prop H01 quick=10,13,22-25,30,33,40-45,50-55,60-65,70-75,80-85 reach=done
func H01Escaped() {
	p := sym.Param()
	rt, f := routes[p/10], p%10
	r := &recorder{machine: machineOf("m", 1), result: "r"}
	if f == 0 || f == 3 {
		r.result = wide("result", f)
	}
	if rt.result == "machine" {
		r.machine.InitialKey = r.result
	} else {
		r.machine.CurrentKSN = r.result
	}
	path := rt.path
	var want []string
	if rt.ik {
		path += "/k"
		want = append(want, "k")
	}
	var written []string
	at := size("field", 0, 1, 2)
	for i, n := range rt.fields {
		v := "v"
		w := v
		if i == at {
			switch f {
			case 1:
				v = wide(n, f)
				w = "\\u00" + spec.Hex([]byte(v[:1])) + "\\u00" + spec.Hex([]byte(v[1:]))
			case 2:
				v, w = "\"\\/\b\f\n\r\t", "\\\"\\\\\\/\\b\\f\\n\\r\\t"
			case 5:
				v = wide(n, 3)
				w = v
			case 4:
				v, w = "\U0001F511\u00e9", "\\uD83D\\udd11\\u00E9"
			}
		}
		want, written = append(want, v), append(written, w)
	}
	a := send(server.MakeHTTPHandler(r), rt.method, path, fill(rt.fields, written, 0))
	sym.Assert(len(r.calls) == 1 && r.calls[0].op == rt.op, "the route does not perform exactly its own operation")
	if len(r.calls) == 1 && r.calls[0].op == rt.op {
		ok := []bool{len(r.calls[0].args) == len(want)}
		for i, w := range want {
			ok = append(ok, eqText(r.calls[0].args[i], w))
		}
		sym.Assert(sym.And(ok...), "an argument is not the request's value")
	}
	sym.Assert(a.status == 200, "a successful operation is not answered with 200")
	o := a.object("response")
	switch rt.result {
	case "machine":
		m, _ := o["machine"].(map[string]any)
		sym.Assert(m != nil && isText(m["InitialKey"], r.result), "the response does not carry the machine")
	default:
		sym.Assert(isText(o[rt.result], r.result), "the response does not carry the result")
	}
	sym.Out("body", a.body)
	sym.Reach("done")
}

var methods = []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE"}

// H01: whatever is not in the table performs nothing. Parameter is 10*route +
// variant of the path.
//
//sym:prop H01 quick=0-2,10-12,20-22,30-32,40-42,50-52,60-62,70-72,80-82 reach=done
func H01Unrouted() {
	p := sym.Param()
	rt := routes[p/10]
	r := &recorder{machine: machineOf("m", 1), result: printable("result", 2)}
	method := methods[size("method", 0, 1, 2, 3, 4, 5)]
	path := rt.path
	ik := keyText("ik", 4)
	segments := 0
	switch p % 10 {
	case 0:
		path += "/" + ik
		segments = 1
	case 1:
	case 2:
		path += "/" + ik + "/" + ik
		segments = 2
	}
	known := false
	for _, x := range routes {
		if x.path == rt.path && x.method == method && (segments == 1) == x.ik && segments < 2 {
			known = true
		}
	}
	sym.Assume(!known)
	body := fill(rt.fields, []string{"a", "b", "c", "d"}, 0)
	a := send(server.MakeHTTPHandler(r), method, path, body)
	sym.Assert(len(r.calls) == 0, "a request outside the route table performs an operation")
	sym.Assert(a.status >= 400, "a request outside the route table is answered as a success")
	sym.Out("status", a.status)
	sym.Reach("done")
}

// failure is an error a service may return, and the status it stands for.
func failure() (error, int) {
	switch size("failure", 0, 1, 2, 3, 4, 5) {
	case 0:
		return server.ErrNotFound, 404
	case 1:
		return server.ErrAlreadyExists, 400
	case 2:
		return fmt.Errorf("machine %s: %w", printable("who", 5), server.ErrNotFound), 404
	case 3:
		return fmt.Errorf("machine %s: %w", printable("who", 5), server.ErrAlreadyExists), 400
	case 4:
		return fmt.Errorf("operation: %w", errors.New(printable("why", 7))), 500
	}
	return errors.New(printable("why", 7)), 500
}

// refusal checks an error response.
func refusal(a *answer, want int, text string, what string) {
	sym.Assert(a.status == want, what+" is answered with a wrong status")
	sym.Assert(strings.HasPrefix(a.header.Get("Content-Type"), "application/json"), what+": the response is not declared to be JSON")
	for k, v := range a.object(what) {
		switch {
		case k == "error":
			sym.Assert(v != nil && (text == "" || isText(v, text)), what+": the response does not carry the error")
		case v != nil:
			sym.Assert(isText(v, ""), what+": the response carries a result")
		}
	}
	_, told := a.object(what)["error"]
	sym.Assert(told, what+": the response has no error field")
}

// H02: a failing service. Parameter is the route.
//
//sym:prop H02 quick=1-8 reach=done
func H02Failure() {
	rt := routes[sym.Param()]
	r := &recorder{machine: machineOf("m", 2), result: printable("result", 6)}
	var want int
	r.err, want = failure()
	path := rt.path
	if rt.ik {
		path += "/" + keyText("ik", 4)
	}
	a := send(server.MakeHTTPHandler(r), rt.method, path, fill(rt.fields, []string{"a", "b", "c", "d"}, 0))
	sym.Assert(len(r.calls) == 1, "the operation is not performed once")
	refusal(a, want, r.err.Error(), "a failed operation")
	sym.Out("status", a.status)
	sym.Reach("done")
}

// H02: bodies that are not JSON. Parameter is 100*route + form: 0-9 that many
// arbitrary bytes, 10-19 a good body followed by that many, 20-29 a body cut
// short after so many bytes of its tail, 30 a connection that fails, 40 a
// value that is not text.
//
//sym:prop H02 quick=200-202,211,220-224,230,240-243,400-402,411,420-424,430,440-443,500-502,511,520-524,530,540-543,600-602,611,620-624,630,640-643,700-702,711,720-724,730,740-743,800-802,811,820-824,830,840-843 thorough=200-204,211-213,220-229,230-235,240-244,400-404,411-413,420-429,430-435,440-444,500-504,511-513,520-529,530-535,540-544,600-604,611-613,620-629,630-635,640-644,700-704,711-713,720-729,730-735,740-744,800-804,811-813,820-829,830-835,840-844 reach=done
func H02Body() {
	p := sym.Param()
	rt, f := routes[p/100], p%100
	r := &recorder{machine: machineOf("m", 1), result: printable("result", 2)}
	path := rt.path
	if rt.ik {
		path += "/" + keyText("ik", 2)
	}
	values := []string{printable("a", 2), printable("b", 1), printable("c", 1), printable("d", 1)}
	good := fill(rt.fields, values, 0)
	var body io.Reader
	switch f / 10 {
	case 0, 1:
		bad := sym.Bytes("bytes", f%10)
		if f >= 10 {
			bad = append([]byte(good), bad...)
		}
		sym.Assume(!json.Valid(bad))
		body = strings.NewReader(string(bad))
	case 2:
		body = strings.NewReader(good[:len(good)-1-f%10])
	case 3:
		body = failing{strings.NewReader(good[:len(good)-f%10])}
	case 4:
		other := []string{"12", "true", "[\"a\"]", "{\"a\":\"b\"}", "-0.5e1"}[f%10]
		out := "{"
		k := size("field", 0, 1, 2)
		for i, n := range rt.fields {
			if i > 0 {
				out += ","
			}
			if i == k {
				out += "\"" + n + "\":" + other
			} else {
				out += "\"" + n + "\":\"" + values[i] + "\""
			}
		}
		body = strings.NewReader(out + "}")
	}
	a := ask(server.MakeHTTPHandler(r), rt.method, path, nil, body)
	sym.Assert(len(r.calls) == 0, "an operation is performed on a body that cannot be read")
	sym.Assert(a.status >= 400, "a body that cannot be read is answered as a success")
	refusal(a, a.status, "", "a body that cannot be read")
	sym.Out("status", a.status)
	sym.Reach("done")
}

// origin is an Origin header; allowed tells whether it is one of those the
// server serves: secure pages and local ones.
func origin(name string) (h []string, allowed bool) {
	switch size(name+".form", 0, 1, 2, 3, 4, 5, 6) {
	case 0:
		return nil, false
	case 1:
		return []string{"https://" + printable(name, 0, 6)}, true
	case 2:
		return []string{"http://localhost:" + printable(name, 4)}, true
	case 5:
		n := []int{30, 60, 250, 2000}[size(name+".long", 0, 1, 2, 3)]
		return []string{"https://" + long(name+strconv.Itoa(n), n)}, true
	case 6:
		n := []int{15, 60, 250}[size(name+".long", 0, 1, 2)]
		return []string{"http://localhost:" + long(name+strconv.Itoa(n), n)}, true
	case 3:
		s := sym.Str(name+".9", 9)
		return []string{s}, s[:8] == "https://"
	}
	s := sym.Str(name+".18", 18)
	return []string{s}, sym.Or(s[:8] == "https://", s[:17] == "http://localhost:")
}

// H04: two requests, one after the other. Parameter is 20*first + second
// route: 0-8 of the table, 9 ping, 10 and 11 pre-flight requests.
//
//sym:prop H04 quick=0-11,21,34,47,67,80,105,126,149,161,189,191,200,211,229,231 thorough=0-11,20-31,40-51,60-71,80-91,100-111,120-131,140-151,160-171,180-191,200-211,220-231 reach=done
func H04Origin() {
	p := sym.Param()
	r := &recorder{machine: machineOf("m", 1), all: []*server.Machine{}, result: printable("result", 2)}
	h := server.MakeHTTPHandler(r)
	for i, k := range []int{p / 20, p % 20} {
		method, path, body := "GET", "/ping", ""
		switch {
		case k == 10:
			method, path = "OPTIONS", "/machines"
		case k == 11:
			method, path = "OPTIONS", "/encrypt_pin/"+keyText("ik", 4)
		case k < 9:
			rt := routes[k]
			method, path = rt.method, rt.path
			if rt.ik {
				path += "/" + keyText("ik", 4)
			}
			body = fill(rt.fields, []string{"a", "b", "c", "d"}, 0)
		}
		o, allowed := origin("origin" + strconv.Itoa(i))
		head := http.Header{}
		if o != nil {
			head["Origin"] = o
		}
		a := ask(h, method, path, head, strings.NewReader(body))
		sym.Assert(a.status == 200, "the request fails")
		got := a.header["Access-Control-Allow-Origin"]
		sym.Assert((len(got) == 1) == allowed && len(got) < 2, "the request's origin is not allowed as it must be")
		if len(got) == 1 && o != nil {
			sym.Assert(eqText(got[0], o[0]), "the allowed origin is not the request's")
			sym.Assert(len(a.header["Access-Control-Allow-Methods"]) == 1 && len(a.header["Access-Control-Allow-Headers"]) == 1, "the allowed methods or headers are missing")
		}
		if k == 9 {
			sym.Assert(string(a.body) == "PONG", "ping is not answered with PONG")
		}
	}
	sym.Reach("done")
}

// H03: parameter is 100*use + 10*variant + kind of machine.
//
//sym:prop H03 quick=0-3,100-103,110-113,200-203,210-213,300-303,311-313 thorough=0-3,10-13,20-23,100-103,110-113,120-123,200-203,210-213,220-223,300-303,311-313 reach=done secs=200
func H03Use() {
	p := sym.Param()
	use, v, k := p/100, p/10%10, p%10
	s := newService()
	h := server.MakeHTTPHandler(s)
	b := baseKey("m", k)
	a := send(h, "POST", "/machine", fill(routes[2].fields, []string{b.Algorithm, b.AlgorithmKey, b.BaseDerivativeKey, b.KeySerialNumber}, 0))
	sym.Assert(a.status == 200, "creation from a valid base key fails")
	if a.status != 200 {
		return
	}
	o := a.object("creation")
	ik, _ := o["ik"].(string)
	m, err := s.GetMachine(ik)
	sym.Assert(err == nil && m != nil, "the service has no machine under the initial key of the response")
	if err != nil || m == nil {
		return
	}
	sym.Assert(sym.And(shows(o["machine"], m), eqText(m.InitialKey, ik), eqText(m.BaseDerivativeKey, b.BaseDerivativeKey), eqText(m.KeySerialNumber, b.KeySerialNumber),
		eqText(m.Algorithm, b.Algorithm), eqText(m.AlgorithmKey, b.AlgorithmKey)), "the response or the service has another machine than the one asked for")
	post := func(path string, names []string, values ...string) map[string]any {
		a := send(h, "POST", path+"/"+ik, fill(names, values, 0))
		sym.Assert(a.status == 200, path+" fails on a machine created over HTTP")
		if a.status != 200 {
			return nil
		}
		return a.object(path)
	}
	held := func(when string) {
		m, err := s.GetMachine(ik)
		sym.Assert(err == nil && m != nil, when+": the machine is gone")
		if err != nil || m == nil {
			return
		}
		a := send(h, "GET", "/machine/"+ik, "")
		sym.Assert(a.status == 200 && shows(a.object("find")["machine"], m), when+": find does not show the machine's state")
		a = send(h, "GET", "/machines", "")
		l, ok := a.object("list")["machines"].([]any)
		sym.Assert(a.status == 200 && ok && len(l) == 1 && shows(l[0], m), when+": the list does not show the machine's state")
	}
	// an advance first puts serial number and key apart from the created ones
	if use == 0 || v == 1 {
		for i := 0; i <= v; i++ {
			held("before an advance")
			old := observed(m)
			next, e2 := advanced(old)
			o := post("/generate_ksn", nil)
			m, err = s.GetMachine(ik)
			if o == nil || err != nil || e2 != nil {
				return
			}
			sym.Assert(sym.And(isText(o["ksn"], next.ksn), isState(m, next)), "the advance leads to another state than the library's next one")
			held("after an advance")
		}
	}
	switch use {
	case 1:
		iv := hexField("iv", 8*(1+min(k, 1)))
		action := []string{"request", "response"}[size("action", 0, 1)]
		data := printable("data", []int{16, 16, 32}[v])
		o := post("/encrypt_data", routes[7].fields, data, action, iv)
		ct, ok := o["encrypted"].(string)
		want, werr := s.EncryptData(ik, data, action, iv)
		sym.Assert(ok && werr == nil && eqText(ct, want), "data encryption differs from the service's")
		o = post("/decrypt_data", routes[8].fields, ct, action, iv)
		sym.Assert(isText(o["data"], data), "decrypting encrypted data does not give it back")
	case 2:
		pin, pan := digits("pin", []int{4, 6, 12}[v]), digits("pan", 16)
		format := ""
		if k == 0 {
			format = "ISO-0"
		}
		o := post("/encrypt_pin", routes[4].fields, pin, pan, format)
		ct, ok := o["encrypted"].(string)
		sym.Assert(ok && len(ct) == 16*(1+min(k, 1)), "encrypted PIN has a wrong length")
		o = post("/decrypt_pin", routes[5].fields, ct, pan, format)
		sym.Assert(isText(o["decrypted"], pin), "decrypting an encrypted PIN does not give it back")
	case 3:
		mac := []string{"cmac", "hmac"}[v]
		data := printable("data", 16)
		action := []string{"request", "response"}[size("action", 0, 1)]
		o := post("/generate_mac", routes[6].fields, data, action, mac)
		got, ok := o["generated"].(string)
		want, werr := s.GenerateMac(ik, data, action, mac)
		sym.Assert(ok && werr == nil && eqText(got, want), "the MAC differs from the service's")
	}
	sym.Reach("done")
}
