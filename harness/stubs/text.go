package stubs

import (
	"errors"
	"io"
	"strconv"
	"time"

	"dukptverif/sym"

	"github.com/moov-io/dukpt/pkg/server"
)

// ---- byte search (assembly in the runtime)

//sym:replace internal/bytealg.IndexByte
func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

//sym:replace internal/bytealg.IndexByteString
func IndexByteString(b string, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

//sym:replace internal/bytealg.LastIndexByteString
func LastIndexByteString(b string, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

//sym:replace internal/bytealg.CountString
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//sym:replace internal/bytealg.Count
func Count(s []byte, c byte) int { return CountString(string(s), c) }

//sym:replace bytes.Equal
func BytesEqual(a, b []byte) bool { return sym.EqBytes(a, b) }

//sym:replace internal/bytealg.Equal
func BytealgEqual(a, b []byte) bool { return sym.EqBytes(a, b) }

//sym:replace bytes.Compare
func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

//sym:replace internal/bytealg.CompareString
func CompareString(a, b string) int {
	if sym.EqStr(a, b) {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

//sym:replace sort.Slice
func SortSlice(x any, less func(i, j int) bool) {
	n, swap := 0, func(i, j int) {}
	switch v := x.(type) {
	case []*server.Machine:
		n, swap = len(v), func(i, j int) { v[i], v[j] = v[j], v[i] }
	case []server.Machine:
		n, swap = len(v), func(i, j int) { v[i], v[j] = v[j], v[i] }
	case []string:
		n, swap = len(v), func(i, j int) { v[i], v[j] = v[j], v[i] }
	case []int:
		n, swap = len(v), func(i, j int) { v[i], v[j] = v[j], v[i] }
	default:
		sym.Unsupported("sort.Slice of " + sym.TypeName(x))
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

//sym:replace strings.Index
func Index(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

//sym:replace bytes.Index
func BytesIndex(s, sep []byte) int { return Index(string(s), string(sep)) }

//sym:replace strings.LastIndex
func LastIndex(s, sep string) int {
	for i := len(s) - len(sep); i >= 0; i-- {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

//sym:replace strings.Repeat
func Repeat(s string, n int) string {
	if n < 0 {
		panic("strings: negative Repeat count")
	}
	out := ""
	for i := 0; i < n; i++ {
		out += s
	}
	return out
}

//sym:replace bytes.Repeat
func BytesRepeat(s []byte, n int) []byte {
	if n < 0 {
		panic("bytes: negative Repeat count")
	}
	out := make([]byte, n*len(s))
	for i := 0; i < n; i++ {
		copy(out[i*len(s):], s)
	}
	return out
}

func nonASCII(s string) bool {
	var or byte
	for i := 0; i < len(s); i++ {
		or |= s[i]
	}
	return or >= 0x80
}

func caseMap(s string, lo, hi byte) string {
	if nonASCII(s) {
		sym.Unsupported("case mapping of non-ASCII text")
	}
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		b[i] = sym.IteByte(sym.And(lo <= c, c <= hi), c^0x20, c)
	}
	return string(b)
}

//sym:replace strings.ToUpper
func ToUpper(s string) string { return caseMap(s, 'a', 'z') }

//sym:replace strings.ToLower
func ToLower(s string) string { return caseMap(s, 'A', 'Z') }

//sym:replace strings.EqualFold
func EqualFold(a, b string) bool {
	if nonASCII(a) || nonASCII(b) {
		sym.Unsupported("case folding of non-ASCII text")
	}
	return sym.EqStr(ToLower(a), ToLower(b))
}

// ---- errors

//sym:replace errors.Is
func Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	if err == target {
		return true
	}
	if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
		return true
	}
	switch x := err.(type) {
	case interface{ Unwrap() error }:
		return Is(x.Unwrap(), target)
	case interface{ Unwrap() []error }:
		for _, e := range x.Unwrap() {
			if Is(e, target) {
				return true
			}
		}
	}
	return false
}

//sym:replace errors.As
func As(err error, target any) bool {
	for err != nil {
		if sym.AssignableTo(target, err) {
			sym.StoreTo(target, err)
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if As(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

// ---- fmt

const (
	lowerDigits = "0123456789abcdef"
	upperDigits = "0123456789ABCDEF"
)

func hexOf(b string, digits string) string {
	out := make([]byte, 2*len(b))
	for i := 0; i < len(b); i++ {
		out[2*i] = digits[b[i]>>4]
		out[2*i+1] = digits[b[i]&15]
	}
	return string(out)
}

func pad(s string, width int, zero, minus bool) string {
	for len(s) < width {
		switch {
		case minus:
			s += " "
		case zero:
			s = "0" + s
		default:
			s = " " + s
		}
	}
	return s
}

// text renders one operand for a verb.
func text(verb byte, a any, plus bool) string {
	if a == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	}
	if verb == 'T' {
		return sym.TypeName(a)
	}
	if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
		s := ""
		ok := true
		switch x := a.(type) {
		case error:
			s = x.Error()
		case interface{ String() string }:
			s = x.String()
		default:
			ok = false
		}
		if ok {
			if verb == 'q' {
				return "\"" + s + "\""
			}
			return s
		}
	}
	switch sym.Kind(a) {
	case "string":
		s := sym.AsString(a)
		switch verb {
		case 'v', 's':
			return s
		case 'q':
			return "\"" + s + "\""
		case 'x':
			return hexOf(s, lowerDigits)
		case 'X':
			return hexOf(s, upperDigits)
		}
	case "bytes":
		s := string(sym.AsBytes(a))
		switch verb {
		case 's':
			return s
		case 'x':
			return hexOf(s, lowerDigits)
		case 'X':
			return hexOf(s, upperDigits)
		}
	case "int", "uint":
		n := sym.Conc(int(sym.AsInt(a)))
		switch verb {
		case 'd', 'v':
			return strconv.Itoa(n)
		case 'x', 'X':
			if n < 0 {
				break
			}
			d := lowerDigits
			if verb == 'X' {
				d = upperDigits
			}
			s := ""
			for {
				s = string(d[n&15]) + s
				n >>= 4
				if n == 0 {
					return s
				}
			}
		case 'c':
			return string(rune(n))
		case 'b':
			s := ""
			for {
				s = string(d2[n&1]) + s
				n >>= 1
				if n == 0 {
					return s
				}
			}
		}
	case "bool":
		if verb == 'v' || verb == 't' {
			if sym.AsBool(a) {
				return "true"
			}
			return "false"
		}
	}
	sym.Unsupported("formatting %" + string(rune(verb)) + " of " + sym.TypeName(a))
	return ""
}

const d2 = "01"

func format(f string, args []any, wrapped *error) string {
	out := ""
	arg := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out += f[i:j]
			i = j - 1
			continue
		}
		i++
		zero, minus, plus, sharp := false, false, false, false
		for i < len(f) && (f[i] == '0' || f[i] == '-' || f[i] == '+' || f[i] == '#' || f[i] == ' ') {
			switch f[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			case '+':
				plus = true
			case '#':
				sharp = true
			default:
				sym.Unsupported("format flag")
			}
			i++
		}
		width := 0
		for i < len(f) && '0' <= f[i] && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		prec := -1
		if i < len(f) && f[i] == '.' {
			prec = 0
			i++
			for i < len(f) && '0' <= f[i] && f[i] <= '9' {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out += "%!(NOVERB)"
			break
		}
		verb := f[i]
		if verb == '%' {
			out += "%"
			continue
		}
		if verb == '*' || verb == '[' {
			sym.Unsupported("format " + f)
		}
		if arg >= len(args) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		a := args[arg]
		arg++
		if verb == 'w' {
			if e, ok := a.(error); ok && wrapped != nil {
				*wrapped = e
			}
			verb = 'v'
		}
		s := ""
		if zero && !plus && !sharp && prec < 0 && (verb == 'x' || verb == 'X') && 0 < width && width <= 16 &&
			(sym.Kind(a) == "uint" || sym.Kind(a) == "int") && uint64(sym.AsInt(a))>>uint(4*width-1)>>1 == 0 {
			b := make([]byte, 8)
			for j := range b {
				b[j] = byte(uint64(sym.AsInt(a)) >> uint(56-8*j))
			}
			d := lowerDigits
			if verb == 'X' {
				d = upperDigits
			}
			s = hexOf(string(b), d)[16-width:]
		} else if sharp {
			s = sharpText(verb, a)
		} else {
			s = text(verb, a, plus)
		}
		if prec >= 0 {
			if verb != 's' {
				sym.Unsupported("format precision")
			}
			if len(s) > prec {
				s = s[:prec]
			}
		}
		out += pad(s, width, zero, minus)
	}
	if arg < len(args) {
		out += "%!(EXTRA)"
	}
	return out
}

func sharpText(verb byte, a any) string {
	if k := sym.Kind(a); verb == 'U' && (k == "int" || k == "uint") {
		n := sym.Conc(int(sym.AsInt(a)))
		s := hexOf(string([]byte{byte(n >> 8), byte(n)}), upperDigits)
		if n >= 0x80 {
			// printable or not is a question for the Unicode tables
			sym.Unsupported("format %#U of a non-ASCII character")
		}
		s = "U+" + s
		if n >= 0x20 && n < 0x7f {
			s += " '" + string([]byte{byte(n)}) + "'"
		}
		return s
	}
	if verb != 'v' {
		sym.Unsupported("format %#" + string(rune(verb)))
	}
	return goSyntax(a, true)
}

// goSyntax is the %#v form of a value; addresses are replaced.
func goSyntax(a any, top bool) string {
	switch x := a.(type) {
	case nil:
		return "<nil>"
	case interface{ GoString() string }:
		return x.GoString()
	case *lazyError:
		if top {
			return "&errors.errorString{s:" + goQuote(x.Error()) + "}"
		}
		return "(*errors.errorString)(0xc000012340)"
	case *lazyWrap:
		if top {
			return "&fmt.wrapError{msg:" + goQuote(x.Error()) + ", err:" + goSyntax(x.err, false) + "}"
		}
		return "(*fmt.wrapError)(0xc000012340)"
	}
	name := sym.TypeName(a)
	switch sym.Kind(a) {
	case "string":
		return goQuote(sym.AsString(a))
	case "bool":
		return text('v', a, false)
	case "int", "uint":
		return text('v', a, false)
	case "ptr":
		if sym.IsNil(a) {
			return "(" + name + ")(nil)"
		}
		if e := sym.Elem(a); top && sym.Kind(e) == "struct" {
			return "&" + goSyntax(e, false)
		}
		return "(" + name + ")(0xc000012340)"
	case "struct":
		out := name + "{"
		for i := 0; i < sym.NumField(a); i++ {
			if i > 0 {
				out += ", "
			}
			f, _, _, _ := sym.FieldInfo(a, i)
			out += f + ":" + goSyntax(sym.Field(a, i), false)
		}
		return out + "}"
	case "slice", "array":
		if sym.Kind(a) == "slice" && sym.IsNil(a) {
			return name + "(nil)"
		}
		out := name + "{"
		for i := 0; i < sym.Len(a); i++ {
			if i > 0 {
				out += ", "
			}
			out += goSyntax(sym.Index(a, i), false)
		}
		return out + "}"
	}
	sym.Unsupported("format %#v of " + name)
	return ""
}

func goQuote(s string) string {
	out := "\""
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			out += "\\" + s[i:i+1]
		case c < ' ' || c >= 0x7f:
			sym.Unsupported("format %#v of unprintable text")
		default:
			out += s[i : i+1]
		}
	}
	return out + "\""
}

//sym:replace fmt.Sprintf
func Sprintf(f string, args ...any) string { return format(f, args, nil) }

// lazyError formats its text when it is asked for: most errors are only
// compared with nil, and their text can depend on every byte of an input.
type lazyError struct {
	f    string
	args []any
}

func (e *lazyError) Error() string { return format(e.f, e.args, nil) }

type lazyWrap struct {
	lazyError
	err error
}

func (e *lazyWrap) Unwrap() error { return e.err }

//sym:replace fmt.Errorf
func Errorf(f string, args ...any) error {
	lazy := true
	var w error
	arg := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && (f[i] < 'A' || f[i] > 'Z') && (f[i] < 'a' || f[i] > 'z') && f[i] != '%' {
			i++
		}
		if i < len(f) && f[i] != '%' && arg < len(args) {
			if e, ok := args[arg].(error); ok && f[i] == 'w' {
				w = e
			}
			arg++
		}
	}
	for _, a := range args {
		switch a.(type) {
		case nil, error, string, bool, int, int64, uint64, byte, rune:
		default:
			lazy = false
		}
	}
	l := lazyError{f, args}
	if !lazy {
		l = lazyError{"%s", []any{format(f, args, nil)}}
	}
	if w != nil {
		return &lazyWrap{l, w}
	}
	return &l
}

func sprint(args []any, ln bool) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			_, s1 := a.(string)
			_, s2 := args[i-1].(string)
			if ln || !s1 && !s2 {
				out += " "
			}
		}
		out += text('v', a, false)
	}
	if ln {
		out += "\n"
	}
	return out
}

//sym:replace fmt.Sprint
func Sprint(args ...any) string { return sprint(args, false) }

//sym:replace fmt.Sprintln
func Sprintln(args ...any) string { return sprint(args, true) }

//sym:replace fmt.Fprintf
func Fprintf(w io.Writer, f string, args ...any) (int, error) {
	return w.Write([]byte(format(f, args, nil)))
}

//sym:replace fmt.Fprint
func Fprint(w io.Writer, args ...any) (int, error) { return w.Write([]byte(sprint(args, false))) }

//sym:replace fmt.Fprintln
func Fprintln(w io.Writer, args ...any) (int, error) { return w.Write([]byte(sprint(args, true))) }

func isSpace(c byte) bool { return c == ' ' || '\t' <= c && c <= '\r' }

func digitVal(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return 99
}

// Sscanf models the directives %<width>d, %<width>x, %<width>X and %s on text
// without blanks.
//
//sym:replace fmt.Sscanf
func Sscanf(in, f string, args ...any) (int, error) {
	for i := 0; i < len(in); i++ {
		if isSpace(in[i]) || in[i] >= 0x80 || in[i] == '+' || in[i] == '-' || in[i] == '_' {
			sym.Unsupported("scanning text with blanks, signs or non-ASCII bytes")
		}
	}
	arg, p := 0, 0
	for i := 0; i < len(f); i++ {
		if isSpace(f[i]) {
			sym.Unsupported("blank in scan format")
		}
		if f[i] != '%' {
			if p >= len(in) {
				return arg, io.ErrUnexpectedEOF
			}
			if in[p] != f[i] {
				return arg, errors.New("input does not match format")
			}
			p++
			continue
		}
		i++
		width := 0
		for i < len(f) && '0' <= f[i] && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if width == 0 {
			width = 1 << 20
		}
		if arg >= len(args) {
			return arg, errors.New("too few operands for format '%" + string(rune(f[i])) + "'")
		}
		switch f[i] {
		case 'd', 'x', 'X':
			base := 10
			if f[i] != 'd' {
				base = 16
			}
			if p >= len(in) {
				return arg, io.ErrUnexpectedEOF
			}
			if digitVal(in[p]) >= base {
				return arg, errors.New("expected integer")
			}
			n := 0
			for k := 0; k < width && p < len(in); k++ {
				d := digitVal(in[p])
				if d >= base {
					break
				}
				if k > 12 {
					sym.Unsupported("long number in scan")
				}
				n = n*base + d
				p++
			}
			sym.SetVal(args[arg], n)
		case 's', 'v':
			if sym.ElemKind(args[arg]) != "string" {
				sym.Unsupported("scan verb")
			}
			if p >= len(in) {
				return arg, io.ErrUnexpectedEOF
			}
			e := len(in)
			if e > p+width {
				e = p + width
			}
			sym.SetVal(args[arg], in[p:e])
			p = e
		default:
			sym.Unsupported("scan verb")
		}
		arg++
	}
	if arg < len(args) {
		return arg, errors.New("too many operands")
	}
	return arg, nil
}

// ---- time

//sym:replace time.Now
func Now() time.Time { return time.Time{} }

//sym:replace time.Since
func Since(t time.Time) time.Duration { return 0 }

// space tells whether the n bytes from i are one white space.
func space(s string, i, n int) bool {
	if i < 0 || i+n > len(s) {
		return false
	}
	switch n {
	case 1:
		return sym.Or(s[i] == ' ', sym.And('\t' <= s[i], s[i] <= '\r'))
	case 2:
		return sym.And(s[i] == 0xC2, sym.Or(s[i+1] == 0x85, s[i+1] == 0xA0))
	}
	return wideSpace(s[i], s[i+1], s[i+2])
}

// wideSpace: U+1680, U+2000-200A, U+2028, U+2029, U+202F, U+205F, U+3000.
func wideSpace(a, b, c byte) bool {
	e280 := sym.And(a == 0xE2, b == 0x80)
	return sym.Or(
		sym.And(a == 0xE1, b == 0x9A, c == 0x80),
		sym.And(e280, sym.Or(sym.And(c >= 0x80, c <= 0x8A), c == 0xA8, c == 0xA9, c == 0xAF)),
		sym.And(a == 0xE2, b == 0x81, c == 0x9F),
		sym.And(a == 0xE3, b == 0x80, c == 0x80))
}

// trimEnds takes one case per result: reached[i] says whether trimming comes
// past i.
func trimEnds(s string) (int, int) {
	i, j := 0, len(s)
	reached := make([]bool, len(s)+4)
	reached[0] = true
	for ; i < len(s); i++ {
		more := false
		for n := 1; n <= 3; n++ {
			w := space(s, i, n)
			more = sym.Or(more, w)
			reached[i+n] = sym.Or(reached[i+n], sym.And(reached[i], w))
		}
		if sym.Fork(sym.And(reached[i], !more)) {
			break
		}
	}
	s = s[i:]
	left := make([]bool, len(s)+4)
	left[0] = true
	for k := 0; k < len(s); k++ {
		more := false
		for n := 1; n <= 3; n++ {
			w := space(s, len(s)-k-n, n)
			more = sym.Or(more, w)
			left[k+n] = sym.Or(left[k+n], sym.And(left[k], w))
		}
		if sym.Fork(sym.And(left[k], !more)) {
			break
		}
		j--
	}
	return i, j
}

//sym:replace strings.TrimSpace
func TrimSpace(s string) string {
	i, j := trimEnds(s)
	return s[i:j]
}

//sym:replace bytes.TrimSpace
func BytesTrimSpace(b []byte) []byte {
	i, j := trimEnds(string(b))
	if i == j {
		return nil
	}
	return b[i:j]
}
