package stubs

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"time"
	"unicode/utf8"

	"dukptverif/sym"
)

// ---- contexts

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

//sym:replace context.WithValue
func WithValue(parent context.Context, key, val any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &valueCtx{parent, key, val}
}

// member is the field of that name, of the struct a pointer points to.
func member(p any, name string) any {
	v := sym.Elem(p)
	for i := 0; i < sym.NumField(v); i++ {
		if n, _, _, _ := sym.FieldInfo(v, i); n == name {
			return sym.Field(v, i)
		}
	}
	sym.Unsupported("no field " + name)
	return nil
}

// setMember stores in it.
func setMember(p any, name string, val any) {
	v := sym.Elem(p)
	for i := 0; i < sym.NumField(v); i++ {
		if n, _, _, _ := sym.FieldInfo(v, i); n == name {
			sym.StoreTo(sym.FieldPtr(p, i), val)
			return
		}
	}
	sym.Unsupported("no field " + name)
}

// ---- regular expressions: literals, classes, groups, alternatives and
// greedy or lazy repetition, matched by backtracking.

type rnode struct {
	kind     byte // 'c' class, '^', '$', 'g' group
	neg      bool
	lo, hi   []byte
	group    int // capture number, 0 for none
	alts     [][]rnode
	min, max int // repetition
	lazy     bool
}

type rparser struct {
	s      string
	i      int
	groups int
}

func (p *rparser) alternatives() [][]rnode {
	out := [][]rnode{nil}
	for p.i < len(p.s) && p.s[p.i] != ')' {
		if p.s[p.i] == '|' {
			p.i++
			out = append(out, nil)
			continue
		}
		k := len(out) - 1
		out[k] = append(out[k], p.item())
	}
	return out
}

func class(r ...byte) rnode {
	n := rnode{kind: 'c', min: 1, max: 1}
	for i := 0; i < len(r); i += 2 {
		n.lo, n.hi = append(n.lo, r[i]), append(n.hi, r[i+1])
	}
	return n
}

func (p *rparser) escape() rnode {
	p.i++
	if p.i >= len(p.s) {
		sym.Unsupported("regular expression " + p.s)
	}
	c := p.s[p.i]
	p.i++
	switch c {
	case 'd':
		return class('0', '9')
	case 'w':
		return class('0', '9', 'A', 'Z', '_', '_', 'a', 'z')
	case 's':
		return class('\t', '\n', '\f', '\r', ' ', ' ')
	}
	if '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
		sym.Unsupported("regular expression " + p.s)
	}
	return class(c, c)
}

func (p *rparser) item() rnode {
	n := rnode{min: 1, max: 1}
	switch c := p.s[p.i]; c {
	case '^', '$':
		n.kind = c
		p.i++
		return n
	case '.':
		n = class('\n', '\n')
		n.neg = true
		p.i++
	case '\\':
		n = p.escape()
	case '[':
		n = class()
		p.i++
		if p.i < len(p.s) && p.s[p.i] == '^' {
			n.neg = true
			p.i++
		}
		for first := true; ; first = false {
			if p.i >= len(p.s) || p.s[p.i] == '[' {
				sym.Unsupported("regular expression " + p.s)
			}
			if p.s[p.i] == ']' && !first {
				p.i++
				break
			}
			if p.s[p.i] == '\\' {
				e := p.escape()
				n.lo, n.hi = append(n.lo, e.lo...), append(n.hi, e.hi...)
				continue
			}
			lo := p.s[p.i]
			hi := lo
			p.i++
			if p.i+1 < len(p.s) && p.s[p.i] == '-' && p.s[p.i+1] != ']' {
				hi = p.s[p.i+1]
				p.i += 2
			}
			n.lo, n.hi = append(n.lo, lo), append(n.hi, hi)
		}
	case '(':
		p.i++
		n.kind = 'g'
		switch {
		case p.i+1 < len(p.s) && p.s[p.i:p.i+2] == "?:":
			p.i += 2
		case p.i < len(p.s) && p.s[p.i] == '?':
			for p.i < len(p.s) && p.s[p.i] != '>' {
				p.i++
			}
			p.i++
			fallthrough
		default:
			p.groups++
			n.group = p.groups
		}
		n.alts = p.alternatives()
		p.i++ // )
	case '*', '+', '?', '{':
		sym.Unsupported("regular expression " + p.s)
	default:
		if c >= 0x80 {
			sym.Unsupported("regular expression " + p.s)
		}
		n = class(c, c)
		p.i++
	}
	if p.i < len(p.s) {
		switch p.s[p.i] {
		case '*':
			n.min, n.max = 0, -1
			p.i++
		case '+':
			n.min, n.max = 1, -1
			p.i++
		case '?':
			n.min, n.max = 0, 1
			p.i++
		case '{':
			sym.Unsupported("regular expression " + p.s)
		default:
			return n
		}
		if p.i < len(p.s) && p.s[p.i] == '?' {
			n.lazy = true
			p.i++
		}
	}
	return n
}

func (n *rnode) has(c byte) bool {
	in := []bool{false}
	for i := range n.lo {
		in = append(in, sym.And(n.lo[i] <= c, c <= n.hi[i]))
	}
	return sym.Or(in...) != n.neg
}

type rmatch struct {
	s    string
	caps []int
}

func (m *rmatch) seq(ns []rnode, i, pos int, then func(int) bool) bool {
	if i == len(ns) {
		return then(pos)
	}
	return m.rep(&ns[i], 0, pos, func(p int) bool { return m.seq(ns, i+1, p, then) })
}

func (m *rmatch) rep(n *rnode, count, pos int, then func(int) bool) bool {
	if n.kind == '^' {
		return pos == 0 && then(pos)
	}
	if n.kind == '$' {
		return pos == len(m.s) && then(pos)
	}
	more := func() bool {
		if n.max >= 0 && count >= n.max {
			return false
		}
		return m.one(n, pos, func(p int) bool { return (p > pos || count < n.min) && m.rep(n, count+1, p, then) })
	}
	if count < n.min {
		return more()
	}
	if n.lazy {
		return then(pos) || more()
	}
	return more() || then(pos)
}

func (m *rmatch) one(n *rnode, pos int, then func(int) bool) bool {
	if n.kind == 'c' {
		if pos >= len(m.s) || !n.has(m.s[pos]) {
			return false
		}
		if m.s[pos] >= 0x80 {
			sym.Unsupported("regular expression on non-ASCII text")
		}
		return then(pos + 1)
	}
	for _, a := range n.alts {
		ok := m.seq(a, 0, pos, func(p int) bool {
			if n.group == 0 {
				return then(p)
			}
			o1, o2 := m.caps[2*n.group], m.caps[2*n.group+1]
			m.caps[2*n.group], m.caps[2*n.group+1] = pos, p
			if then(p) {
				return true
			}
			m.caps[2*n.group], m.caps[2*n.group+1] = o1, o2
			return false
		})
		if ok {
			return true
		}
	}
	return false
}

func rparse(s string) ([][]rnode, int) {
	p := &rparser{s: s}
	a := p.alternatives()
	if p.i < len(s) {
		sym.Unsupported("regular expression " + s)
	}
	return a, p.groups
}

// rfind is the leftmost match as FindStringSubmatchIndex reports it.
func rfind(expr, s string) []int {
	alts, groups := rparse(expr)
	root := rnode{kind: 'g', alts: alts, min: 1, max: 1}
	anchored := len(alts) == 1 && len(alts[0]) > 0 && alts[0][0].kind == '^'
	for at := 0; at <= len(s); at++ {
		m := &rmatch{s: s, caps: make([]int, 2*groups+2)}
		for i := range m.caps {
			m.caps[i] = -1
		}
		if m.one(&root, at, func(p int) bool { m.caps[0], m.caps[1] = at, p; return true }) {
			return m.caps
		}
		if anchored {
			break
		}
	}
	return nil
}

//sym:replace regexp.Compile
func RegexpCompile(expr string) (*regexp.Regexp, error) {
	rparse(expr)
	re := new(regexp.Regexp)
	setMember(re, "expr", expr)
	return re, nil
}

//sym:replace regexp.MustCompile
func RegexpMustCompile(expr string) *regexp.Regexp {
	re, _ := RegexpCompile(expr)
	return re
}

func source(re *regexp.Regexp) string { return sym.AsString(member(re, "expr")) }

//sym:replace (*regexp.Regexp).String
func RegexpString(re *regexp.Regexp) string { return source(re) }

//sym:replace (*regexp.Regexp).NumSubexp
func RegexpNumSubexp(re *regexp.Regexp) int {
	_, n := rparse(source(re))
	return n
}

//sym:replace (*regexp.Regexp).MatchString
func RegexpMatchString(re *regexp.Regexp, s string) bool { return rfind(source(re), s) != nil }

//sym:replace (*regexp.Regexp).FindStringSubmatchIndex
func RegexpFindStringSubmatchIndex(re *regexp.Regexp, s string) []int { return rfind(source(re), s) }

//sym:replace (*regexp.Regexp).FindStringSubmatch
func RegexpFindStringSubmatch(re *regexp.Regexp, s string) []string {
	m := rfind(source(re), s)
	if m == nil {
		return nil
	}
	out := make([]string, len(m)/2)
	for i := range out {
		if m[2*i] >= 0 {
			out[i] = s[m[2*i]:m[2*i+1]]
		}
	}
	return out
}

//sym:replace (*regexp.Regexp).FindString
func RegexpFindString(re *regexp.Regexp, s string) string {
	m := rfind(source(re), s)
	if m == nil {
		return ""
	}
	return s[m[0]:m[1]]
}

//sym:replace regexp.MatchString
func RegexpMatch(expr, s string) (bool, error) { return rfind(expr, s) != nil, nil }

//sym:replace regexp.QuoteMeta
func RegexpQuoteMeta(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\', '.', '+', '*', '?', '(', ')', '|', '[', ']', '{', '}', '^', '$':
			out += "\\"
		}
		out += s[i : i+1]
	}
	return out
}

// ---- reflection: reading structs

type rtype struct {
	reflect.Type
	v any
}

func (t *rtype) NumField() int { return sym.NumField(t.v) }
func (t *rtype) Name() string {
	s := sym.TypeName(t.v)
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return s[i+1:]
		}
	}
	return s
}
func (t *rtype) String() string { return sym.TypeName(t.v) }
func (t *rtype) Kind() reflect.Kind {
	return kindNumber(t.v)
}
func (t *rtype) Elem() reflect.Type { return &rtype{v: sym.Elem(t.v)} }
func (t *rtype) Field(i int) reflect.StructField {
	name, tag, exported, emb := sym.FieldInfo(t.v, i)
	f := reflect.StructField{Name: name, Anonymous: emb, Index: []int{i}}
	if !exported {
		f.PkgPath = "unexported"
	}
	if tag != "" {
		f.Tag = reflect.StructTag("json:\"" + tag + "\"")
	}
	return f
}

func kindNumber(v any) reflect.Kind {
	switch sym.Kind(v) {
	case "nil":
		return reflect.Invalid
	case "string":
		return reflect.String
	case "bool":
		return reflect.Bool
	case "struct":
		return reflect.Struct
	case "ptr":
		return reflect.Ptr
	case "slice", "bytes":
		return reflect.Slice
	case "map":
		return reflect.Map
	case "array":
		return reflect.Array
	}
	sym.Unsupported("reflect kind of " + sym.TypeName(v))
	return 0
}

func unreflect(v reflect.Value) any { return member(&v, "ptr") }

//sym:replace reflect.ValueOf
func ReflectValueOf(i any) reflect.Value {
	var v reflect.Value
	p := any(&v)
	setMember(p, "ptr", sym.Box(i))
	return v
}

//sym:replace reflect.TypeOf
func ReflectTypeOf(i any) reflect.Type { return &rtype{v: i} }

//sym:replace (reflect.Value).Interface
func ReflectInterface(v reflect.Value) any { return unreflect(v) }

//sym:replace (reflect.Value).NumField
func ReflectNumField(v reflect.Value) int { return sym.NumField(unreflect(v)) }

//sym:replace (reflect.Value).Field
func ReflectField(v reflect.Value, i int) reflect.Value {
	return ReflectValueOf(sym.Field(unreflect(v), i))
}

//sym:replace (reflect.Value).Type
func ReflectType(v reflect.Value) reflect.Type { return &rtype{v: unreflect(v)} }

//sym:replace (reflect.Value).Kind
func ReflectKind(v reflect.Value) reflect.Kind { return kindNumber(unreflect(v)) }

//sym:replace (reflect.Value).Elem
func ReflectElem(v reflect.Value) reflect.Value { return ReflectValueOf(sym.Elem(unreflect(v))) }

//sym:replace (reflect.Value).IsNil
func ReflectIsNil(v reflect.Value) bool { return sym.IsNil(unreflect(v)) }

//sym:replace (reflect.Value).IsValid
func ReflectIsValid(v reflect.Value) bool { return unreflect(v) != nil }

//sym:replace (reflect.Value).CanInterface
func ReflectCanInterface(v reflect.Value) bool { return true }

//sym:replace (reflect.Value).Len
func ReflectLen(v reflect.Value) int {
	if a := unreflect(v); sym.Kind(a) == "string" {
		return len(sym.AsString(a))
	}
	return sym.Len(unreflect(v))
}

//sym:replace (reflect.Value).String
func ReflectString(v reflect.Value) string {
	if sym.Kind(unreflect(v)) != "string" {
		return "<" + sym.TypeName(unreflect(v)) + " Value>"
	}
	return sym.AsString(unreflect(v))
}

//sym:replace (reflect.Value).IsZero
func ReflectIsZero(v reflect.Value) bool { return isEmpty(unreflect(v)) }

// ---- JSON

// jval is a parsed value: kind is one of n t f " 0 [ {
type jval struct {
	kind  byte
	s     string // text of a string or number
	keys  []string
	elems []*jval
}

type jparser struct {
	s   string
	i   int
	eof bool // the input ended too early
}

var errSyntax = errors.New("invalid character in JSON")

func (p *jparser) space() {
	for p.i < len(p.s) {
		c := p.s[p.i]
		if !sym.Or(c == ' ', c == '\t', c == '\r', c == '\n') {
			return
		}
		p.i++
	}
}

func (p *jparser) word(w string, kind byte) *jval {
	for k := 0; k < len(w); k++ {
		if p.i >= len(p.s) {
			p.eof = true
			return nil
		}
		if p.s[p.i] != w[k] {
			return nil
		}
		p.i++
	}
	return &jval{kind: kind}
}

// value parses one value; nil if there is none.
func (p *jparser) value(depth int) *jval {
	p.space()
	if p.i >= len(p.s) {
		p.eof = true
		return nil
	}
	c := p.s[p.i]
	switch {
	case c == '"':
		s, ok := p.str()
		if !ok {
			return nil
		}
		return &jval{kind: '"', s: s}
	case c == '{':
		p.i++
		v := &jval{kind: '{'}
		p.space()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			return v
		}
		for {
			p.space()
			if p.i >= len(p.s) {
				p.eof = true
				return nil
			}
			if p.s[p.i] != '"' {
				return nil
			}
			k, ok := p.str()
			if !ok {
				return nil
			}
			p.space()
			if p.i >= len(p.s) {
				p.eof = true
				return nil
			}
			if p.s[p.i] != ':' {
				return nil
			}
			p.i++
			e := p.value(depth + 1)
			if e == nil {
				return nil
			}
			v.keys, v.elems = append(v.keys, k), append(v.elems, e)
			p.space()
			if p.i >= len(p.s) {
				p.eof = true
				return nil
			}
			d := p.s[p.i]
			p.i++
			if d == '}' {
				return v
			}
			if d != ',' {
				return nil
			}
		}
	case c == '[':
		p.i++
		v := &jval{kind: '['}
		p.space()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			return v
		}
		for {
			e := p.value(depth + 1)
			if e == nil {
				return nil
			}
			v.elems = append(v.elems, e)
			p.space()
			if p.i >= len(p.s) {
				p.eof = true
				return nil
			}
			d := p.s[p.i]
			p.i++
			if d == ']' {
				return v
			}
			if d != ',' {
				return nil
			}
		}
	case c == 'n':
		return p.word("null", 'n')
	case c == 't':
		return p.word("true", 't')
	case c == 'f':
		return p.word("false", 'f')
	}
	return p.number()
}

func (p *jparser) digits() bool {
	at := p.i
	for p.i < len(p.s) && sym.And('0' <= p.s[p.i], p.s[p.i] <= '9') {
		p.i++
	}
	return p.i > at
}

func (p *jparser) number() *jval {
	at := p.i
	if p.i < len(p.s) && p.s[p.i] == '-' {
		p.i++
	}
	if p.i < len(p.s) && p.s[p.i] == '0' {
		p.i++
	} else if !p.digits() {
		p.eof = p.i >= len(p.s)
		return nil
	}
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		if !p.digits() {
			p.eof = p.i >= len(p.s)
			return nil
		}
	}
	if p.i < len(p.s) && sym.Or(p.s[p.i] == 'e', p.s[p.i] == 'E') {
		p.i++
		if p.i < len(p.s) && sym.Or(p.s[p.i] == '+', p.s[p.i] == '-') {
			p.i++
		}
		if !p.digits() {
			p.eof = p.i >= len(p.s)
			return nil
		}
	}
	return &jval{kind: '0', s: p.s[at:p.i]}
}

func plain(c byte) bool { return sym.And(c >= 0x20, c < 0x80, c != '"', c != '\\') }

func (p *jparser) str() (string, bool) {
	p.i++
	out := ""
	for {
		at := p.i
		for p.i < len(p.s) && plain(p.s[p.i]) {
			p.i++
		}
		out += p.s[at:p.i]
		if p.i >= len(p.s) {
			p.eof = true
			return "", false
		}
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return out, true
		case c < 0x20:
			return "", false
		case c == '\\':
			p.i++
			if p.i >= len(p.s) {
				p.eof = true
				return "", false
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out += string([]byte{e})
			case 'b':
				out += "\b"
			case 'f':
				out += "\f"
			case 'n':
				out += "\n"
			case 'r':
				out += "\r"
			case 't':
				out += "\t"
			case 'u':
				r, ok := p.hex4()
				if !ok {
					return "", false
				}
				if 0xd800 <= r && r < 0xe000 {
					lo := rune(0)
					at := p.i
					if r < 0xdc00 && p.i+1 < len(p.s) && p.s[p.i] == '\\' && p.s[p.i+1] == 'u' {
						p.i += 2
						lo, ok = p.hex4()
						if !ok {
							return "", false
						}
					}
					if 0xdc00 <= lo && lo < 0xe000 {
						r = (r-0xd800)<<10 | (lo - 0xdc00) + 0x10000
					} else {
						p.i = at
						r = utf8.RuneError
					}
				}
				out += runeText(r)
			default:
				return "", false
			}
		default:
			r, n := utf8.DecodeRuneInString(p.s[p.i:])
			if r == utf8.RuneError && n == 1 {
				out += "\uFFFD"
			} else {
				out += p.s[p.i : p.i+n]
			}
			p.i += n
		}
	}
}

func runeText(r rune) string {
	if r < 0x80 {
		return string([]byte{byte(r)})
	}
	return string(utf8.AppendRune(nil, r))
}

func (p *jparser) hex4() (rune, bool) {
	r := rune(0)
	for k := 0; k < 4; k++ {
		if p.i >= len(p.s) {
			p.eof = true
			return 0, false
		}
		d := digitVal(p.s[p.i])
		if d > 15 {
			return 0, false
		}
		r = r<<4 | rune(d)
		p.i++
	}
	return r, true
}

func parseJSON(s string) (*jval, error) {
	p := &jparser{s: s}
	v := p.value(0)
	if v != nil {
		p.space()
		if p.i < len(p.s) {
			v = nil
		}
	}
	if v == nil {
		if p.eof {
			return nil, errors.New("unexpected end of JSON input")
		}
		return nil, errSyntax
	}
	return v, nil
}

type jdecoder struct {
	err    error // first mismatch
	strict bool
}

func (d *jdecoder) mismatch(v *jval, p any) {
	if d.err == nil {
		d.err = errors.New("json: cannot unmarshal into Go value of type " + sym.TypeName(p))
	}
}

// target finds the field of the pointed-to struct for a key, through embedded
// structs; nil if there is none.
func target(p any, key string, fold bool, depth int) any {
	v := sym.Elem(p)
	var emb []any
	for i := 0; i < sym.NumField(v); i++ {
		name, tag, exported, e := sym.FieldInfo(v, i)
		tag, opts := cutTag(tag)
		if e && tag == "" && sym.Kind(sym.Field(v, i)) == "struct" {
			emb = append(emb, sym.FieldPtr(p, i))
			continue
		}
		if !exported || tag == "-" && opts == "" {
			continue
		}
		if opts != "" && opts != "omitempty" {
			sym.Unsupported("JSON option " + opts)
		}
		if tag != "" {
			name = tag
		}
		if len(name) == len(key) && name == key || fold && len(name) == len(key) && EqualFold(name, key) {
			return sym.FieldPtr(p, i)
		}
	}
	for _, e := range emb {
		if t := target(e, key, fold, depth+1); t != nil {
			return t
		}
	}
	return nil
}

func cutTag(tag string) (string, string) {
	for i := 0; i < len(tag); i++ {
		if tag[i] == ',' {
			return tag[:i], tag[i+1:]
		}
	}
	return tag, ""
}

// into stores a parsed value through a pointer.
func (d *jdecoder) into(v *jval, p any) {
	k := sym.ElemKind(p)
	if k == "ptr" {
		if v.kind == 'n' {
			sym.SetNil(p)
			return
		}
		q := sym.Elem(p)
		if sym.IsNil(q) {
			q = sym.NewElem(p)
		}
		d.into(v, q)
		return
	}
	if u, ok := p.(json.Unmarshaler); ok {
		_ = u
		sym.Unsupported("JSON decoding by " + sym.TypeName(p))
	}
	if v.kind == 'n' {
		switch k {
		case "map", "slice", "bytes", "interface":
			sym.SetNil(p)
		}
		return
	}
	switch k {
	case "interface":
		sym.StoreTo(p, v.any())
	case "string":
		if v.kind != '"' {
			d.mismatch(v, p)
			return
		}
		sym.SetVal(p, v.s)
	case "bool":
		if v.kind != 't' && v.kind != 'f' {
			d.mismatch(v, p)
			return
		}
		sym.SetVal(p, v.kind == 't')
	case "int", "uint":
		if v.kind != '0' {
			d.mismatch(v, p)
			return
		}
		n, err := strconv.ParseInt(v.s, 10, 64)
		if err != nil || k == "uint" && n < 0 {
			d.mismatch(v, p)
			return
		}
		sym.SetVal(p, n)
	case "struct":
		if v.kind != '{' {
			d.mismatch(v, p)
			return
		}
		for i, key := range v.keys {
			t := target(p, key, false, 0)
			if t == nil {
				t = target(p, key, true, 0)
			}
			if t != nil {
				d.into(v.elems[i], t)
			} else if d.strict && d.err == nil {
				d.err = errors.New("json: unknown field " + strconv.Quote(key))
			}
		}
	case "slice":
		if v.kind != '[' {
			d.mismatch(v, p)
			return
		}
		sym.MakeSlice(p, len(v.elems))
		for i, e := range v.elems {
			d.into(e, sym.IndexPtr(p, i))
		}
	case "map":
		if m, ok := p.(*map[string]any); ok {
			if v.kind != '{' {
				d.mismatch(v, p)
				return
			}
			if *m == nil {
				*m = map[string]any{}
			}
			for i, key := range v.keys {
				(*m)[key] = v.elems[i].any()
			}
			return
		}
		if m, ok := p.(*map[string]string); ok {
			if v.kind != '{' {
				d.mismatch(v, p)
				return
			}
			if *m == nil {
				*m = map[string]string{}
			}
			for i, key := range v.keys {
				s := ""
				d.into(v.elems[i], &s)
				(*m)[key] = s
			}
			return
		}
		sym.Unsupported("JSON decoding into " + sym.TypeName(p))
	default:
		sym.Unsupported("JSON decoding into " + sym.TypeName(p))
	}
}

func (v *jval) any() any {
	switch v.kind {
	case '"':
		return v.s
	case 't':
		return true
	case 'f':
		return false
	case '[':
		out := make([]any, len(v.elems))
		for i, e := range v.elems {
			out[i] = e.any()
		}
		return out
	case '{':
		out := map[string]any{}
		for i, k := range v.keys {
			out[k] = v.elems[i].any()
		}
		return out
	case '0':
		f, err := strconv.ParseFloat(v.s, 64)
		if err != nil {
			sym.Unsupported("JSON number " + v.s)
		}
		return f
	}
	return nil
}

func decodeInto(v *jval, p any, strict bool) error {
	if p == nil || sym.Kind(p) != "ptr" || sym.IsNil(p) {
		return errors.New("json: Unmarshal(non-pointer)")
	}
	d := &jdecoder{strict: strict}
	d.into(v, p)
	return d.err
}

//sym:replace encoding/json.Unmarshal
func JSONUnmarshal(data []byte, p any) error {
	v, err := parseJSON(string(data))
	if err != nil {
		return err
	}
	return decodeInto(v, p, false)
}

//sym:replace encoding/json.Valid
func JSONValid(data []byte) bool {
	_, err := parseJSON(string(data))
	return err == nil
}

// The decoder reads everything its reader has on first use; what it knows is
// kept in the field for its last error.
type decState struct {
	r      io.Reader
	read   bool
	buf    string
	at     int
	strict bool
}

func (*decState) Error() string { return "" }

func decOf(dec *json.Decoder) *decState {
	d, ok := member(dec, "err").(*decState)
	if !ok {
		sym.Unsupported("JSON decoder of unknown origin")
	}
	return d
}

//sym:replace encoding/json.NewDecoder
func NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	setMember(d, "err", &decState{r: r})
	return d
}

func (d *decState) fill() error {
	if d.read {
		return nil
	}
	d.read = true
	b, err := io.ReadAll(d.r)
	d.buf = string(b)
	return err
}

//sym:replace (*encoding/json.Decoder).DisallowUnknownFields
func DecoderStrict(dec *json.Decoder) { decOf(dec).strict = true }

//sym:replace (*encoding/json.Decoder).Decode
func DecoderDecode(dec *json.Decoder, p any) error {
	d := decOf(dec)
	if err := d.fill(); err != nil {
		return err
	}
	q := &jparser{s: d.buf, i: d.at}
	q.space()
	if q.i >= len(d.buf) {
		return io.EOF
	}
	v := q.value(0)
	if v == nil {
		if q.eof {
			return io.ErrUnexpectedEOF
		}
		return errSyntax
	}
	d.at = q.i
	return decodeInto(v, p, d.strict)
}

//sym:replace (*encoding/json.Decoder).More
func DecoderMore(dec *json.Decoder) bool {
	d := decOf(dec)
	if d.fill() != nil {
		return false
	}
	q := &jparser{s: d.buf, i: d.at}
	q.space()
	return q.i < len(d.buf) && sym.And(d.buf[q.i] != ']', d.buf[q.i] != '}')
}

func quoteJSON(s string, html bool) string {
	out := "\""
	for i := 0; i < len(s); {
		at := i
		for i < len(s) && plain(s[i]) && (!html || sym.And(s[i] != '<', s[i] != '>', s[i] != '&')) {
			i++
		}
		out += s[at:i]
		if i >= len(s) {
			break
		}
		c := s[i]
		if c < 0x80 {
			i++
			switch c {
			case '"':
				out += "\\\""
			case '\\':
				out += "\\\\"
			case '\b':
				out += "\\b"
			case '\f':
				out += "\\f"
			case '\n':
				out += "\\n"
			case '\r':
				out += "\\r"
			case '\t':
				out += "\\t"
			default:
				out += "\\u00" + hexOf(string([]byte{c}), lowerDigits)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			out += "\\ufffd"
		case r == 0x2028:
			out += "\\u2028"
		case r == 0x2029:
			out += "\\u2029"
		default:
			out += s[i : i+n]
		}
		i += n
	}
	return out + "\""
}

func isEmpty(v any) bool {
	switch sym.Kind(v) {
	case "nil":
		return true
	case "string":
		return len(sym.AsString(v)) == 0
	case "bool":
		return !sym.AsBool(v)
	case "int", "uint":
		return sym.AsInt(v) == 0
	case "ptr":
		return sym.IsNil(v)
	case "slice", "bytes", "map", "array":
		return sym.IsNil(v) || sym.Len(v) == 0
	}
	return false
}

type jencoder struct {
	html bool
	err  error
}

func (e *jencoder) text(v any) string {
	switch t := v.(type) {
	case nil:
		return "null"
	case time.Time:
		return "\"" + t.Format(time.RFC3339Nano) + "\""
	case json.Number:
		return string(t)
	case json.RawMessage:
		return string(t)
	}
	k := sym.Kind(v)
	if k == "ptr" && sym.IsNil(v) {
		return "null"
	}
	if m, ok := v.(json.Marshaler); ok {
		b, err := m.MarshalJSON()
		if err != nil && e.err == nil {
			e.err = errors.New("json: error calling MarshalJSON for type " + sym.TypeName(v) + ": " + err.Error())
		}
		return string(b)
	}
	if m, ok := v.(interface{ MarshalText() ([]byte, error) }); ok {
		b, err := m.MarshalText()
		if err != nil && e.err == nil {
			e.err = err
		}
		return quoteJSON(string(b), e.html)
	}
	switch k {
	case "string":
		return quoteJSON(sym.AsString(v), e.html)
	case "bool":
		if sym.AsBool(v) {
			return "true"
		}
		return "false"
	case "int", "uint":
		return strconv.Itoa(sym.Conc(int(sym.AsInt(v))))
	case "ptr":
		return e.text(sym.Elem(v))
	case "struct":
		return "{" + e.fields(v) + "}"
	case "slice", "array":
		if k == "slice" && sym.IsNil(v) {
			return "null"
		}
		out := ""
		for i := 0; i < sym.Len(v); i++ {
			if i > 0 {
				out += ","
			}
			out += e.text(sym.Index(v, i))
		}
		return "[" + out + "]"
	case "map":
		if sym.IsNil(v) {
			return "null"
		}
		var keys []string
		vals := map[string]any{}
		for i := 0; i < sym.Len(v); i++ {
			key, val := sym.MapEntry(v, i)
			ks := sym.AsString(key)
			keys = append(keys, ks)
			vals[ks] = val
		}
		sort.Strings(keys)
		out := ""
		for i, key := range keys {
			if i > 0 {
				out += ","
			}
			out += quoteJSON(key, e.html) + ":" + e.text(vals[key])
		}
		return "{" + out + "}"
	}
	sym.Unsupported("JSON encoding of " + sym.TypeName(v))
	return ""
}

func (e *jencoder) fields(v any) string {
	out := ""
	for i := 0; i < sym.NumField(v); i++ {
		name, tag, exported, emb := sym.FieldInfo(v, i)
		tag, opts := cutTag(tag)
		f := sym.Field(v, i)
		part := ""
		if emb && tag == "" && sym.Kind(f) == "struct" {
			part = e.fields(f)
		} else {
			if !exported || tag == "-" && opts == "" {
				continue
			}
			if opts != "" && opts != "omitempty" {
				sym.Unsupported("JSON option " + opts)
			}
			if opts == "omitempty" && isEmpty(f) {
				continue
			}
			if tag != "" {
				name = tag
			}
			part = quoteJSON(name, e.html) + ":" + e.text(f)
		}
		if out != "" && part != "" {
			out += ","
		}
		out += part
	}
	return out
}

//sym:replace encoding/json.Marshal
func JSONMarshal(v any) ([]byte, error) {
	e := &jencoder{html: true}
	s := e.text(v)
	if e.err != nil {
		return nil, e.err
	}
	return []byte(s), nil
}

type encState struct {
	w        io.Writer
	html     bool
	indented bool
}

func (*encState) Error() string { return "" }

func encOf(enc *json.Encoder) *encState {
	e, ok := member(enc, "err").(*encState)
	if !ok {
		sym.Unsupported("JSON encoder of unknown origin")
	}
	return e
}

//sym:replace encoding/json.NewEncoder
func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	setMember(e, "err", &encState{w: w, html: true})
	return e
}

//sym:replace (*encoding/json.Encoder).SetEscapeHTML
func EncoderEscape(enc *json.Encoder, on bool) { encOf(enc).html = on }

//sym:replace (*encoding/json.Encoder).SetIndent
func EncoderIndent(enc *json.Encoder, prefix, indent string) {
	if prefix != "" || indent != "" {
		sym.Unsupported("indented JSON")
	}
}

//sym:replace (*encoding/json.Encoder).Encode
func EncoderEncode(enc *json.Encoder, v any) error {
	st := encOf(enc)
	e := &jencoder{html: st.html}
	s := e.text(v)
	if e.err != nil {
		return e.err
	}
	_, err := st.w.Write([]byte(s + "\n"))
	return err
}
