// Package exec executes Go SSA symbolically.
package exec

import (
	"fmt"
	"go/types"
	"gosym/expr"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *expr.Expr (booleans, integers), Str, Ptr, Slice, Iface,
// *Closure, MapRef, StructV, ArrayV, Tuple, Float, ChanRef, Poison.
type Value interface{}

type Step struct {
	I   int
	Sym *expr.Expr // symbolic index (bounds already checked) when non-nil
}

// Ptr is a pointer into an object; Obj == 0 is nil.
type Ptr struct {
	Obj  int
	Path []Step
}

// Slice views an ArrayV found at Path in Obj; Obj == 0 is the nil slice.
type Slice struct {
	Obj       int
	Path      []Step
	Off, L, C int
}

type Str struct{ B []*expr.Expr }

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Value
}

type MapRef struct{ Obj int }
type ChanRef struct{ Obj int }
type StructV []Value
type ArrayV []Value
type Tuple []Value
type Float float64
type Complex complex128
type Poison struct{ Msg string }

// MapV is the (immutable) content of a map object.
type MapV struct {
	Keys, Vals []Value
}

// IterV is the (immutable) content of an iterator object.
type IterV struct {
	Str   *Str
	Map   int
	Keys  []Value
	Pos   int
	IsMap bool
}

// Obj is a heap object.
type Obj struct {
	V     Value
	T     types.Type
	Fresh bool // V is a flat aggregate nobody else references
	Site  string
}

type layer struct {
	parent *layer
	m      map[int]*Obj
	depth  int
	tag    string // case splits that must not be joined again
}

func newLayer(p *layer) *layer {
	d := 0
	if p != nil {
		d = p.depth + 1
	}
	return &layer{parent: p, m: map[int]*Obj{}, depth: d}
}

type panicRec struct {
	Val       Value
	Recovered bool
}

type outRec struct {
	Name string
	V    Value
}

// State is one symbolic path (or merged bundle of paths).
type State struct {
	top    *layer
	pc     []*expr.Expr
	wit    *expr.Assign
	conc   map[int]uint64 // terms already case-split on this path
	panics []panicRec
	outs   []outRec
	rnd    int
	reach  []string
	par    *parState
	locks  map[string]lockState
	cells  map[string]int // named engine cells -> object
	depth  int
	tag    string // case splits that must not be joined again
}

func (s *State) fork() *State {
	n := *s
	n.top = newLayer(s.top)
	s.top = newLayer(s.top)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	s.pc = n.pc
	n.panics = append([]panicRec{}, s.panics...)
	n.outs = s.outs[:len(s.outs):len(s.outs)]
	s.outs = n.outs
	n.reach = s.reach[:len(s.reach):len(s.reach)]
	s.reach = n.reach
	if s.par != nil {
		n.par = s.par.clone()
	}
	return &n
}

func (s *State) assume(e *expr.Expr) {
	if e.IsTrue() {
		return
	}
	if e.Op == expr.OpBAnd {
		s.pc = append(s.pc[:len(s.pc):len(s.pc)], e.Args...)
		return
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], e)
}

func (s *State) setConc(id int, v uint64) {
	n := make(map[int]uint64, len(s.conc)+1)
	for k, x := range s.conc {
		n[k] = x
	}
	n[id] = v
	s.conc = n
}

func (s *State) lookup(id int) *Obj {
	for l := s.top; l != nil; l = l.parent {
		if o, ok := l.m[id]; ok {
			return o
		}
	}
	return nil
}

func (r *Run) obj(s *State, id int) *Obj {
	if o := s.lookup(id); o != nil {
		return o
	}
	if o := r.base[id]; o != nil {
		return o
	}
	panic(fmt.Sprintf("internal: no object %d", id))
}

func isFlat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Array:
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return false
			}
		}
		return true
	}
	return true
}

func (r *Run) alloc(s *State, t types.Type, v Value, site string) int {
	r.nextObj++
	id := r.nextObj
	s.top.m[id] = &Obj{V: v, T: t, Fresh: isFlat(t), Site: site}
	return id
}

// setObj replaces the whole value of an object.
func (r *Run) setObj(s *State, id int, v Value) {
	o := r.obj(s, id)
	s.top.m[id] = &Obj{V: v, T: o.T, Site: o.Site}
}

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func addStep(p []Step, s Step) []Step {
	n := make([]Step, len(p)+1)
	copy(n, p)
	n[len(p)] = s
	return n
}

func elems(v Value) []Value {
	switch x := v.(type) {
	case StructV:
		return x
	case ArrayV:
		return x
	}
	unsup("aggregate access of %T", v)
	return nil
}

func (r *Run) get(v Value, path []Step) Value {
	for k, st := range path {
		if p, ok := v.(Poison); ok {
			unsup("poisoned value: %s", p.Msg)
		}
		es := elems(v)
		if st.Sym != nil {
			rest := path[k+1:]
			vs := make([]Value, len(es))
			for i, e := range es {
				vs[i] = r.get(e, rest)
			}
			return r.selectVal(vs, st.Sym)
		}
		v = es[st.I]
	}
	return v
}

func (r *Run) selectVal(vs []Value, idx *expr.Expr) Value {
	if len(vs) == 0 {
		unsup("select from empty")
	}
	if _, ok := vs[0].(*expr.Expr); ok {
		xs := make([]*expr.Expr, len(vs))
		for i, v := range vs {
			x, ok := v.(*expr.Expr)
			if !ok {
				unsup("select of mixed values")
			}
			xs[i] = x
		}
		return r.C.Select(xs, idx)
	}
	out := vs[0]
	for i := 1; i < len(vs); i++ {
		m := &merger{r: r, cond: r.C.Eq(idx, r.C.Const(idx.W, uint64(i)))}
		v, ok := m.val(vs[i], out)
		if !ok {
			unsup("select of unmergeable values %T", vs[i])
		}
		out = v
	}
	return out
}

func (r *Run) load(s *State, p Ptr) Value {
	o := r.obj(s, p.Obj)
	if len(p.Path) == 0 {
		switch o.V.(type) {
		case StructV, ArrayV:
			o.Fresh = false
		}
	}
	return r.get(o.V, p.Path)
}

func (r *Run) put(v Value, path []Step, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	if p, ok := v.(Poison); ok {
		unsup("poisoned value: %s", p.Msg)
	}
	es := elems(v)
	cp := make([]Value, len(es))
	copy(cp, es)
	st := path[0]
	if st.Sym != nil {
		for i := range cp {
			m := &merger{r: r, cond: r.C.Eq(st.Sym, r.C.Const(st.Sym.W, uint64(i)))}
			x, ok := m.val(r.put(es[i], path[1:], nv), es[i])
			if !ok {
				unsup("symbolic store of unmergeable value")
			}
			cp[i] = x
		}
	} else {
		cp[st.I] = r.put(es[st.I], path[1:], nv)
	}
	if _, ok := v.(StructV); ok {
		return StructV(cp)
	}
	return ArrayV(cp)
}

func (r *Run) store(s *State, p Ptr, v Value) {
	if len(p.Path) == 0 {
		r.setObj(s, p.Obj, v)
		return
	}
	o, own := s.top.m[p.Obj]
	if !own {
		o = r.obj(s, p.Obj)
	}
	if own && o.Fresh && len(p.Path) == 1 && p.Path[0].Sym == nil {
		elems(o.V)[p.Path[0].I] = v
		return
	}
	s.top.m[p.Obj] = &Obj{V: r.put(o.V, p.Path, v), T: o.T, Fresh: isFlat(o.T), Site: o.Site}
}

// arr returns the array elements a slice views (length C starting at Off).
func (r *Run) arr(s *State, sl Slice) []Value {
	if sl.Obj == 0 {
		return nil
	}
	o := r.obj(s, sl.Obj)
	v := r.get(o.V, sl.Path)
	return elems(v)[sl.Off : sl.Off+sl.L]
}

func (r *Run) sliceElem(sl Slice, i int) Ptr {
	return Ptr{Obj: sl.Obj, Path: addStep(sl.Path, Step{I: sl.Off + i})}
}

func (r *Run) mkBytes(s *State, b []*expr.Expr) Slice {
	a := make(ArrayV, len(b))
	for i, x := range b {
		a[i] = x
	}
	id := r.alloc(s, types.NewArray(types.Typ[types.Byte], int64(len(b))), a, "bytes")
	return Slice{Obj: id, L: len(b), C: len(b)}
}

func (r *Run) bytesOf(s *State, sl Slice) []*expr.Expr {
	vs := r.arr(s, sl)
	out := make([]*expr.Expr, len(vs))
	for i, v := range vs {
		x, ok := v.(*expr.Expr)
		if !ok {
			unsup("byte slice holding %T", v)
		}
		out[i] = x
	}
	return out
}

func (r *Run) str(s string) Str {
	b := make([]*expr.Expr, len(s))
	for i := range b {
		b[i] = r.byteK[s[i]]
	}
	return Str{b}
}

func (s Str) concrete() (string, bool) {
	var b strings.Builder
	for _, x := range s.B {
		if !x.IsConst() {
			return "", false
		}
		b.WriteByte(byte(x.C))
	}
	return b.String(), true
}

func (s Str) show() string {
	var b strings.Builder
	for _, x := range s.B {
		if x.IsConst() {
			b.WriteByte(byte(x.C))
		} else {
			b.WriteByte('?')
		}
	}
	return b.String()
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (r *Run) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsBoolean != 0:
			return r.C.False
		case u.Info()&types.IsInteger != 0:
			return r.C.Const(intWidth(u), 0)
		case u.Info()&types.IsFloat != 0:
			return Float(0)
		case u.Info()&types.IsComplex != 0:
			return Complex(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		}
		return nil
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = r.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(ArrayV, n)
		for i := range a {
			if i > 0 {
				switch u.Elem().Underlying().(type) {
				case *types.Struct, *types.Array:
				default:
					a[i] = a[0]
					continue
				}
			}
			a[i] = r.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = r.zero(u.At(i).Type())
		}
		return s
	}
	unsup("zero value of %s", t)
	return nil
}
