package exec

import (
	"fmt"
	"go/types"
	"gosym/expr"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// merger joins two states that reached the same place with the same stack.
// Values become if-then-else terms over cond (true: a, false: b). Objects
// allocated on only one side are paired up by walking the value graph.
type merger struct {
	r        *Run
	cond     *expr.Expr
	a, b     *State
	pairAB   map[int]int
	pairBA   map[int]int
	work     [][2]int
	out      map[int]*Obj
	only     map[int]bool // objects kept unpaired from one side
	ra, rb   []Value      // live values on each side
	parent   *Frame
	reach    [2]map[int]bool
	seenSame map[int]bool // objects identified with themselves
}

// dead reports that nothing live on side s refers to object id.
func (m *merger) dead(s *State, id int) bool {
	k, roots := 0, m.ra
	if s == m.b {
		k, roots = 1, m.rb
	}
	if m.reach[k] == nil {
		m.reach[k] = m.r.reachable(s, roots, m.parent)
	}
	return m.reach[k] != nil && !m.reach[k][id]
}

// reachable collects the objects of s reachable from live values; nil when unknown.
func (r *Run) reachable(s *State, roots []Value, parent *Frame) map[int]bool {
	if s.par != nil {
		return nil
	}
	seen := map[int]bool{}
	var work []int
	var walk func(v Value)
	add := func(id int) {
		if id != 0 && !seen[id] {
			seen[id] = true
			work = append(work, id)
		}
	}
	list := func(vs []Value) {
		if len(vs) > 0 {
			if _, leaf := vs[0].(*expr.Expr); leaf {
				if _, leaf := vs[len(vs)-1].(*expr.Expr); leaf && len(vs) > 8 {
					return
				}
			}
		}
		for _, v := range vs {
			walk(v)
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case Ptr:
			add(x.Obj)
		case Slice:
			add(x.Obj)
		case MapRef:
			add(x.Obj)
		case ChanRef:
			add(x.Obj)
		case Iface:
			walk(x.V)
		case *Closure:
			if x != nil {
				list(x.Binds)
			}
		case StructV:
			for _, y := range x {
				walk(y)
			}
		case ArrayV:
			list(x)
		case Tuple:
			for _, y := range x {
				walk(y)
			}
		case MapV:
			for _, y := range x.Keys {
				walk(y)
			}
			for _, y := range x.Vals {
				walk(y)
			}
		case IterV:
			add(x.Map)
			for _, y := range x.Keys {
				walk(y)
			}
		}
	}
	for _, v := range roots {
		walk(v)
	}
	for f := parent; f != nil; f = f.parent {
		for _, v := range f.regs {
			walk(v)
		}
		for _, d := range f.defers {
			walk(d.fn)
			for _, v := range d.args {
				walk(v)
			}
		}
	}
	for _, p := range s.panics {
		walk(p.Val)
	}
	for _, o := range s.outs {
		walk(o.V)
	}
	for _, id := range s.cells {
		add(id)
	}
	for l := s.top; l != nil; l = l.parent {
		for id := range l.m {
			if id < 0 {
				add(id)
			}
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := s.lookup(id)
		if o == nil {
			continue // from initialisation: cannot refer to later objects
		}
		walk(o.V)
	}
	return seen
}

func (m *merger) ptrObj(x, y int) (int, bool) {
	if x == y {
		if m.pairAB != nil && x != 0 {
			if p, ok := m.pairAB[x]; ok && p != x {
				return 0, false
			}
			if p, ok := m.pairBA[x]; ok && p != x {
				return 0, false
			}
			m.seenSame[x] = true
		}
		return x, true
	}
	if x == 0 || y == 0 || m.a == nil {
		return 0, false
	}
	if p, ok := m.pairAB[x]; ok {
		return x, p == y
	}
	if _, ok := m.pairBA[y]; ok {
		return 0, false
	}
	// each must be absent from, or unreachable on, the other side
	if m.r.base[x] != nil || m.r.base[y] != nil {
		return 0, false
	}
	if m.b.lookup(x) != nil && (m.seenSame[x] || !m.dead(m.b, x)) {
		return 0, false
	}
	if m.a.lookup(y) != nil && (m.seenSame[y] || !m.dead(m.a, y)) {
		return 0, false
	}
	m.pairAB[x] = y
	m.pairBA[y] = x
	m.work = append(m.work, [2]int{x, y})
	return x, true
}

func (m *merger) val(a, b Value) (Value, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *expr.Expr:
		y, ok := b.(*expr.Expr)
		if !ok || x.W != y.W {
			return nil, false
		}
		if x == y {
			return x, true
		}
		return m.r.C.Ite(m.cond, x, y), true
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.B) != len(y.B) {
			return nil, false
		}
		if len(x.B) == 0 || &x.B[0] == &y.B[0] {
			return x, true
		}
		same := true
		for i := range x.B {
			if x.B[i] != y.B[i] {
				same = false
				break
			}
		}
		if same {
			return x, true
		}
		out := make([]*expr.Expr, len(x.B))
		for i := range out {
			out[i] = m.r.C.Ite(m.cond, x.B[i], y.B[i])
		}
		return Str{out}, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || !samePath(x.Path, y.Path) {
			return nil, false
		}
		o, ok := m.ptrObj(x.Obj, y.Obj)
		return Ptr{o, x.Path}, ok
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.L != y.L || x.C != y.C || x.Off != y.Off || !samePath(x.Path, y.Path) {
			return nil, false
		}
		o, ok := m.ptrObj(x.Obj, y.Obj)
		x.Obj = o
		return x, ok
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.T == nil) != (y.T == nil) {
			return nil, false
		}
		if x.T == nil {
			return x, true
		}
		if !types.Identical(x.T, y.T) {
			return nil, false
		}
		v, ok := m.val(x.V, y.V)
		return Iface{x.T, v}, ok
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || x.Fn != y.Fn || len(x.Binds) != len(y.Binds) {
			return nil, false
		}
		bs, ok := m.vals(x.Binds, y.Binds)
		return &Closure{x.Fn, bs}, ok
	case MapRef:
		y, ok := b.(MapRef)
		if !ok {
			return nil, false
		}
		o, ok := m.ptrObj(x.Obj, y.Obj)
		return MapRef{o}, ok
	case ChanRef:
		y, ok := b.(ChanRef)
		return x, ok && x == y
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		if len(x) == 0 || &x[0] == &y[0] {
			if m.a == nil || len(m.pairAB) == 0 {
				return x, true
			}
		}
		v, ok := m.vals(x, y)
		return StructV(v), ok
	case ArrayV:
		y, ok := b.(ArrayV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		if len(x) == 0 || &x[0] == &y[0] {
			if _, leaf := firstLeaf(x); leaf {
				return x, true
			}
		}
		v, ok := m.vals(x, y)
		return ArrayV(v), ok
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		v, ok := m.vals(x, y)
		return Tuple(v), ok
	case Float:
		y, ok := b.(Float)
		return x, ok && x == y
	case Complex:
		y, ok := b.(Complex)
		return x, ok && x == y
	case Poison:
		_, ok := b.(Poison)
		return x, ok
	case MapV:
		y, ok := b.(MapV)
		if !ok || len(x.Keys) != len(y.Keys) {
			return nil, false
		}
		ks, ok := m.vals(x.Keys, y.Keys)
		if !ok {
			return nil, false
		}
		vs, ok := m.vals(x.Vals, y.Vals)
		return MapV{ks, vs}, ok
	case IterV:
		y, ok := b.(IterV)
		if !ok || x.Pos != y.Pos || x.Map != y.Map || x.IsMap != y.IsMap || len(x.Keys) != len(y.Keys) {
			return nil, false
		}
		if x.IsMap {
			ks, ok := m.vals(x.Keys, y.Keys)
			x.Keys = ks
			return x, ok
		}
		s, ok := m.val(*x.Str, *y.Str)
		if !ok {
			return nil, false
		}
		ss := s.(Str)
		x.Str = &ss
		return x, true
	case types.Type:
		y, ok := b.(types.Type)
		return x, ok && types.Identical(x, y)
	case ssa.Value:
		return x, a == b
	}
	return nil, false
}

func firstLeaf(x []Value) (Value, bool) {
	if len(x) == 0 {
		return nil, true
	}
	_, ok := x[0].(*expr.Expr)
	return x[0], ok
}

func (m *merger) vals(a, b []Value) ([]Value, bool) {
	out := make([]Value, len(a))
	for i := range a {
		v, ok := m.val(a[i], b[i])
		if !ok {
			return nil, false
		}
		out[i] = v
	}
	return out, true
}

func commonLayer(a, b *layer) *layer {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.depth >= b.depth {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	return a
}

func changed(s *State, base *layer) map[int]*Obj {
	out := map[int]*Obj{}
	for l := s.top; l != base; l = l.parent {
		for id, o := range l.m {
			if _, ok := out[id]; !ok {
				out[id] = o
			}
		}
	}
	return out
}

// roots is a pair of matching value lists to merge besides the heap.
func (r *Run) mergeStates(a, b *State, ra, rb []Value, parent *Frame) (*State, []Value, bool) {
	if a.tag != b.tag || len(ra) != len(rb) || a.rnd != b.rnd || len(a.panics) != len(b.panics) || len(a.outs) != len(b.outs) {
		return nil, nil, false
	}
	if (a.par == nil) != (b.par == nil) || a.par != nil && !a.par.same(b.par) {
		return nil, nil, false
	}
	if (len(a.locks) > 0 || len(b.locks) > 0) && fmt.Sprint(a.locks) != fmt.Sprint(b.locks) {
		return nil, nil, false
	}
	for i := range a.panics {
		if a.panics[i].Recovered != b.panics[i].Recovered {
			return nil, nil, false
		}
	}
	if len(a.cells) != len(b.cells) {
		return nil, nil, false
	}
	for k, v := range a.cells {
		if b.cells[k] != v {
			return nil, nil, false
		}
	}
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	da, db := a.pc[n:], b.pc[n:]
	ca, cb := r.C.BAnd(da...), r.C.BAnd(db...)
	cond := ca
	if len(db) < len(da) {
		cond = r.C.BNot(cb)
	}
	if len(da) == 0 || len(db) == 0 || cond.IsConst() {
		return nil, nil, false
	}
	m := &merger{r: r, cond: cond, a: a, b: b, pairAB: map[int]int{}, pairBA: map[int]int{}, ra: ra, rb: rb, parent: parent, seenSame: map[int]bool{}}
	roots, ok := m.vals(ra, rb)
	if !ok {
		return nil, nil, false
	}
	outs := make([]outRec, len(a.outs))
	for i := range outs {
		if a.outs[i].Name != b.outs[i].Name {
			return nil, nil, false
		}
		v, ok := m.val(a.outs[i].V, b.outs[i].V)
		if !ok {
			return nil, nil, false
		}
		outs[i] = outRec{a.outs[i].Name, v}
	}
	base := commonLayer(a.top, b.top)
	cha, chb := changed(a, base), changed(b, base)
	res := map[int]*Obj{}
	get := func(s *State, id int) *Obj {
		if o := s.lookup(id); o != nil {
			return o
		}
		return r.base[id]
	}
	pairs := func() bool {
		for len(m.work) > 0 {
			p := m.work[len(m.work)-1]
			m.work = m.work[:len(m.work)-1]
			oa, ob := a.lookup(p[0]), b.lookup(p[1])
			if oa == nil || ob == nil || !types.Identical(oa.T, ob.T) {
				return false
			}
			v, ok := m.val(oa.V, ob.V)
			if !ok {
				return false
			}
			res[p[0]] = &Obj{V: v, T: oa.T, Site: oa.Site}
		}
		return true
	}
	if !pairs() {
		return nil, nil, false
	}
	// objects known to both sides
	var ids []int
	for id := range cha {
		ids = append(ids, id)
	}
	for id := range chb {
		if cha[id] == nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	oneSide := false
	for _, id := range ids {
		oa, ob := get(a, id), get(b, id)
		if oa == nil || ob == nil {
			continue // allocated on one side only
		}
		if oa == ob {
			res[id] = oa
			continue
		}
		if _, ok := m.pairAB[id]; ok {
			continue
		}
		if _, ok := m.pairBA[id]; ok {
			continue
		}
		v, ok := m.val(oa.V, ob.V)
		if !ok {
			if !m.dead(b, id) {
				return nil, nil, false
			}
			if !m.dead(a, id) {
				oneSide = true
			}
			res[id] = oa
			continue
		}
		if _, ok := m.pairAB[id]; !ok {
			res[id] = &Obj{V: v, T: oa.T, Site: oa.Site}
		}
	}
	if !pairs() {
		return nil, nil, false
	}
	if oneSide {
		for id, o := range cha {
			if res[id] == nil {
				res[id] = o
			}
		}
	}
	// Any value reaching a fresh one-sided object would have been paired or
	// have failed, so unpaired one-sided objects are garbage.
	st := *a
	st.top = newLayer(base)
	st.top.m = res
	st.outs = outs
	pc := a.pc[:n:n]
	st.pc = pc
	or := r.C.BOr(ca, cb)
	st.assume(or)
	if st.wit == nil {
		st.wit = b.wit
	}
	if len(a.conc) > 0 {
		c := map[int]uint64{}
		for k, v := range a.conc {
			if w, ok := b.conc[k]; ok && w == v {
				c[k] = v
			}
		}
		st.conc = c
	}
	rm := map[string]bool{}
	for _, x := range a.reach {
		rm[x] = true
	}
	st.reach = a.reach[:len(a.reach):len(a.reach)]
	for _, x := range b.reach {
		if !rm[x] {
			st.reach = append(st.reach, x)
		}
	}
	r.Stats.Merges++
	return &st, roots, true
}
