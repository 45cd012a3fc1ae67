package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"gosym/expr"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (x *xc) set(ins ssa.Value, v Value) res {
	x.fr.regs[x.fr.info.num[ins]] = v
	return res{}
}

func (x *xc) reg(v ssa.Value) Value { return x.r.val(x.fr, v) }

func (x *xc) num(v ssa.Value) *expr.Expr {
	e, ok := x.reg(v).(*expr.Expr)
	if !ok {
		unsup("expected a number, have %T", x.reg(v))
	}
	return e
}

// known returns the value of e if it is fixed on this path.
func (x *xc) known(e *expr.Expr) (uint64, bool) {
	if e.IsConst() {
		return e.C, true
	}
	v, ok := x.st.conc[e.ID]
	return v, ok
}

func (x *xc) panicWith(st *State, v Value) {
	*x.outs = append(*x.outs, Out{kind: kPanic, st: st, fr: x.fr.clone(), val: v, msg: ""})
}

// require continues with cond assumed and emits a panic outcome where it fails.
func (x *xc) require(cond *expr.Expr, f string, a ...interface{}) bool {
	t, n := x.r.split(x.st, cond)
	if n != nil {
		x.panicWith(n, x.r.runtimeError(fmt.Sprintf(f, a...)))
	}
	if t == nil {
		return false
	}
	x.st = t
	return true
}

func (r *Run) runtimeError(msg string) Value {
	if p := r.E.Prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			return Iface{T: t.Type(), V: r.str(msg)}
		}
	}
	return Iface{T: types.Typ[types.String], V: r.str("runtime error: " + msg)}
}

func (r *Run) showPanic(st *State, v Value) string {
	i, ok := v.(Iface)
	if !ok || i.T == nil {
		return fmt.Sprint(v)
	}
	if s, ok := i.V.(Str); ok {
		return s.show()
	}
	if p, ok := i.V.(Ptr); ok && p.Obj != 0 {
		if sv, ok := r.load(st, p).(StructV); ok && len(sv) > 0 {
			if s, ok := sv[0].(Str); ok {
				return i.T.String() + ": " + s.show()
			}
		}
	}
	return i.T.String()
}

func (x *xc) nilDeref() res {
	x.panicWith(x.st, x.r.runtimeError("invalid memory address or nil pointer dereference"))
	return res{kind: rDead}
}

func (x *xc) ptr(v ssa.Value) Ptr {
	p, ok := x.reg(v).(Ptr)
	if !ok {
		unsup("expected a pointer, have %T", x.reg(v))
	}
	return p
}

func (x *xc) step(ins ssa.Instruction) res {
	r := x.r
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return res{}
	case *ssa.Alloc:
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		return x.set(ins, Ptr{Obj: r.alloc(x.st, t, r.zero(t), "alloc")})
	case *ssa.BinOp:
		return x.binop(ins)
	case *ssa.UnOp:
		return x.unop(ins)
	case *ssa.Call:
		return x.callInstr(ins)
	case *ssa.ChangeInterface:
		return x.set(ins, x.reg(ins.X))
	case *ssa.ChangeType:
		return x.set(ins, x.reg(ins.X))
	case *ssa.Convert:
		return x.convert(ins)
	case *ssa.MultiConvert:
		return x.set(ins, x.conv(x.reg(ins.X), ins.X.Type(), ins.Type()))
	case *ssa.Defer:
		d := deferred{call: &ins.Call}
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
			d.bi = b
		} else {
			d.fn = x.reg(ins.Call.Value)
		}
		for _, a := range ins.Call.Args {
			d.args = append(d.args, x.reg(a))
		}
		x.fr.defers = append(x.fr.defers[:len(x.fr.defers):len(x.fr.defers)], d)
		return res{}
	case *ssa.RunDefers:
		outs := r.runDefers(x.st, x.fr, 0)
		var ms []mstate
		for _, o := range outs {
			if o.kind == kReach {
				ms = append(ms, mstate{st: o.st})
			} else {
				*x.outs = append(*x.outs, o)
			}
		}
		x.fr.defers = nil
		return res{kind: rMulti, multi: ms}
	case *ssa.Extract:
		t, ok := x.reg(ins.Tuple).(Tuple)
		if !ok {
			unsup("extract from %v", x.reg(ins.Tuple))
		}
		return x.set(ins, t[ins.Index])
	case *ssa.Field:
		return x.set(ins, elems(x.reg(ins.X))[ins.Field])
	case *ssa.FieldAddr:
		p := x.ptr(ins.X)
		if p.Obj == 0 {
			return x.nilDeref()
		}
		return x.set(ins, Ptr{p.Obj, addStep(p.Path, Step{I: ins.Field})})
	case *ssa.Index:
		switch v := x.reg(ins.X).(type) {
		case Str:
			e, ok := x.index(x.num(ins.Index), ins.Index.Type(), len(v.B))
			if !ok {
				return res{kind: rDead}
			}
			return x.set(ins, r.C.Select(v.B, e))
		case ArrayV:
			e, ok := x.index(x.num(ins.Index), ins.Index.Type(), len(v))
			if !ok {
				return res{kind: rDead}
			}
			if e.IsConst() {
				return x.set(ins, v[e.C])
			}
			return x.set(ins, r.selectVal(v, e))
		}
		unsup("index of %T", x.reg(ins.X))
	case *ssa.IndexAddr:
		idx := x.num(ins.Index)
		switch v := x.reg(ins.X).(type) {
		case Slice:
			e, ok := x.index(idx, ins.Index.Type(), v.L)
			if !ok {
				return res{kind: rDead}
			}
			if e.IsConst() {
				return x.set(ins, r.sliceElem(v, int(e.C)))
			}
			e = r.C.Add(r.C.Zext(e, 64), r.C.Const(64, uint64(v.Off)))
			return x.set(ins, Ptr{v.Obj, addStep(v.Path, Step{Sym: e})})
		case Ptr:
			if v.Obj == 0 {
				return x.nilDeref()
			}
			n := int(ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			e, ok := x.index(idx, ins.Index.Type(), n)
			if !ok {
				return res{kind: rDead}
			}
			if e.IsConst() {
				return x.set(ins, Ptr{v.Obj, addStep(v.Path, Step{I: int(e.C)})})
			}
			return x.set(ins, Ptr{v.Obj, addStep(v.Path, Step{Sym: r.C.Zext(e, 64)})})
		}
		unsup("index address of %T", x.reg(ins.X))
	case *ssa.Lookup:
		if s, ok := x.reg(ins.X).(Str); ok {
			e, ok := x.index(x.num(ins.Index), ins.Index.Type(), len(s.B))
			if !ok {
				return res{kind: rDead}
			}
			return x.set(ins, r.C.Select(s.B, e))
		}
		return x.mapLookup(ins)
	case *ssa.MapUpdate:
		return x.mapUpdate(ins)
	case *ssa.MakeChan:
		return x.set(ins, ChanRef{r.alloc(x.st, types.Typ[types.Int], r.C.Const(64, 0), "chan")})
	case *ssa.MakeClosure:
		c := &Closure{Fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			c.Binds = append(c.Binds, x.reg(b))
		}
		return x.set(ins, c)
	case *ssa.MakeInterface:
		return x.set(ins, Iface{T: ins.X.Type(), V: x.reg(ins.X)})
	case *ssa.MakeMap:
		return x.set(ins, MapRef{r.alloc(x.st, types.Typ[types.Int], MapV{}, "map")})
	case *ssa.MakeSlice:
		l, c := x.sx64(x.num(ins.Len), ins.Len.Type()), x.sx64(x.num(ins.Cap), ins.Cap.Type())
		lim := r.C.Const(64, 1<<32)
		if !x.require(r.C.Ult(l, lim), "makeslice: len out of range") || !x.require(r.C.Ule(l, c), "makeslice: cap out of range") {
			return res{kind: rDead}
		}
		n, ok := x.known(l)
		if !ok {
			return res{kind: rSplit, split: l}
		}
		k, ok := x.known(c)
		if !ok {
			return res{kind: rSplit, split: c}
		}
		if k > 1<<20 {
			unsup("allocation of %d elements", k)
		}
		return x.set(ins, r.makeSlice(x.st, ins.Type().Underlying().(*types.Slice).Elem(), int(n), int(k)))
	case *ssa.Next:
		return x.next(ins)
	case *ssa.Range:
		switch v := x.reg(ins.X).(type) {
		case Str:
			return x.set(ins, Ptr{Obj: r.alloc(x.st, types.Typ[types.Int], IterV{Str: &v}, "iter")})
		case MapRef:
			it := IterV{IsMap: true, Map: v.Obj}
			if v.Obj != 0 {
				it.Keys = r.obj(x.st, v.Obj).V.(MapV).Keys
			}
			return x.set(ins, Ptr{Obj: r.alloc(x.st, types.Typ[types.Int], it, "iter")})
		}
		unsup("range over %T", x.reg(ins.X))
	case *ssa.Slice:
		return x.slice(ins)
	case *ssa.SliceToArrayPointer:
		s := x.reg(ins.X).(Slice)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.L < n {
			x.panicWith(x.st, r.runtimeError(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.L, n)))
			return res{kind: rDead}
		}
		if s.Obj == 0 {
			return x.set(ins, Ptr{})
		}
		if s.Off == 0 && len(elems(r.get(r.obj(x.st, s.Obj).V, s.Path))) == n {
			return x.set(ins, Ptr{s.Obj, s.Path})
		}
		// only correct if the pointer is merely read: allow when immediately dereferenced
		for _, ref := range *ins.Referrers() {
			if u, ok := ref.(*ssa.UnOp); !ok || u.Op != token.MUL {
				unsup("array pointer into part of a slice")
			}
		}
		a := append(ArrayV{}, r.arr(x.st, s)[:n]...)
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		return x.set(ins, Ptr{Obj: r.alloc(x.st, t, a, "arraycopy")})
	case *ssa.Store:
		p := x.ptr(ins.Addr)
		if p.Obj == 0 {
			return x.nilDeref()
		}
		if c, stop := x.touch(p, true); stop {
			return c
		}
		r.store(x.st, p, x.reg(ins.Val))
		return res{}
	case *ssa.TypeAssert:
		return x.typeAssert(ins)
	case *ssa.Go:
		unsup("go statement")
	case *ssa.Select, *ssa.Send:
		unsup("channel operation")
	}
	unsup("instruction %T", ins)
	return res{}
}

func (r *Run) makeSlice(st *State, elem types.Type, n, c int) Slice {
	t := types.NewArray(elem, int64(c))
	return Slice{Obj: r.alloc(st, t, r.zero(t), "make"), L: n, C: c}
}

// sx64 widens an integer of type t to 64 bits.
func (x *xc) sx64(e *expr.Expr, t types.Type) *expr.Expr {
	if isSigned(t) {
		return x.r.C.Sext(e, 64)
	}
	return x.r.C.Zext(e, 64)
}

// index checks bounds and returns the index.
func (x *xc) index(e *expr.Expr, t types.Type, n int) (*expr.Expr, bool) {
	w := x.sx64(e, t)
	if !x.require(x.r.C.Ult(w, x.r.C.Const(64, uint64(n))), "index out of range") {
		return nil, false
	}
	if v, ok := x.known(w); ok {
		return x.r.C.Const(64, v), true
	}
	return w, true
}

func (x *xc) unop(ins *ssa.UnOp) res {
	r := x.r
	switch ins.Op {
	case token.MUL:
		p := x.ptr(ins.X)
		if p.Obj == 0 {
			return x.nilDeref()
		}
		if c, stop := x.touch(p, false); stop {
			return c
		}
		v := r.load(x.st, p)
		if pz, ok := v.(Poison); ok && r.initing == 0 {
			unsup("uses %s: %s", ins.X, pz.Msg)
		}
		return x.set(ins, v)
	case token.NOT:
		return x.set(ins, r.C.BNot(x.num(ins.X)))
	case token.SUB:
		if f, ok := x.reg(ins.X).(Float); ok {
			return x.set(ins, -f)
		}
		return x.set(ins, r.C.Neg(x.num(ins.X)))
	case token.XOR:
		return x.set(ins, r.C.Not(x.num(ins.X)))
	}
	unsup("unary %s", ins.Op)
	return res{}
}

func (x *xc) binop(ins *ssa.BinOp) res {
	r := x.r
	c := r.C
	a, b := x.reg(ins.X), x.reg(ins.Y)
	switch ins.Op {
	case token.EQL:
		return x.set(ins, x.eq(a, b))
	case token.NEQ:
		return x.set(ins, c.BNot(x.eq(a, b)))
	}
	switch p := a.(type) {
	case Float:
		q := b.(Float)
		switch ins.Op {
		case token.ADD:
			return x.set(ins, p+q)
		case token.SUB:
			return x.set(ins, p-q)
		case token.MUL:
			return x.set(ins, p*q)
		case token.QUO:
			return x.set(ins, p/q)
		case token.LSS:
			return x.set(ins, c.Bool(p < q))
		case token.LEQ:
			return x.set(ins, c.Bool(p <= q))
		case token.GTR:
			return x.set(ins, c.Bool(p > q))
		case token.GEQ:
			return x.set(ins, c.Bool(p >= q))
		}
	case Str:
		q := b.(Str)
		switch ins.Op {
		case token.ADD:
			return x.set(ins, Str{append(p.B[:len(p.B):len(p.B)], q.B...)})
		case token.LSS:
			return x.set(ins, r.strLess(p, q))
		case token.GTR:
			return x.set(ins, r.strLess(q, p))
		case token.LEQ:
			return x.set(ins, c.BNot(r.strLess(q, p)))
		case token.GEQ:
			return x.set(ins, c.BNot(r.strLess(p, q)))
		}
	case *expr.Expr:
		q, ok := b.(*expr.Expr)
		if !ok {
			break
		}
		sg := isSigned(ins.X.Type())
		switch ins.Op {
		case token.ADD:
			return x.set(ins, c.Add(p, q))
		case token.SUB:
			return x.set(ins, c.Sub(p, q))
		case token.MUL:
			return x.set(ins, c.Mul(p, q))
		case token.QUO, token.REM:
			if !x.require(c.BNot(c.Eq(q, c.Const(q.W, 0))), "integer divide by zero") {
				return res{kind: rDead}
			}
			switch {
			case ins.Op == token.QUO && sg:
				return x.set(ins, c.SDiv(p, q))
			case ins.Op == token.QUO:
				return x.set(ins, c.UDiv(p, q))
			case sg:
				return x.set(ins, c.SRem(p, q))
			}
			return x.set(ins, c.URem(p, q))
		case token.AND:
			return x.set(ins, c.And(p, q))
		case token.OR:
			return x.set(ins, c.Or(p, q))
		case token.XOR:
			return x.set(ins, c.Xor(p, q))
		case token.AND_NOT:
			return x.set(ins, c.And(p, c.Not(q)))
		case token.SHL, token.SHR:
			if isSigned(ins.Y.Type()) {
				if !x.require(c.BNot(c.Slt(q, c.Const(q.W, 0))), "negative shift amount") {
					return res{kind: rDead}
				}
			}
			n := q
			if n.W < p.W {
				n = c.Zext(n, p.W)
			} else if n.W > p.W {
				n = c.Ite(c.Ult(n, c.Const(n.W, uint64(p.W))), c.Extract(p.W-1, 0, n), c.Const(p.W, uint64(p.W)))
			}
			switch {
			case ins.Op == token.SHL:
				return x.set(ins, c.Shl(p, n))
			case sg:
				return x.set(ins, c.Ashr(p, n))
			}
			return x.set(ins, c.Lshr(p, n))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			lt := c.Ult
			if sg {
				lt = c.Slt
			}
			switch ins.Op {
			case token.LSS:
				return x.set(ins, lt(p, q))
			case token.GTR:
				return x.set(ins, lt(q, p))
			case token.LEQ:
				return x.set(ins, c.BNot(lt(q, p)))
			}
			return x.set(ins, c.BNot(lt(p, q)))
		case token.LAND:
			return x.set(ins, c.BAnd(p, q))
		case token.LOR:
			return x.set(ins, c.BOr(p, q))
		}
	}
	unsup("binary %s on %T, %T", ins.Op, a, b)
	return res{}
}

func (r *Run) strLess(a, b Str) *expr.Expr {
	c := r.C
	// from the end
	n := len(a.B)
	if len(b.B) < n {
		n = len(b.B)
	}
	out := c.Bool(len(a.B) < len(b.B))
	for i := n - 1; i >= 0; i-- {
		out = c.BOr(c.Ult(a.B[i], b.B[i]), c.BAnd(c.Eq(a.B[i], b.B[i]), out))
	}
	return out
}

func (r *Run) strEq(a, b Str) *expr.Expr {
	if len(a.B) != len(b.B) {
		return r.C.False
	}
	cs := make([]*expr.Expr, 0, len(a.B))
	for i := range a.B {
		e := r.C.Eq(a.B[i], b.B[i])
		if e.IsFalse() {
			return e
		}
		cs = append(cs, e)
	}
	return r.C.BAnd(cs...)
}

// eq is Go's == as a boolean term.
func (x *xc) eq(a, b Value) *expr.Expr {
	c := x.r.C
	switch p := a.(type) {
	case *expr.Expr:
		q, ok := b.(*expr.Expr)
		if !ok {
			break
		}
		return c.Eq(p, q)
	case Str:
		return x.r.strEq(p, b.(Str))
	case Float:
		return c.Bool(p == b.(Float))
	case Ptr:
		q, ok := b.(Ptr)
		if !ok {
			break
		}
		if p.Obj != q.Obj {
			return c.False
		}
		for i := range p.Path {
			if p.Path[i].Sym != nil || i < len(q.Path) && q.Path[i].Sym != nil {
				if !samePath(p.Path, q.Path) {
					unsup("comparison of symbolic pointers")
				}
			}
		}
		return c.Bool(samePath(p.Path, q.Path))
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			break
		}
		if p.T == nil || q.T == nil {
			return c.Bool(p.T == nil && q.T == nil)
		}
		if !types.Identical(p.T, q.T) {
			return c.False
		}
		if !types.Comparable(p.T) {
			unsup("comparison of uncomparable interface values")
		}
		return x.eq(p.V, q.V)
	case Slice:
		if q, ok := b.(Slice); ok && (q.Obj == 0 || p.Obj == 0) {
			return c.Bool(q.Obj == 0 && p.Obj == 0)
		}
	case *Closure:
		if q, ok := b.(*Closure); ok && (q == nil || p == nil) {
			return c.Bool(p == nil && q == nil)
		}
	case MapRef:
		if q, ok := b.(MapRef); ok {
			return c.Bool(p == q)
		}
	case ChanRef:
		if q, ok := b.(ChanRef); ok {
			return c.Bool(p == q)
		}
	case StructV:
		q := b.(StructV)
		var cs []*expr.Expr
		for i := range p {
			cs = append(cs, x.eq(p[i], q[i]))
		}
		return c.BAnd(cs...)
	case ArrayV:
		q := b.(ArrayV)
		var cs []*expr.Expr
		for i := range p {
			cs = append(cs, x.eq(p[i], q[i]))
		}
		return c.BAnd(cs...)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *xc) convert(ins *ssa.Convert) res {
	r := x.r
	v := x.reg(ins.X)
	// string(rune) for a symbolic rune below 0x80 keeps one byte
	return x.set(ins, r.convOn(x, v, ins.X.Type(), ins.Type()))
}

func (x *xc) conv(v Value, from, to types.Type) Value { return x.r.convOn(x, v, from, to) }

func (r *Run) convOn(x *xc, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	tb, _ := tu.(*types.Basic)
	fb, _ := fu.(*types.Basic)
	switch p := v.(type) {
	case Poison:
		unsup("conversion of %s", p.Msg)
	case *expr.Expr:
		if tb != nil {
			switch {
			case tb.Info()&types.IsInteger != 0:
				if p.W >= intWidth(tb) {
					return r.C.Zext(p, intWidth(tb))
				}
				if isSigned(from) {
					return r.C.Sext(p, intWidth(tb))
				}
				return r.C.Zext(p, intWidth(tb))
			case tb.Info()&types.IsFloat != 0:
				k, ok := x.known(p)
				if !ok {
					unsup("symbolic integer to float")
				}
				if isSigned(from) {
					return Float(float64(int64(k << (64 - uint(p.W)) >> (64 - uint(p.W)))))
				}
				return Float(float64(k))
			case tb.Info()&types.IsString != 0:
				if k, ok := x.known(p); ok {
					return r.str(string(rune(int32(k))))
				}
				if _, hi := p.Range(); hi < 0x80 {
					return Str{[]*expr.Expr{r.C.Extract(7, 0, p)}}
				}
				unsup("symbolic rune to string")
			}
		}
	case Float:
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			if tb.Kind() == types.Float32 {
				return Float(float32(p))
			}
			return p
		}
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			if isSigned(to) {
				return r.C.Const(intWidth(tb), uint64(int64(p)))
			}
			return r.C.Const(intWidth(tb), uint64(p))
		}
	case Str:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return p
		}
		if sl, ok := tu.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				if len(p.B) == 0 {
					return Slice{Obj: r.alloc(x.st, types.NewArray(types.Typ[types.Byte], 0), ArrayV{}, "conv")}
				}
				s := r.mkBytes(x.st, p.B)
				return r.growCap(x.st, s, types.Typ[types.Byte], roundCap(len(p.B), 1))
			}
			if eb.Kind() == types.Int32 {
				var rs []Value
				if c, ok := p.concrete(); ok {
					for _, ch := range c {
						rs = append(rs, r.C.Const(32, uint64(uint32(ch))))
					}
				} else {
					for _, b := range p.B {
						if _, hi := b.Range(); hi >= 0x80 {
							unsup("symbolic non-ASCII string to runes")
						}
						rs = append(rs, r.C.Zext(b, 32))
					}
				}
				id := r.alloc(x.st, types.NewArray(types.Typ[types.Int32], int64(len(rs))), ArrayV(rs), "runes")
				return Slice{Obj: id, L: len(rs), C: len(rs)}
			}
		}
	case Slice:
		if tb != nil && tb.Info()&types.IsString != 0 {
			eb := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return Str{r.bytesOf(x.st, p)}
			}
			var out []*expr.Expr
			for _, e := range r.arr(x.st, p) {
				ch := e.(*expr.Expr)
				if ch.IsConst() {
					out = append(out, r.str(string(rune(int32(ch.C)))).B...)
				} else if _, hi := ch.Range(); hi < 0x80 {
					out = append(out, r.C.Extract(7, 0, ch))
				} else {
					unsup("symbolic runes to string")
				}
			}
			return Str{out}
		}
		return p
	case Ptr:
		if tb != nil && tb.Kind() == types.Uintptr {
			unsup("pointer to integer conversion")
		}
		_ = fb
		return p
	case *Closure, MapRef, ChanRef, Iface, StructV, ArrayV:
		return p
	}
	unsup("conversion of %T from %s to %s", v, from, to)
	return nil
}

// growCap gives a slice spare capacity up to c zero elements.
func (r *Run) growCap(st *State, s Slice, elem types.Type, c int) Slice {
	if c <= s.C {
		return s
	}
	o := r.obj(st, s.Obj)
	a := append(ArrayV{}, elems(o.V)...)
	z := r.zero(elem)
	for len(a) < c {
		a = append(a, z)
	}
	st.top.m[s.Obj] = &Obj{V: a, T: types.NewArray(elem, int64(c)), Fresh: o.Fresh, Site: o.Site}
	s.C = c
	return s
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// roundCap is the capacity the runtime gives to n elements of the given size.
func roundCap(n, size int) int {
	if size == 0 {
		return n
	}
	b := n * size
	for _, s := range sizeClasses {
		if s >= b {
			return s / size
		}
	}
	p := 8192
	return (b + p - 1) / p * p / size
}

func (x *xc) slice(ins *ssa.Slice) res {
	r := x.r
	c := r.C
	v := x.reg(ins.X)
	var l, cp int
	var sl Slice
	var isStr bool
	var s Str
	switch p := v.(type) {
	case Str:
		isStr = true
		s = p
		l, cp = len(p.B), len(p.B)
	case Slice:
		sl = p
		l, cp = p.L, p.C
	case Ptr:
		if p.Obj == 0 {
			return x.nilDeref()
		}
		n := int(ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		sl = Slice{Obj: p.Obj, Path: p.Path, L: n, C: n}
		l, cp = n, n
	default:
		unsup("slice of %T", v)
	}
	k := func(n int) *expr.Expr { return c.Const(64, uint64(n)) }
	lo, hi, mx := k(0), k(l), k(cp)
	if ins.Low != nil {
		lo = x.sx64(x.num(ins.Low), ins.Low.Type())
	}
	if ins.High != nil {
		hi = x.sx64(x.num(ins.High), ins.High.Type())
	}
	if ins.Max != nil {
		mx = x.sx64(x.num(ins.Max), ins.Max.Type())
		if !x.require(c.Ule(mx, k(cp)), "slice bounds out of range [::max]") || !x.require(c.Ule(hi, mx), "slice bounds out of range [:high:max]") {
			return res{kind: rDead}
		}
	} else if !x.require(c.Ule(hi, k(cp)), "slice bounds out of range [:high]") {
		return res{kind: rDead}
	}
	if !x.require(c.Ule(lo, hi), "slice bounds out of range [low:high]") {
		return res{kind: rDead}
	}
	var n [3]int
	for i, e := range []*expr.Expr{lo, hi, mx} {
		u, ok := x.known(e)
		if !ok {
			return res{kind: rSplit, split: e}
		}
		n[i] = int(u)
	}
	if isStr {
		return x.set(ins, Str{s.B[n[0]:n[1]:n[1]]})
	}
	if sl.Obj == 0 {
		return x.set(ins, Slice{})
	}
	sl.Off += n[0]
	sl.L = n[1] - n[0]
	sl.C = n[2] - n[0]
	return x.set(ins, sl)
}

func (x *xc) typeAssert(ins *ssa.TypeAssert) res {
	v, ok := x.reg(ins.X).(Iface)
	if !ok {
		unsup("type assertion on %T", x.reg(ins.X))
	}
	good := false
	_, toIface := ins.AssertedType.Underlying().(*types.Interface)
	if v.T != nil {
		if toIface {
			good = types.Implements(v.T, ins.AssertedType.Underlying().(*types.Interface))
		} else {
			good = types.Identical(v.T, ins.AssertedType)
		}
	}
	var out Value
	if good {
		if toIface {
			out = v
		} else {
			out = v.V
		}
	} else {
		out = x.r.zero(ins.AssertedType)
	}
	if ins.CommaOk {
		return x.set(ins, Tuple{out, x.r.C.Bool(good)})
	}
	if !good {
		x.panicWith(x.st, x.r.runtimeError("interface conversion"))
		return res{kind: rDead}
	}
	return x.set(ins, out)
}

// ---------------------------------------------------------------- maps

// find locates key among the entries, splitting on undecided equalities.
func (x *xc) find(m MapV, key Value) (int, *expr.Expr) {
	for i, k := range m.Keys {
		e := x.eq(k, key)
		if e.IsTrue() {
			return i, nil
		}
		if e.IsFalse() {
			continue
		}
		if v, ok := x.st.conc[e.ID]; ok {
			if v == 1 {
				return i, nil
			}
			continue
		}
		if v, ok := x.r.known(x.st, e); ok {
			if v {
				return i, nil
			}
			continue
		}
		return -1, e
	}
	return -1, nil
}

func (x *xc) mapLookup(ins *ssa.Lookup) res {
	ref, ok := x.reg(ins.X).(MapRef)
	if !ok {
		unsup("map lookup on %T", x.reg(ins.X))
	}
	mt := ins.X.Type().Underlying().(*types.Map)
	var v Value
	found := false
	if ref.Obj != 0 {
		if c, stop := x.preempt(ref.Obj, false); stop {
			return c
		}
		m := x.r.obj(x.st, ref.Obj).V.(MapV)
		i, sp := x.find(m, x.reg(ins.Index))
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		if i >= 0 {
			v, found = m.Vals[i], true
		}
	}
	if !found {
		v = x.r.zero(mt.Elem())
	}
	if ins.CommaOk {
		return x.set(ins, Tuple{v, x.r.C.Bool(found)})
	}
	return x.set(ins, v)
}

func (x *xc) mapUpdate(ins *ssa.MapUpdate) res {
	ref := x.reg(ins.Map).(MapRef)
	if ref.Obj == 0 {
		x.panicWith(x.st, Iface{T: types.Typ[types.String], V: x.r.str("assignment to entry in nil map")})
		return res{kind: rDead}
	}
	if c, stop := x.preempt(ref.Obj, true); stop {
		return c
	}
	m := x.r.obj(x.st, ref.Obj).V.(MapV)
	key, val := x.reg(ins.Key), x.reg(ins.Value)
	i, sp := x.find(m, key)
	if sp != nil {
		return res{kind: rSplit, split: sp}
	}
	n := MapV{Keys: m.Keys, Vals: append([]Value{}, m.Vals...)}
	if i >= 0 {
		n.Vals[i] = val
	} else {
		n.Keys = append(m.Keys[:len(m.Keys):len(m.Keys)], key)
		n.Vals = append(n.Vals, val)
	}
	x.r.setObj(x.st, ref.Obj, n)
	return res{}
}

func (x *xc) next(ins *ssa.Next) res {
	r := x.r
	p := x.ptr(ins.Iter)
	it := r.obj(x.st, p.Obj).V.(IterV)
	tt := ins.Type().(*types.Tuple)
	zero := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return r.zero(t)
	}
	if !it.IsMap {
		if it.Pos >= len(it.Str.B) {
			return x.set(ins, Tuple{r.C.False, r.C.Const(64, 0), r.C.Const(32, 0)})
		}
		b := it.Str.B[it.Pos]
		adv := func(n int, ch *expr.Expr) res {
			pos := it.Pos
			it.Pos += n
			r.setObj(x.st, p.Obj, it)
			return x.set(ins, Tuple{r.C.True, r.C.Const(64, uint64(pos)), ch})
		}
		ascii := r.C.Ult(b, r.C.Const(8, 0x80))
		isA, ok := x.decided(ascii)
		if !ok {
			return res{kind: rSplit, split: ascii}
		}
		if isA {
			return adv(1, r.C.Zext(b, 32))
		}
		// multi-byte: fix the bytes
		end := it.Pos + 4
		if end > len(it.Str.B) {
			end = len(it.Str.B)
		}
		var raw []byte
		for _, e := range it.Str.B[it.Pos:end] {
			k, ok := x.known(e)
			if !ok {
				return res{kind: rSplit, split: e}
			}
			raw = append(raw, byte(k))
		}
		for i, ch := range string(raw) {
			_ = i
			n := len(string(ch))
			if ch == 0xFFFD && !(len(raw) >= 3 && raw[0] == 0xEF && raw[1] == 0xBF && raw[2] == 0xBD) {
				n = 1
			}
			return adv(n, r.C.Const(32, uint64(uint32(ch))))
		}
	}
	for it.Pos < len(it.Keys) {
		k := it.Keys[it.Pos]
		if c, stop := x.preempt(it.Map, false); stop {
			return c
		}
		m := r.obj(x.st, it.Map).V.(MapV)
		i, sp := x.find(m, k)
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		it.Pos++
		if i >= 0 {
			r.setObj(x.st, p.Obj, it)
			return x.set(ins, Tuple{r.C.True, k, m.Vals[i]})
		}
	}
	r.setObj(x.st, p.Obj, it)
	return x.set(ins, Tuple{r.C.False, zero(1), zero(2)})
}

func (x *xc) decided(e *expr.Expr) (bool, bool) {
	if e.IsConst() {
		return e.IsTrue(), true
	}
	if v, ok := x.st.conc[e.ID]; ok {
		return v == 1, true
	}
	return x.r.known(x.st, e)
}

var _ = math.MaxInt
