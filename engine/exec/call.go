package exec

import (
	"fmt"
	"go/types"
	"gosym/expr"

	"golang.org/x/tools/go/ssa"
)

func (x *xc) callInstr(ins *ssa.Call) res {
	c := &ins.Call
	var fn Value
	bi, _ := c.Value.(*ssa.Builtin)
	if bi == nil {
		fn = x.reg(c.Value)
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = x.reg(a)
	}
	r := x.invokeValue(c, fn, bi, args, 0)
	if r.kind == rMulti && len(r.multi) == 1 {
		x.st = r.multi[0].st
		x.fr.regs[x.fr.info.num[ins]] = r.multi[0].val
		return res{}
	}
	if r.kind == rNext {
		x.fr.regs[x.fr.info.num[ins]] = x.ret
	}
	return r
}

// invokeValue performs a call. rNext: the result is in x.ret.
func (x *xc) invokeValue(c *ssa.CallCommon, fn Value, bi *ssa.Builtin, args []Value, panicIdx int) res {
	x.ret = nil
	if bi != nil {
		return x.builtin(c, bi, args)
	}
	if c.IsInvoke() {
		recv, ok := fn.(Iface)
		if !ok {
			if p, isP := fn.(Poison); isP {
				unsup("call on %s", p.Msg)
			}
			unsup("method call on %T", fn)
		}
		if recv.T == nil {
			return x.nilDeref()
		}
		m := x.r.method(recv.T, c.Method)
		if m == nil {
			unsup("no method %s on %s", c.Method.Name(), recv.T)
		}
		return x.callFn(m, append([]Value{recv.V}, args...), nil, panicIdx)
	}
	cl, ok := fn.(*Closure)
	if !ok {
		if p, isP := fn.(Poison); isP {
			unsup("call of %s", p.Msg)
		}
		unsup("call of %T", fn)
	}
	if cl == nil {
		return x.nilDeref()
	}
	return x.callFn(cl.Fn, args, cl.Binds, panicIdx)
}

func (r *Run) method(t types.Type, m *types.Func) *ssa.Function {
	key := fmt.Sprintf("%p %p", t, m)
	if f, ok := r.msets[key]; ok {
		return f
	}
	r.E.mu.Lock()
	f := r.E.Prog.LookupMethod(t, m.Pkg(), m.Name())
	r.E.mu.Unlock()
	r.msets[key] = f
	return f
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// callFn calls fn, redirecting to stubs and intrinsics.
func (x *xc) callFn(fn *ssa.Function, args, binds []Value, panicIdx int) res {
	name := fullName(fn)
	if s, ok := x.r.E.Stubs[name]; ok && s != fn {
		x.r.Stats.StubsUsed[name] = true
		fn = s
		name = fullName(fn)
	}
	if in, ok := intrinsics[name]; ok {
		return in(x, fn, args)
	}
	if len(fn.Blocks) == 0 && fn.Pkg != nil && fn.Signature.Recv() == nil {
		// assembly with a portable twin
		for _, suffix := range []string{"_g", "Generic", "_generic"} {
			if g := fn.Pkg.Func(fn.Name() + suffix); g != nil && len(g.Blocks) > 0 && types.Identical(g.Signature, fn.Signature) {
				fn, name = g, fullName(g)
				break
			}
		}
	}
	if len(fn.Blocks) == 0 {
		unsup("call of %s: no body", name)
	}
	if x.r.initing == 0 && fn.Pkg != nil && !x.r.inited[fn.Pkg] {
		x.r.initPkg(fn.Pkg)
	}
	return x.finishCall(x.r.call(x.st, x.fr, fn, args, binds, panicIdx))
}

func tupleOf(vals []Value) Value {
	switch len(vals) {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	return Tuple(vals)
}

func (x *xc) finishCall(outs []Out) res {
	var ms []mstate
	for _, o := range outs {
		switch o.kind {
		case kReturn:
			ms = append(ms, mstate{st: o.st, val: tupleOf(o.vals)})
		case kPanic:
			if o.fr == nil || o.fr.fn != x.fr.fn || o.fr.parent != x.fr.parent {
				o.fr = x.fr.clone()
			}
			*x.outs = append(*x.outs, o)
		default:
			*x.outs = append(*x.outs, o)
		}
	}
	if len(ms) == 0 {
		return res{kind: rDead}
	}
	return res{kind: rMulti, multi: ms}
}

func (x *xc) done(v Value) res {
	x.ret = v
	return res{}
}

func (x *xc) intv(n int) *expr.Expr { return x.r.C.Const(64, uint64(n)) }

func (x *xc) builtin(c *ssa.CallCommon, bi *ssa.Builtin, args []Value) res {
	r := x.r
	switch bi.Name() {
	case "len":
		switch v := args[0].(type) {
		case Str:
			return x.done(x.intv(len(v.B)))
		case Slice:
			return x.done(x.intv(v.L))
		case ArrayV:
			return x.done(x.intv(len(v)))
		case MapRef:
			if v.Obj == 0 {
				return x.done(x.intv(0))
			}
			if c, stop := x.preempt(v.Obj, false); stop {
				return c
			}
			return x.done(x.intv(len(r.obj(x.st, v.Obj).V.(MapV).Keys)))
		case Ptr:
			n := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return x.done(x.intv(int(n)))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return x.done(x.intv(v.C))
		case ArrayV:
			return x.done(x.intv(len(v)))
		}
	case "append":
		return x.append(c, args)
	case "copy":
		dst, ok := args[0].(Slice)
		if !ok {
			break
		}
		var src []Value
		switch s := args[1].(type) {
		case Str:
			for _, b := range s.B {
				src = append(src, b)
			}
		case Slice:
			if s.Obj != 0 && s.L > 0 {
				if c, stop := x.preempt(s.Obj, false); stop {
					return c
				}
			}
			src = append(src, r.arr(x.st, s)...)
		}
		n := len(src)
		if dst.L < n {
			n = dst.L
		}
		if n > 0 {
			if c, stop := x.preempt(dst.Obj, true); stop {
				return c
			}
			r.writeElems(x.st, dst, 0, src[:n])
		}
		return x.done(x.intv(n))
	case "delete":
		m, ok := args[0].(MapRef)
		if !ok {
			break
		}
		if m.Obj == 0 {
			return x.done(nil)
		}
		if c, stop := x.preempt(m.Obj, true); stop {
			return c
		}
		mv := r.obj(x.st, m.Obj).V.(MapV)
		i, sp := x.find(mv, args[1])
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		if i >= 0 {
			n := MapV{}
			n.Keys = append(append(n.Keys, mv.Keys[:i]...), mv.Keys[i+1:]...)
			n.Vals = append(append(n.Vals, mv.Vals[:i]...), mv.Vals[i+1:]...)
			r.setObj(x.st, m.Obj, n)
		}
		return x.done(nil)
	case "clear":
		switch v := args[0].(type) {
		case MapRef:
			if v.Obj != 0 {
				r.setObj(x.st, v.Obj, MapV{})
			}
			return x.done(nil)
		case Slice:
			if v.L > 0 {
				z := r.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
				vs := make([]Value, v.L)
				for i := range vs {
					vs[i] = z
				}
				r.writeElems(x.st, v, 0, vs)
			}
			return x.done(nil)
		}
	case "recover":
		k := x.fr.panicIdx
		if k > 0 && k <= len(x.st.panics) && !x.st.panics[k-1].Recovered {
			x.st.panics = append([]panicRec{}, x.st.panics...)
			v := x.st.panics[k-1].Val
			x.st.panics[k-1].Recovered = true
			return x.done(v)
		}
		return x.done(Iface{})
	case "print", "println":
		return x.done(nil)
	case "min", "max":
		acc := args[0]
		for i := 1; i < len(args); i++ {
			switch a := acc.(type) {
			case *expr.Expr:
				b := args[i].(*expr.Expr)
				lt := r.C.Ult(a, b)
				if isSigned(c.Args[0].Type()) {
					lt = r.C.Slt(a, b)
				}
				if bi.Name() == "min" {
					acc = r.C.Ite(lt, a, b)
				} else {
					acc = r.C.Ite(lt, b, a)
				}
			case Float:
				b := args[i].(Float)
				if (bi.Name() == "min") == (b < a) {
					acc = b
				}
			case Str:
				b := args[i].(Str)
				lt := r.strLess(b, a)
				if bi.Name() == "max" {
					lt = r.strLess(a, b)
				}
				v, ok := x.decided(lt)
				if !ok {
					return res{kind: rSplit, split: lt}
				}
				if v {
					acc = b
				}
			default:
				unsup("%s of %T", bi.Name(), acc)
			}
		}
		return x.done(acc)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj == 0 {
			return x.nilDeref()
		}
		return x.done(args[0])
	case "SliceData":
		if s, ok := args[0].(Slice); ok {
			if s.Obj == 0 || s.C == 0 {
				return x.done(Ptr{})
			}
			return x.done(r.sliceElem(s, 0))
		}
	case "StringData":
		if s, ok := args[0].(Str); ok {
			if len(s.B) == 0 {
				return x.done(Ptr{})
			}
			return x.done(r.sliceElem(r.mkBytes(x.st, s.B), 0))
		}
	case "String", "Slice":
		p, ok := args[0].(Ptr)
		n, ok2 := args[1].(*expr.Expr)
		if !ok || !ok2 {
			break
		}
		k, known := x.known(n)
		if !known {
			return res{kind: rSplit, split: n}
		}
		if p.Obj == 0 || k == 0 {
			if bi.Name() == "String" {
				return x.done(Str{})
			}
			return x.done(Slice{})
		}
		if len(p.Path) == 0 {
			break
		}
		last := p.Path[len(p.Path)-1]
		if last.Sym != nil {
			break
		}
		s := Slice{Obj: p.Obj, Path: p.Path[:len(p.Path)-1], Off: last.I, L: int(k), C: int(k)}
		if bi.Name() == "String" {
			return x.done(Str{r.bytesOf(x.st, s)})
		}
		return x.done(s)
	case "Sizeof":
		return x.done(x.intv(int(r.E.Sizes.Sizeof(c.Args[0].Type()))))
	case "close":
		unsup("close")
	}
	unsup("builtin %s(%T)", bi.Name(), args)
	return res{}
}

// writeElems overwrites elements of the array a slice views.
func (r *Run) writeElems(st *State, s Slice, at int, vs []Value) {
	if len(vs) == 0 {
		return
	}
	o := r.obj(st, s.Obj)
	old := elems(r.get(o.V, s.Path))
	n := make(ArrayV, len(old))
	copy(n, old)
	copy(n[s.Off+at:], vs)
	if len(s.Path) == 0 {
		st.top.m[s.Obj] = &Obj{V: n, T: o.T, Fresh: isFlat(o.T), Site: o.Site}
		return
	}
	st.top.m[s.Obj] = &Obj{V: r.put(o.V, s.Path, n), T: o.T, Site: o.Site}
}

func (x *xc) append(c *ssa.CallCommon, args []Value) res {
	r := x.r
	dst, ok := args[0].(Slice)
	if !ok {
		unsup("append to %T", args[0])
	}
	if len(args) == 1 {
		return x.done(dst)
	}
	var src []Value
	switch s := args[1].(type) {
	case Str:
		for _, b := range s.B {
			src = append(src, b)
		}
	case Slice:
		if s.Obj != 0 && s.L > 0 {
			if c, stop := x.preempt(s.Obj, false); stop {
				return c
			}
		}
		src = append(src, r.arr(x.st, s)...)
	default:
		unsup("append of %T", args[1])
	}
	if len(src) == 0 {
		return x.done(dst)
	}
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	n := dst.L + len(src)
	if n <= dst.C {
		if c, stop := x.preempt(dst.Obj, true); stop {
			return c
		}
		r.writeElems(x.st, dst, dst.L, src)
		dst.L = n
		return x.done(dst)
	}
	newcap := n
	if double := 2 * dst.C; n <= double {
		if dst.C < 256 {
			newcap = double
		} else {
			newcap = dst.C
			for newcap < n {
				newcap += (newcap + 3*256) >> 2
			}
		}
	}
	newcap = roundCap(newcap, int(r.E.Sizes.Sizeof(elem)))
	if newcap > 1<<20 {
		unsup("append beyond %d elements", 1<<20)
	}
	a := make(ArrayV, newcap)
	copy(a, r.arr(x.st, dst))
	copy(a[dst.L:], src)
	if newcap > n {
		z := r.zero(elem)
		for i := n; i < newcap; i++ {
			a[i] = z
		}
	}
	t := types.NewArray(elem, int64(newcap))
	return x.done(Slice{Obj: r.alloc(x.st, t, a, "append"), L: n, C: newcap})
}
