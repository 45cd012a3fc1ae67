package exec

import (
	"go/types"
	"gosym/expr"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// Minimal type-directed access used by the models of encoding/json and fmt:
// values are handled as the interface values they came in.

func (x *xc) elemPtr(v Value) (types.Type, Ptr) {
	i := v.(Iface)
	if i.T == nil {
		unsup("reflection on nil")
	}
	p, ok := i.T.Underlying().(*types.Pointer)
	if !ok {
		unsup("reflection on %s", i.T)
	}
	return p.Elem(), i.V.(Ptr)
}

func kindOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsUnsigned != 0:
			return "uint"
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsFloat != 0:
			return "float"
		}
	case *types.Struct:
		return "struct"
	case *types.Pointer:
		return "ptr"
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "bytes"
		}
		return "slice"
	case *types.Map:
		return "map"
	case *types.Interface:
		return "interface"
	case *types.Array:
		return "array"
	}
	return "other"
}

func registerReflect(s func(string, intrinsic)) {
	// Kind names the kind of the dynamic type.
	s("Kind", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		if i.T == nil {
			return x.done(x.r.str("nil"))
		}
		return x.done(x.r.str(kindOf(i.T)))
	})
	// IsNil: pointer, slice, map or interface holding nil.
	s("IsNil", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		nl := i.T == nil
		switch v := i.V.(type) {
		case Ptr:
			nl = v.Obj == 0
		case Slice:
			nl = v.Obj == 0
		case MapRef:
			nl = v.Obj == 0
		case *Closure:
			nl = v == nil
		}
		return x.done(x.r.C.Bool(nl))
	})
	// Elem dereferences a pointer.
	s("Elem", func(x *xc, fn *ssa.Function, a []Value) res {
		t, p := x.elemPtr(a[0])
		if p.Obj == 0 {
			return x.nilDeref()
		}
		if c, stop := x.touch(p, false); stop {
			return c
		}
		v := x.r.load(x.st, p)
		if i, ok := v.(Iface); ok {
			return x.done(i)
		}
		return x.done(Iface{t, v})
	})
	// New allocates what a pointer-to-pointer should point to: given **T or a
	// pointer type, returns a new *T stored through the pointer.
	s("NewElem", func(x *xc, fn *ssa.Function, a []Value) res {
		t, p := x.elemPtr(a[0])
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			unsup("NewElem of %s", t)
		}
		n := Ptr{Obj: x.r.alloc(x.st, pt.Elem(), x.r.zero(pt.Elem()), "json")}
		x.r.store(x.st, p, n)
		return x.done(Iface{t, n})
	})
	s("NumField", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		return x.done(x.intv(i.T.Underlying().(*types.Struct).NumFields()))
	})
	// FieldInfo: name, tag, exported, embedded.
	s("FieldInfo", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		k, _ := x.cint(a[1])
		st := i.T.Underlying().(*types.Struct)
		f := st.Field(k)
		tag := reflect.StructTag(st.Tag(k)).Get("json")
		return x.done(Tuple{x.r.str(f.Name()), x.r.str(tag), x.r.C.Bool(f.Exported()), x.r.C.Bool(f.Embedded())})
	})
	// Field returns field k of a struct value.
	s("Field", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		k, _ := x.cint(a[1])
		st := i.T.Underlying().(*types.Struct)
		v := i.V.(StructV)[k]
		if w, ok := v.(Iface); ok {
			return x.done(w)
		}
		return x.done(Iface{st.Field(k).Type(), v})
	})
	// FieldPtr returns &p.field for a pointer to struct p.
	s("FieldPtr", func(x *xc, fn *ssa.Function, a []Value) res {
		t, p := x.elemPtr(a[0])
		k, _ := x.cint(a[1])
		f := t.Underlying().(*types.Struct).Field(k)
		return x.done(Iface{types.NewPointer(f.Type()), Ptr{p.Obj, addStep(p.Path, Step{I: k})}})
	})
	// ElemKind names the kind a pointer points to.
	s("ElemKind", func(x *xc, fn *ssa.Function, a []Value) res {
		t, _ := x.elemPtr(a[0])
		return x.done(x.r.str(kindOf(t)))
	})
	// SetStr / SetInt / SetBool store through a pointer to any string, int, bool type.
	s("SetVal", func(x *xc, fn *ssa.Function, a []Value) res {
		t, p := x.elemPtr(a[0])
		v := a[1].(Iface).V
		if e, ok := v.(*expr.Expr); ok && e.W > 0 {
			b, ok := t.Underlying().(*types.Basic)
			if !ok {
				unsup("SetVal to %s", t)
			}
			v = x.r.C.Extract(intWidth(b)-1, 0, e)
		}
		x.r.store(x.st, p, v)
		return x.done(nil)
	})
	s("Len", func(x *xc, fn *ssa.Function, a []Value) res {
		switch v := a[0].(Iface).V.(type) {
		case Slice:
			return x.done(x.intv(v.L))
		case ArrayV:
			return x.done(x.intv(len(v)))
		case MapRef:
			if v.Obj == 0 {
				return x.done(x.intv(0))
			}
			return x.done(x.intv(len(x.r.obj(x.st, v.Obj).V.(MapV).Keys)))
		}
		unsup("Len of %T", a[0].(Iface).V)
		return res{}
	})
	s("Index", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		k, _ := x.cint(a[1])
		var v Value
		var t types.Type
		switch w := i.V.(type) {
		case Slice:
			v = x.r.arr(x.st, w)[k]
			t = i.T.Underlying().(*types.Slice).Elem()
		case ArrayV:
			v = w[k]
			t = i.T.Underlying().(*types.Array).Elem()
		}
		if w, ok := v.(Iface); ok {
			return x.done(w)
		}
		return x.done(Iface{t, v})
	})
	// MapEntry returns key and value number k.
	s("MapEntry", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		k, _ := x.cint(a[1])
		mt := i.T.Underlying().(*types.Map)
		m := x.r.obj(x.st, i.V.(MapRef).Obj).V.(MapV)
		wrap := func(t types.Type, v Value) Value {
			if w, ok := v.(Iface); ok {
				return w
			}
			return Iface{t, v}
		}
		return x.done(Tuple{wrap(mt.Key(), m.Keys[k]), wrap(mt.Elem(), m.Vals[k])})
	})
	// AsString / AsInt / AsBytes read a basic value of any named type.
	s("AsString", func(x *xc, fn *ssa.Function, a []Value) res {
		v, ok := a[0].(Iface).V.(Str)
		if !ok {
			unsup("AsString of %T", a[0].(Iface).V)
		}
		return x.done(v)
	})
	s("AsBytes", func(x *xc, fn *ssa.Function, a []Value) res {
		v, ok := a[0].(Iface).V.(Slice)
		if !ok {
			unsup("AsBytes of %T", a[0].(Iface).V)
		}
		return x.done(v)
	})
	s("AsInt", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		v, ok := i.V.(*expr.Expr)
		if !ok || v.W == 0 {
			unsup("AsInt of %T", i.V)
		}
		return x.done(x.sx64(v, i.T))
	})
	s("AsBool", func(x *xc, fn *ssa.Function, a []Value) res {
		return x.done(x.boolArg(a[0].(Iface).V))
	})
	// StoreTo stores the interface value through *T where the value's type is T
	// or T is an interface.
	s("StoreTo", func(x *xc, fn *ssa.Function, a []Value) res {
		t, p := x.elemPtr(a[0])
		v := a[1].(Iface)
		if _, ok := t.Underlying().(*types.Interface); ok {
			x.r.store(x.st, p, v)
		} else {
			x.r.store(x.st, p, v.V)
		}
		return x.done(nil)
	})
	// AssignableTo reports whether the dynamic type fits the pointed-to type.
	s("AssignableTo", func(x *xc, fn *ssa.Function, a []Value) res {
		t, _ := x.elemPtr(a[0])
		v := a[1].(Iface)
		return x.done(x.r.C.Bool(v.T != nil && types.AssignableTo(v.T, t)))
	})
	// Box hides a value in an unsafe.Pointer; reading the field it was stored
	// in gives the value back.
	s("Box", func(x *xc, fn *ssa.Function, a []Value) res {
		return x.done(Iface{types.Typ[types.UnsafePointer], a[0]})
	})
	s("SetNil", func(x *xc, fn *ssa.Function, a []Value) res {
		t, p := x.elemPtr(a[0])
		x.r.store(x.st, p, x.r.zero(t))
		return x.done(nil)
	})
	// MakeSlice stores a slice of n zero elements through the pointer.
	s("MakeSlice", func(x *xc, fn *ssa.Function, a []Value) res {
		t, p := x.elemPtr(a[0])
		n, _ := x.cint(a[1])
		et := t.Underlying().(*types.Slice).Elem()
		arr := make(ArrayV, n)
		for i := range arr {
			arr[i] = x.r.zero(et)
		}
		id := x.r.alloc(x.st, types.NewArray(et, int64(n)), arr, "json")
		x.r.store(x.st, p, Slice{Obj: id, L: n, C: n})
		return x.done(nil)
	})
	// IndexPtr is the address of an element of the slice pointed to.
	s("IndexPtr", func(x *xc, fn *ssa.Function, a []Value) res {
		t, p := x.elemPtr(a[0])
		k, _ := x.cint(a[1])
		v := x.r.load(x.st, p).(Slice)
		et := t.Underlying().(*types.Slice).Elem()
		return x.done(Iface{types.NewPointer(et), x.r.sliceElem(v, k)})
	})
}
