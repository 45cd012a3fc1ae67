package exec

import (
	"fmt"
	"go/types"
	"gosym/expr"
	"gosym/smt"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *xc, fn *ssa.Function, args []Value) res

var intrinsics map[string]intrinsic

const symPkg = "dukptverif/sym."

func (x *xc) cstr(v Value) string {
	s, ok := v.(Str)
	if !ok {
		unsup("expected a string, have %T", v)
	}
	c, ok := s.concrete()
	if !ok {
		unsup("symbolic string where a constant is needed")
	}
	return c
}

func (x *xc) cint(v Value) (int, *expr.Expr) {
	e, ok := v.(*expr.Expr)
	if !ok {
		unsup("expected an int, have %T", v)
	}
	k, ok := x.known(e)
	if !ok {
		return 0, e
	}
	if e.W < 64 {
		return int(k), nil
	}
	return int(int64(k)), nil
}

func (r *Run) inputBytes(name string, n int) []*expr.Expr {
	out := make([]*expr.Expr, n)
	for i := range out {
		out[i] = r.C.Var(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	if !r.inputBy[name] {
		r.inputBy[name] = true
		r.inputs = append(r.inputs, inputVar{Name: name, Bits: out})
	} else {
		for _, in := range r.inputs {
			if in.Name == name && len(in.Bits) != n {
				unsup("input %s declared with lengths %d and %d", name, len(in.Bits), n)
			}
		}
	}
	return out
}

func (x *xc) boolArg(v Value) *expr.Expr {
	e, ok := v.(*expr.Expr)
	if !ok || e.W != 0 {
		unsup("expected a bool, have %v", v)
	}
	return e
}

// assume restricts the path; false if nothing remains.
func (x *xc) assume(c *expr.Expr) bool {
	t, _ := x.r.split2(x.st, c)
	if t == nil {
		return false
	}
	x.st = t
	return true
}

// split2 keeps only the side where cond holds.
func (r *Run) split2(s *State, cond *expr.Expr) (*State, bool) {
	if cond.IsTrue() {
		return s, true
	}
	if cond.IsFalse() {
		return nil, false
	}
	if v, ok := r.known(s, cond); ok {
		if v {
			return s, true
		}
		return nil, false
	}
	w, ok := r.feasible(s, cond)
	if !ok {
		return nil, false
	}
	s.assume(cond)
	s.wit = w
	return s, true
}

// symEq compares for a harness; terms the rewriting already identified are
// kept for the solver to confirm at the next assertion.
func (r *Run) symEq(a, b []*expr.Expr) *expr.Expr {
	e := r.strEq(Str{a}, Str{b})
	if e.IsTrue() {
		for i := range a {
			if !a[i].IsConst() {
				r.pending = append(r.pending, r.C.RawEq(a[i], b[i]))
			}
		}
	}
	return e
}

// confirm has the solver refute the negation of equalities decided by rewriting.
func (r *Run) confirm() {
	var q []*expr.Expr
	for _, e := range r.pending {
		if !r.confirmed[e.ID] {
			r.confirmed[e.ID] = true
			q = append(q, e)
		}
	}
	r.pending = nil
	if len(q) == 0 {
		return
	}
	n := r.C.BNot(q[0])
	for _, e := range q[1:] {
		n = r.C.BOr(n, r.C.BNot(e))
	}
	if res, _ := r.Sol.Check([]*expr.Expr{n}, r.Opt.QueryTime); res == smt.Unsat {
		r.Stats.Confirmed++
	}
}

// assert checks cond on the current path.
func (x *xc) assert(cond *expr.Expr, msg string) bool {
	r := x.r
	r.Stats.Asserts++
	if cond.IsTrue() {
		r.Stats.AssertsTrivial++
		r.confirm()
		return true
	}
	r.pending = nil
	n := r.C.BNot(cond)
	if v, ok := r.known(x.st, cond); ok {
		if v {
			r.Stats.AssertsTrivial++
			return true
		}
	}
	for _, v := range r.Viol {
		if v.Msg == msg {
			return x.assume(cond)
		}
	}
	if x.st.wit != nil && !x.st.wit.Bool(cond) {
		r.violate(x.st, x.st.wit, msg)
		return x.assume(cond)
	}
	for _, a := range r.pool {
		if a.Bool(n) && allTrue(a, x.st.pc) {
			r.violate(x.st, a, msg)
			return x.assume(cond)
		}
	}
	q := append([]*expr.Expr{n}, x.st.pc...)
	if x.st.wit != nil {
		q = r.relevant(x.st.pc, n)
	}
	res, a := r.solve(x.st, q, 80)
	switch {
	case res == smt.Unsat:
		r.Stats.Proved++
		return true
	case res == smt.Sat && a != nil:
		r.violate(x.st, a, msg)
		return x.assume(cond)
	}
	r.Unconf = append(r.Unconf, msg)
	r.Stats.Incomplete["undecided assertion: "+msg]++
	return true
}

func (r *Run) violate(st *State, a *expr.Assign, msg string) {
	for _, v := range r.Viol {
		if v.Msg == msg {
			return
		}
	}
	r.add(Violation{Msg: msg, Inputs: r.inputVals(a)})
}

func (x *xc) byteSlice(v Value) []*expr.Expr {
	s, ok := v.(Slice)
	if !ok {
		unsup("expected a byte slice, have %T", v)
	}
	return x.r.bytesOf(x.st, s)
}

func retZero(x *xc, fn *ssa.Function, args []Value) res {
	rs := fn.Signature.Results()
	vals := make([]Value, rs.Len())
	for i := range vals {
		vals[i] = x.r.zero(rs.At(i).Type())
	}
	return x.done(tupleOf(vals))
}

func init() {
	intrinsics = map[string]intrinsic{}
	def := func(n string, f intrinsic) { intrinsics[n] = f }
	s := func(n string, f intrinsic) { intrinsics[symPkg+n] = f }

	// ---- harness interface
	s("Symbolic", func(x *xc, fn *ssa.Function, a []Value) res { return x.done(x.r.C.True) })
	s("Param", func(x *xc, fn *ssa.Function, a []Value) res { return x.done(x.intv(x.r.Opt.Param)) })
	s("Bytes", func(x *xc, fn *ssa.Function, a []Value) res {
		n, sp := x.cint(a[1])
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		return x.done(x.r.mkBytes(x.st, x.r.inputBytes(x.cstr(a[0]), n)))
	})
	s("Str", func(x *xc, fn *ssa.Function, a []Value) res {
		n, sp := x.cint(a[1])
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		return x.done(Str{x.r.inputBytes(x.cstr(a[0]), n)})
	})
	for n, w := range map[string]int{"Byte": 8, "U16": 16, "U32": 32, "U64": 64} {
		w := w
		s(n, func(x *xc, fn *ssa.Function, a []Value) res { return x.done(x.r.input(x.cstr(a[0]), w)) })
	}
	s("Bool", func(x *xc, fn *ssa.Function, a []Value) res {
		v := x.r.input(x.cstr(a[0]), 8)
		b := x.r.C.Eq(x.r.C.Extract(0, 0, v), x.r.C.Const(1, 1))
		return x.done(b)
	})
	s("Int", func(x *xc, fn *ssa.Function, a []Value) res {
		lo, s1 := x.cint(a[1])
		hi, s2 := x.cint(a[2])
		if s1 != nil || s2 != nil {
			unsup("symbolic range of sym.Int")
		}
		name := x.cstr(a[0])
		v := x.r.input(name, 32)
		c := x.r.C
		w := c.Zext(v, 64)
		if lo < 0 {
			unsup("negative range of sym.Int")
		}
		if !x.assume(c.BAnd(c.Ule(c.Const(64, uint64(lo)), w), c.Ule(w, c.Const(64, uint64(hi))))) {
			return res{kind: rDead}
		}
		return x.done(w)
	})
	s("Assume", func(x *xc, fn *ssa.Function, a []Value) res {
		if !x.assume(x.boolArg(a[0])) {
			return res{kind: rDead}
		}
		return x.done(nil)
	})
	s("Assert", func(x *xc, fn *ssa.Function, a []Value) res {
		if !x.assert(x.boolArg(a[0]), x.cstr(a[1])) {
			return res{kind: rDead}
		}
		return x.done(nil)
	})
	s("Reach", func(x *xc, fn *ssa.Function, a []Value) res {
		l := x.cstr(a[0])
		for _, o := range x.st.reach {
			if o == l {
				return x.done(nil)
			}
		}
		x.st.reach = append(x.st.reach[:len(x.st.reach):len(x.st.reach)], l)
		return x.done(nil)
	})
	s("Out", func(x *xc, fn *ssa.Function, a []Value) res {
		v := a[1]
		if i, ok := v.(Iface); ok {
			v = i.V
		}
		if sl, ok := v.(Slice); ok {
			v = Str{x.r.bytesOf(x.st, sl)}
		}
		switch v.(type) {
		case *expr.Expr, Str:
		default:
			unsup("sym.Out of %T", v)
		}
		x.st.outs = append(x.st.outs[:len(x.st.outs):len(x.st.outs)], outRec{x.cstr(a[0]), v})
		return x.done(nil)
	})
	s("Conc", func(x *xc, fn *ssa.Function, a []Value) res {
		n, sp := x.cint(a[0])
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		if e, ok := a[0].(*expr.Expr); ok && !e.IsConst() {
			x.st.tag += fmt.Sprintf("%d=%d;", e.ID, n)
		}
		return x.done(x.intv(n))
	})
	s("Fork", func(x *xc, fn *ssa.Function, a []Value) res {
		e := x.boolArg(a[0])
		v, ok := x.decided(e)
		if !ok {
			return res{kind: rSplit, split: e}
		}
		if !e.IsConst() {
			x.st.tag += fmt.Sprintf("%d=%v;", e.ID, v)
		}
		return x.done(x.r.C.Bool(v))
	})
	s("EqBytes", func(x *xc, fn *ssa.Function, a []Value) res {
		return x.done(x.r.symEq(x.byteSlice(a[0]), x.byteSlice(a[1])))
	})
	s("EqStr", func(x *xc, fn *ssa.Function, a []Value) res {
		return x.done(x.r.symEq(a[0].(Str).B, a[1].(Str).B))
	})
	s("And", func(x *xc, fn *ssa.Function, a []Value) res {
		var es []*expr.Expr
		for _, v := range x.r.arr(x.st, a[0].(Slice)) {
			es = append(es, x.boolArg(v))
		}
		return x.done(x.r.C.BAnd(es...))
	})
	s("Or", func(x *xc, fn *ssa.Function, a []Value) res {
		var es []*expr.Expr
		for _, v := range x.r.arr(x.st, a[0].(Slice)) {
			es = append(es, x.boolArg(v))
		}
		return x.done(x.r.C.BOr(es...))
	})
	s("IteByte", func(x *xc, fn *ssa.Function, a []Value) res {
		return x.done(x.r.C.Ite(x.boolArg(a[0]), a[1].(*expr.Expr), a[2].(*expr.Expr)))
	})
	s("IteU32", intrinsics[symPkg+"IteByte"])
	s("UF", func(x *xc, fn *ssa.Function, a []Value) res {
		n, sp := x.cint(a[1])
		if sp != nil {
			unsup("symbolic width of sym.UF")
		}
		var as [][]*expr.Expr
		for _, v := range x.r.arr(x.st, a[2].(Slice)) {
			as = append(as, x.byteSlice(v))
		}
		return x.done(x.r.mkBytes(x.st, x.r.uf(x.cstr(a[0]), n, as)))
	})
	s("Fresh", func(x *xc, fn *ssa.Function, a []Value) res {
		n, sp := x.cint(a[0])
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		x.st.rnd++
		return x.done(x.r.mkBytes(x.st, x.r.inputBytes(fmt.Sprintf("rnd%d_%d", x.st.rnd, n), n)))
	})
	s("Rewind", func(x *xc, fn *ssa.Function, a []Value) res {
		n, sp := x.cint(a[0])
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		old := x.st.rnd
		if n >= 0 {
			x.st.rnd = n
		}
		return x.done(x.intv(old))
	})
	s("Unsupported", func(x *xc, fn *ssa.Function, a []Value) res {
		unsup("model: %s", x.cstr(a[0]))
		return res{}
	})
	s("Dead", func(x *xc, fn *ssa.Function, a []Value) res { return res{kind: rDead} })
	s("Exit", func(x *xc, fn *ssa.Function, a []Value) res {
		*x.outs = append(*x.outs, Out{kind: kExit, st: x.st, fr: x.fr.clone(), val: a[0]})
		return res{kind: rDead}
	})
	s("CatchExit", func(x *xc, fn *ssa.Function, a []Value) res {
		cl := a[0].(*Closure)
		outs := x.r.call(x.st, x.fr, cl.Fn, nil, cl.Binds, 0)
		var os []Out
		for _, o := range outs {
			switch o.kind {
			case kReturn:
				o.vals = []Value{x.r.C.Const(64, ^uint64(0))}
			case kExit:
				o.kind = kReturn
				o.vals = []Value{o.val}
			}
			os = append(os, o)
		}
		return x.finishCall(x.r.mergeReturns(os, x.fr))
	})
	s("CallMain", func(x *xc, fn *ssa.Function, a []Value) res {
		path := x.cstr(a[0])
		for _, p := range x.r.E.Prog.AllPackages() {
			if p.Pkg.Path() == path && p.Func("main") != nil {
				x.r.initPkg(p)
				return x.finishCall(x.r.mergeReturns(x.r.call(x.st, x.fr, p.Func("main"), nil, nil, 0), x.fr))
			}
		}
		unsup("no program %s", path)
		return res{}
	})
	s("Par", func(x *xc, fn *ssa.Function, a []Value) res {
		var thr []*Closure
		for _, v := range x.r.arr(x.st, a[0].(Slice)) {
			thr = append(thr, v.(*Closure))
		}
		return x.runPar(thr)
	})
	s("Yield", func(x *xc, fn *ssa.Function, a []Value) res {
		if c, stop := x.yieldPoint(); stop {
			return c
		}
		return x.done(nil)
	})
	// TypeName names the dynamic type of an interface value.
	s("TypeName", func(x *xc, fn *ssa.Function, a []Value) res {
		i := a[0].(Iface)
		if i.T == nil {
			return x.done(x.r.str("nil"))
		}
		return x.done(x.r.str(i.T.String()))
	})
	registerReflect(s)

	// ---- synchronisation
	for _, op := range []string{"Lock", "Unlock", "TryLock"} {
		op := op
		def("(*sync.Mutex)."+op, func(x *xc, fn *ssa.Function, a []Value) res { return x.lockOp(a[0].(Ptr), op) })
	}
	for _, op := range []string{"Lock", "Unlock", "TryLock", "RLock", "RUnlock", "TryRLock"} {
		op := op
		def("(*sync.RWMutex)."+op, func(x *xc, fn *ssa.Function, a []Value) res { return x.lockOp(a[0].(Ptr), op) })
	}
	// A pool hands out what was put back last: that a caller may meet an item
	// in use before is what matters (an empty pool is met by the first Get).
	def("(*sync.Pool).Put", func(x *xc, fn *ssa.Function, a []Value) res {
		p, it := a[0].(Ptr), a[1].(Iface)
		if p.Obj == 0 {
			return x.nilDeref()
		}
		if it.T == nil {
			return x.done(nil)
		}
		var items ArrayV
		if c := x.cellOf("pool", p); c != nil {
			items = c.(ArrayV)
		}
		if x.st.par != nil {
			k := "p" + lockKey(p)
			l := x.st.locks[k]
			l.vc = x.releaseVC(l.vc)
			x.st.setLock(k, l)
		}
		x.setCell("pool", p, append(items[:len(items):len(items)], it))
		return x.done(nil)
	})
	def("(*sync.Pool).Get", func(x *xc, fn *ssa.Function, a []Value) res {
		p := a[0].(Ptr)
		if p.Obj == 0 {
			return x.nilDeref()
		}
		if c := x.cellOf("pool", p); c != nil {
			if items := c.(ArrayV); len(items) > 0 {
				x.acquireVC(x.st.locks["p"+lockKey(p)].vc)
				it := items[len(items)-1]
				x.setCell("pool", p, append(ArrayV{}, items[:len(items)-1]...))
				return x.done(it)
			}
		}
		o := x.r.load(x.st, p).(StructV)
		cl, ok := o[len(o)-1].(*Closure)
		if !ok || cl == nil {
			return x.done(Iface{})
		}
		return x.finishCall(x.r.call(x.st, x.fr, cl.Fn, nil, cl.Binds, 0))
	})
	// Cell and SetCell attach a model's state to the object a pointer names.
	s("Cell", func(x *xc, fn *ssa.Function, a []Value) res {
		p, ok := a[0].(Iface).V.(Ptr)
		if !ok || p.Obj == 0 {
			return x.nilDeref()
		}
		c := x.cellOf("cell", p)
		if c == nil {
			return x.done(Iface{})
		}
		x.acquireVC(x.st.locks["c"+lockKey(p)].vc)
		return x.done(c)
	})
	s("SetCell", func(x *xc, fn *ssa.Function, a []Value) res {
		p := a[0].(Iface).V.(Ptr)
		if x.st.par != nil {
			k := "c" + lockKey(p)
			l := x.st.locks[k]
			l.vc = x.releaseVC(l.vc)
			x.st.setLock(k, l)
		}
		x.setCell("cell", p, a[1])
		return x.done(nil)
	})
	atomicOp := func(f func(x *xc, p Ptr, a []Value) Value) intrinsic {
		return func(x *xc, fn *ssa.Function, a []Value) res {
			p := a[0].(Ptr)
			if p.Obj == 0 {
				return x.nilDeref()
			}
			if c, stop := x.yieldPoint(); stop {
				return c
			}
			if x.st.par != nil {
				k := "a" + lockKey(p)
				l := x.st.locks[k]
				x.acquireVC(l.vc)
				l.vc = x.releaseVC(l.vc)
				x.st.setLock(k, l)
			}
			return x.done(f(x, p, a[1:]))
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic."} {
			def(pk+"Load"+ty, atomicOp(func(x *xc, p Ptr, a []Value) Value { return x.r.load(x.st, p) }))
			def(pk+"Store"+ty, atomicOp(func(x *xc, p Ptr, a []Value) Value { x.r.store(x.st, p, a[0]); return nil }))
			def(pk+"Swap"+ty, atomicOp(func(x *xc, p Ptr, a []Value) Value {
				o := x.r.load(x.st, p)
				x.r.store(x.st, p, a[0])
				return o
			}))
			if ty == "Pointer" {
				continue
			}
			def(pk+"Add"+ty, atomicOp(func(x *xc, p Ptr, a []Value) Value {
				o := x.r.load(x.st, p).(*expr.Expr)
				n := x.r.C.Add(o, a[0].(*expr.Expr))
				x.r.store(x.st, p, n)
				return n
			}))
			def(pk+"CompareAndSwap"+ty, atomicOp(func(x *xc, p Ptr, a []Value) Value {
				o := x.r.load(x.st, p).(*expr.Expr)
				ok := x.r.C.Eq(o, a[0].(*expr.Expr))
				x.r.store(x.st, p, x.r.C.Ite(ok, a[1].(*expr.Expr), o))
				return ok
			}))
		}
	}
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched", "time.Sleep",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"(*strings.Builder).copyCheck", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault",
		"(*internal/godebug.Setting).IncNonDefault", "internal/runtime/atomic.Or8"} {
		def(n, retZero)
	}
	def("(*internal/godebug.Setting).Value", func(x *xc, fn *ssa.Function, a []Value) res { return x.done(Str{}) })
	def("internal/abi.NoEscape", func(x *xc, fn *ssa.Function, a []Value) res { return x.done(a[0]) })
	def("internal/abi.Escape", func(x *xc, fn *ssa.Function, a []Value) res { return x.done(a[0]) })
	def("internal/bytealg.MakeNoZero", func(x *xc, fn *ssa.Function, a []Value) res {
		n, sp := x.cint(a[0])
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		return x.done(x.r.makeSlice(x.st, types.Typ[types.Byte], n, roundCap(n, 1)))
	})
	def("os.Getenv", func(x *xc, fn *ssa.Function, a []Value) res { return x.done(Str{}) })
	def("runtime.GOMAXPROCS", func(x *xc, fn *ssa.Function, a []Value) res { return x.done(x.intv(8)) })
	def("math.Float64bits", func(x *xc, fn *ssa.Function, a []Value) res {
		return x.done(x.r.C.Const(64, math.Float64bits(float64(a[0].(Float)))))
	})
	def("math.Float64frombits", func(x *xc, fn *ssa.Function, a []Value) res {
		k, sp := x.cint(a[0])
		if sp != nil {
			unsup("symbolic float")
		}
		return x.done(Float(math.Float64frombits(uint64(k))))
	})

	// ---- formatting of constants (table-driven code is slow to execute)
	def("strconv.Itoa", func(x *xc, fn *ssa.Function, a []Value) res {
		n, sp := x.cint(a[0])
		if sp != nil {
			return res{kind: rSplit, split: sp}
		}
		return x.done(x.r.str(strconv.Itoa(n)))
	})
	for _, n := range []string{"Len", "Len8", "Len16", "Len32", "Len64", "OnesCount", "OnesCount8", "OnesCount16", "OnesCount32", "OnesCount64",
		"TrailingZeros", "TrailingZeros8", "TrailingZeros16", "TrailingZeros32", "TrailingZeros64",
		"LeadingZeros", "LeadingZeros8", "LeadingZeros16", "LeadingZeros32", "LeadingZeros64"} {
		n := n
		def("math/bits."+n, func(x *xc, fn *ssa.Function, a []Value) res { return x.done(x.bitsFn(n, a[0].(*expr.Expr))) })
	}
	def("crypto/internal/constanttime.boolToUint8", func(x *xc, fn *ssa.Function, a []Value) res {
		c := x.r.C
		return x.done(c.Ite(a[0].(*expr.Expr), c.Const(8, 1), c.Const(8, 0)))
	})
	def("unicode/utf8.RuneCountInString", func(x *xc, fn *ssa.Function, a []Value) res {
		st := a[0].(Str)
		if c, ok := st.concrete(); ok {
			return x.done(x.intv(utf8.RuneCountInString(c)))
		}
		for _, b := range st.B {
			if _, hi := b.Range(); hi >= 0x80 {
				asc := x.r.C.Ult(b, x.r.C.Const(8, 0x80))
				v, ok := x.decided(asc)
				if !ok {
					return res{kind: rSplit, split: asc}
				}
				if !v {
					unsup("rune count of a symbolic non-ASCII string")
				}
			}
		}
		return x.done(x.intv(len(st.B)))
	})
	intrinsics["unicode/utf8.ValidString"] = func(x *xc, fn *ssa.Function, a []Value) res {
		st := a[0].(Str)
		if c, ok := st.concrete(); ok {
			return x.done(x.r.C.Bool(utf8.ValidString(c)))
		}
		for _, b := range st.B {
			if _, hi := b.Range(); hi >= 0x80 {
				unsup("validity of a symbolic non-ASCII string")
			}
		}
		return x.done(x.r.C.True)
	}
}

func (x *xc) bitsFn(n string, e *expr.Expr) Value {
	c := x.r.C
	w := e.W
	if e.IsConst() {
		var k int
		switch {
		case strings.HasPrefix(n, "Len"):
			k = bits.Len64(e.C)
		case strings.HasPrefix(n, "OnesCount"):
			k = bits.OnesCount64(e.C)
		case strings.HasPrefix(n, "Trailing"):
			k = bits.TrailingZeros64(e.C)
			if k > w {
				k = w
			}
		default:
			k = w - bits.Len64(e.C)
		}
		return c.Const(64, uint64(k))
	}
	bit := func(i int) *expr.Expr { return c.Extract(i, i, e) }
	one := c.Const(1, 1)
	switch {
	case strings.HasPrefix(n, "OnesCount"):
		var ts []*expr.Expr
		for i := 0; i < w; i++ {
			ts = append(ts, c.Zext(bit(i), 8))
		}
		return c.Zext(c.Add(ts...), 64)
	case strings.HasPrefix(n, "Trailing"):
		out := c.Const(64, uint64(w))
		for i := w - 1; i >= 0; i-- {
			out = c.Ite(c.Eq(bit(i), one), c.Const(64, uint64(i)), out)
		}
		return out
	case strings.HasPrefix(n, "Len"):
		out := c.Const(64, 0)
		for i := 0; i < w; i++ {
			out = c.Ite(c.Eq(bit(i), one), c.Const(64, uint64(i+1)), out)
		}
		return out
	}
	out := c.Const(64, uint64(w))
	for i := 0; i < w; i++ {
		out = c.Ite(c.Eq(bit(i), one), c.Const(64, uint64(w-1-i)), out)
	}
	return out
}

// cellOf is the engine state kept for an object, nil when there is none yet.
func (x *xc) cellOf(kind string, p Ptr) Value {
	id, ok := x.st.cells[kind+lockKey(p)]
	if !ok {
		return nil
	}
	return x.r.obj(x.st, id).V
}

func (x *xc) setCell(kind string, p Ptr, v Value) {
	k := kind + lockKey(p)
	if id, ok := x.st.cells[k]; ok {
		x.r.setObj(x.st, id, v)
		return
	}
	n := make(map[string]int, len(x.st.cells)+1)
	for a, b := range x.st.cells {
		n[a] = b
	}
	n[k] = x.r.alloc(x.st, types.Universe.Lookup("any").Type(), v, "cell")
	x.st.cells = n
}
