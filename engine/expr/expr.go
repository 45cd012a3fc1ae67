// Package expr is a hash-consed bit-vector/boolean term DAG with a simplifier
// that keeps "wiring" (slices, concatenations, constant masks and shifts,
// look-up tables over small indices) in a normal form.
package expr

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpUF
	OpConcat
	OpExtract
	OpAnd
	OpOr
	OpXor
	OpAdd
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLshr
	OpAshr
	OpSext
	OpTab
	OpIte
	OpUlt
	OpSlt
	OpEq
	OpBNot
	OpBAnd
	OpBOr
)

var opNames = map[Op]string{OpConst: "const", OpVar: "var", OpUF: "uf", OpConcat: "concat", OpExtract: "extract",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpAdd: "bvadd", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpSext: "sext", OpTab: "tab",
	OpIte: "ite", OpUlt: "bvult", OpSlt: "bvslt", OpEq: "=", OpBNot: "not", OpBAnd: "and", OpBOr: "or"}

// Expr is an immutable term. W == 0 means boolean.
type Expr struct {
	Op   Op
	W    int
	Args []*Expr
	C    uint64   // constant value (W<=64), or low bit of OpExtract
	Big  *big.Int // constant value (W>64)
	Name string   // variable or UF name
	Tab  []uint64
	ID   int
	min  uint64
	max  uint64
	h    uint64
}

// Ctx owns a set of terms. Not safe for concurrent use.
type Ctx struct {
	tab      map[uint64][]*Expr
	n        int
	True     *Expr
	False    *Expr
	Inverse  map[string]string // UF name -> UF name of its inverse (first arg is the key)
	Vars     []*Expr
	varBy    map[string]*Expr
	extCache map[[3]int]*Expr
	eqCache  map[[2]int]*Expr
	views    map[*Expr]view
	Impl     map[string]UFImpl // UF name -> real function, for evaluation and constant folding
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Expr{}, Inverse: map[string]string{}, varBy: map[string]*Expr{}, Impl: map[string]UFImpl{}, extCache: map[[3]int]*Expr{}, eqCache: map[[2]int]*Expr{}, views: map[*Expr]view{}}
	c.False = c.mk(&Expr{Op: OpConst, W: 0, C: 0})
	c.True = c.mk(&Expr{Op: OpConst, W: 0, C: 1})
	return c
}

func (c *Ctx) Size() int { return c.n }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) mk(e *Expr) *Expr {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h ^= x; h *= 1099511628211; h ^= h >> 29 }
	mix(uint64(e.Op))
	mix(uint64(e.W))
	mix(e.C)
	for _, a := range e.Args {
		mix(uint64(a.ID) + 77)
	}
	for _, t := range e.Tab {
		mix(t)
	}
	for i := 0; i < len(e.Name); i++ {
		mix(uint64(e.Name[i]))
	}
	if e.Big != nil {
		for _, w := range e.Big.Bits() {
			mix(uint64(w))
		}
	}
	for _, o := range c.tab[h] {
		if same(o, e) {
			return o
		}
	}
	e.ID = c.n
	e.h = h
	c.n++
	c.bounds(e)
	c.tab[h] = append(c.tab[h], e)
	return e
}

func same(a, b *Expr) bool {
	if a.Op != b.Op || a.W != b.W || a.C != b.C || a.Name != b.Name || len(a.Args) != len(b.Args) || len(a.Tab) != len(b.Tab) {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
	}
	for i := range a.Tab {
		if a.Tab[i] != b.Tab[i] {
			return false
		}
	}
	if (a.Big == nil) != (b.Big == nil) {
		return false
	}
	if a.Big != nil && a.Big.Cmp(b.Big) != 0 {
		return false
	}
	return true
}

// bounds computes unsigned min/max for W in 1..64.
func (c *Ctx) bounds(e *Expr) {
	if e.W == 0 || e.W > 64 {
		return
	}
	e.min, e.max = 0, mask(e.W)
	switch e.Op {
	case OpConst:
		e.min, e.max = e.C, e.C
	case OpConcat:
		var lo, hi uint64
		for _, a := range e.Args {
			lo = lo<<uint(a.W) | a.min
			hi = hi<<uint(a.W) | a.max
		}
		e.min, e.max = lo, hi
	case OpTab:
		lo, hi := ^uint64(0), uint64(0)
		for i, t := range e.Tab {
			if uint64(i) < e.Args[0].min || uint64(i) > e.Args[0].max {
				continue
			}
			if t < lo {
				lo = t
			}
			if t > hi {
				hi = t
			}
		}
		e.min, e.max = lo, hi
	case OpIte:
		e.min, e.max = minU(e.Args[1].min, e.Args[2].min), maxU(e.Args[1].max, e.Args[2].max)
	case OpAnd:
		for _, a := range e.Args {
			e.max = minU(e.max, a.max)
		}
	case OpOr:
		for _, a := range e.Args {
			e.min = maxU(e.min, a.min)
		}
	case OpExtract:
		a := e.Args[0]
		if a.W <= 64 {
			if e.C == 0 {
				if a.max <= mask(e.W) {
					e.min, e.max = a.min, a.max
				}
			} else if int(e.C)+e.W == a.W {
				e.min, e.max = a.min>>e.C, a.max>>e.C
			}
		}
	case OpAdd:
		var lo, hi uint64
		for _, a := range e.Args {
			nl, nh := lo+a.min, hi+a.max
			if nh < hi || nh > mask(e.W) || nl > mask(e.W) {
				return
			}
			lo, hi = nl, nh
		}
		e.min, e.max = lo, hi
	case OpMul:
		hi := uint64(1)
		for _, a := range e.Args {
			if a.max != 0 && hi > mask(e.W)/a.max {
				return
			}
			hi *= a.max
		}
		e.max = hi
	case OpURem:
		if b := e.Args[1]; b.max > 0 && b.min > 0 {
			e.max = minU(b.max-1, e.Args[0].max)
		}
	case OpUDiv:
		if b := e.Args[1]; b.min > 0 {
			e.max = e.Args[0].max / b.min
		}
	case OpLshr:
		e.max = e.Args[0].max
	}
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

// Range returns the unsigned interval of e (W<=64).
func (e *Expr) Range() (uint64, uint64) { return e.min, e.max }

func (e *Expr) IsConst() bool { return e.Op == OpConst }
func (e *Expr) IsTrue() bool  { return e.Op == OpConst && e.W == 0 && e.C == 1 }
func (e *Expr) IsFalse() bool { return e.Op == OpConst && e.W == 0 && e.C == 0 }

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Const(w int, v uint64) *Expr {
	if w > 64 {
		return c.BigConst(w, new(big.Int).SetUint64(v))
	}
	return c.mk(&Expr{Op: OpConst, W: w, C: v & mask(w)})
}

func (c *Ctx) BigConst(w int, v *big.Int) *Expr {
	if w <= 64 {
		return c.Const(w, v.Uint64())
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	m.Sub(m, big.NewInt(1))
	return c.mk(&Expr{Op: OpConst, W: w, Big: new(big.Int).And(v, m)})
}

func (e *Expr) bigVal() *big.Int {
	if e.Big != nil {
		return e.Big
	}
	return new(big.Int).SetUint64(e.C)
}

func (c *Ctx) Var(name string, w int) *Expr {
	if v, ok := c.varBy[name]; ok {
		if v.W != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d != %d", name, w, v.W))
		}
		return v
	}
	v := c.mk(&Expr{Op: OpVar, W: w, Name: name})
	c.varBy[name] = v
	c.Vars = append(c.Vars, v)
	return v
}

// UF applies an uninterpreted function. If name has an inverse g, then
// name(k, g(k, x)) simplifies to x.
func (c *Ctx) UF(name string, w int, args ...*Expr) *Expr {
	if inv, ok := c.Inverse[name]; ok && len(args) == 2 {
		if a := args[1]; a.Op == OpUF && a.Name == inv && a.Args[0] == args[0] {
			return a.Args[1]
		}
	}
	if f := c.Impl[name]; f != nil {
		all := true
		for _, a := range args {
			all = all && a.Op == OpConst
		}
		if all {
			vs, ws := make([]*big.Int, len(args)), make([]int, len(args))
			for i, a := range args {
				vs[i], ws[i] = a.bigVal(), a.W
			}
			return c.BigConst(w, f(vs, ws))
		}
	}
	return c.mk(&Expr{Op: OpUF, W: w, Name: name, Args: append([]*Expr{}, args...)})
}

// ---------------------------------------------------------------- slices

func (c *Ctx) Extract(hi, lo int, e *Expr) *Expr {
	switch e.Op {
	case OpConst, OpVar, OpExtract, OpUF:
		return c.extract(hi, lo, e)
	}
	if hi-lo+1 == e.W {
		return e
	}
	k := [3]int{e.ID, hi, lo}
	if r, ok := c.extCache[k]; ok {
		return r
	}
	r := c.extract(hi, lo, e)
	c.extCache[k] = r
	return r
}

func (c *Ctx) extract(hi, lo int, e *Expr) *Expr {
	w := hi - lo + 1
	if w <= 0 || hi >= e.W || lo < 0 {
		panic(fmt.Sprintf("bad extract [%d:%d] of width %d", hi, lo, e.W))
	}
	if w == e.W {
		return e
	}
	switch e.Op {
	case OpConst:
		if e.Big != nil {
			return c.BigConst(w, new(big.Int).Rsh(e.Big, uint(lo)))
		}
		return c.Const(w, e.C>>uint(lo))
	case OpExtract:
		return c.Extract(hi+int(e.C), lo+int(e.C), e.Args[0])
	case OpConcat:
		pos := e.W
		var out []*Expr
		for _, a := range e.Args {
			ahi, alo := pos-1, pos-a.W
			pos = alo
			if alo > hi {
				continue
			}
			if ahi < lo {
				break
			}
			h, l := ahi, alo
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			out = append(out, c.Extract(h-alo, l-alo, a))
		}
		return c.Concat(out...)
	case OpAnd, OpOr, OpXor:
		args := make([]*Expr, len(e.Args))
		for i, a := range e.Args {
			args[i] = c.Extract(hi, lo, a)
		}
		return c.bitwise(e.Op, args)
	case OpIte:
		return c.Ite(e.Args[0], c.Extract(hi, lo, e.Args[1]), c.Extract(hi, lo, e.Args[2]))
	case OpTab:
		t := make([]uint64, len(e.Tab))
		for i := range t {
			t[i] = (e.Tab[i] >> uint(lo)) & mask(w)
		}
		return c.Table(t, w, e.Args[0])
	case OpSext:
		a := e.Args[0]
		if hi < a.W {
			return c.Extract(hi, lo, a)
		}
		if lo < a.W {
			return c.Sext(c.Extract(a.W-1, lo, a), w)
		}
		return c.Sext(c.Extract(a.W-1, a.W-1, a), w)
	case OpAdd:
		if lo == 0 {
			args := make([]*Expr, len(e.Args))
			for i, a := range e.Args {
				args[i] = c.Extract(hi, 0, a)
			}
			return c.Add(args...)
		}
	case OpMul:
		if lo == 0 {
			return c.Mul(c.Extract(hi, 0, e.Args[0]), c.Extract(hi, 0, e.Args[1]))
		}
	}
	if e.W <= 64 && lo == 0 && false {
		return e
	}
	if e.W <= 64 && uint(lo) < 64 && e.max>>uint(lo) == 0 {
		return c.Const(w, 0)
	}
	return c.mk(&Expr{Op: OpExtract, W: w, C: uint64(lo), Args: []*Expr{e}})
}

// Concat concatenates, most significant first.
func (c *Ctx) Concat(args ...*Expr) *Expr {
	var flat []*Expr
	for _, a := range args {
		if a.Op == OpConcat {
			flat = append(flat, a.Args...)
		} else {
			flat = append(flat, a)
		}
	}
	var out []*Expr
	for _, a := range flat {
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.Op == OpConst && a.Op == OpConst {
				v := new(big.Int).Lsh(p.bigVal(), uint(a.W))
				v.Or(v, a.bigVal())
				out[n-1] = c.BigConst(p.W+a.W, v)
				continue
			}
			// adjacent slices of the same term
			pb, phi, plo := sliceOf(p)
			ab, ahi, alo := sliceOf(a)
			if pb == ab && plo == ahi+1 {
				out[n-1] = c.Extract(phi, alo, pb)
				continue
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, a := range out {
		w += a.W
	}
	n := &Expr{Op: OpConcat, W: w, Args: out}
	if consts := constArgs(out); len(out)-consts > 1 {
		if r := c.fuse(n); r != nil {
			return r
		}
	}
	return c.mk(n)
}

func constArgs(l []*Expr) (n int) {
	for _, a := range l {
		if a.Op == OpConst {
			n++
		}
	}
	return
}

func sliceOf(e *Expr) (*Expr, int, int) {
	if e.Op == OpExtract {
		return e.Args[0], int(e.C) + e.W - 1, int(e.C)
	}
	return e, e.W - 1, 0
}

func (c *Ctx) Zext(e *Expr, w int) *Expr {
	if w == e.W {
		return e
	}
	if w < e.W {
		return c.Extract(w-1, 0, e)
	}
	return c.Concat(c.Const(w-e.W, 0), e)
}

func (c *Ctx) Sext(e *Expr, w int) *Expr {
	if w == e.W {
		return e
	}
	if w < e.W {
		return c.Extract(w-1, 0, e)
	}
	if e.Op == OpConst && w <= 64 {
		v := e.C
		if v>>(uint(e.W)-1)&1 == 1 {
			v |= ^mask(e.W)
		}
		return c.Const(w, v)
	}
	if e.W <= 64 && e.max < uint64(1)<<uint(e.W-1) {
		return c.Zext(e, w)
	}
	if e.Op == OpSext {
		return c.Sext(e.Args[0], w)
	}
	if e.Op == OpTab {
		t := make([]uint64, len(e.Tab))
		for i, v := range e.Tab {
			if v>>(uint(e.W)-1)&1 == 1 {
				v |= ^mask(e.W)
			}
			t[i] = v & mask(w)
		}
		return c.Table(t, w, e.Args[0])
	}
	return c.mk(&Expr{Op: OpSext, W: w, Args: []*Expr{e}})
}

// Table is a constant look-up table indexed by a term of at most 8 bits.
func (c *Ctx) Table(t []uint64, w int, idx *Expr) *Expr {
	if len(t) != 1<<uint(idx.W) || idx.W > 8 {
		panic(fmt.Sprintf("table of %d entries with index width %d", len(t), idx.W))
	}
	if idx.Op == OpConst {
		return c.Const(w, t[idx.C])
	}
	if idx.Op == OpTab {
		t2 := make([]uint64, len(idx.Tab))
		for i, v := range idx.Tab {
			t2[i] = t[v]
		}
		return c.Table(t2, w, idx.Args[0])
	}
	// constant?
	all := true
	for i := 1; i < len(t); i++ {
		if t[i] != t[0] {
			all = false
			break
		}
	}
	if all {
		return c.Const(w, t[0])
	}
	// drop irrelevant or constant index bits
	for b := 0; b < idx.W; b++ {
		bit := c.Extract(b, b, idx)
		irrelevant := true
		for i := range t {
			if t[i] != t[i^(1<<uint(b))] {
				irrelevant = false
				break
			}
		}
		if irrelevant || bit.Op == OpConst {
			if idx.W == 1 {
				break
			}
			keep := uint64(0)
			if bit.Op == OpConst {
				keep = bit.C
			}
			var parts []*Expr
			if b < idx.W-1 {
				parts = append(parts, c.Extract(idx.W-1, b+1, idx))
			}
			if b > 0 {
				parts = append(parts, c.Extract(b-1, 0, idx))
			}
			nidx := c.Concat(parts...)
			t2 := make([]uint64, len(t)/2)
			for i := range t2 {
				lo := uint64(i) & mask(b)
				hi := uint64(i) >> uint(b)
				if b == 0 {
					lo, hi = 0, uint64(i)
				}
				t2[i] = t[hi<<uint(b+1)|keep<<uint(b)|lo]
			}
			return c.Table(t2, w, nidx)
		}
	}
	// wiring: value = const | idx in the low bits
	if w >= idx.W {
		m := mask(idx.W)
		base := t[0] &^ m
		ok := true
		for i := range t {
			if t[i] != base|uint64(i) {
				ok = false
				break
			}
		}
		if ok {
			if w == idx.W {
				return idx
			}
			return c.Concat(c.Const(w-idx.W, base>>uint(idx.W)), idx)
		}
	}
	if w == 1 && idx.W == 1 { // the only remaining non-constant one is negation
		return c.Not(idx)
	}
	t2 := make([]uint64, len(t))
	copy(t2, t)
	return c.mk(&Expr{Op: OpTab, W: w, Tab: t2, Args: []*Expr{idx}})
}

// tabulate builds a table by applying f to each entry of a table or small zero-extended term.
func (c *Ctx) tab1(a *Expr, w int, f func(uint64) uint64) *Expr {
	t := make([]uint64, len(a.Tab))
	for i, v := range a.Tab {
		t[i] = f(v) & mask(w)
	}
	return c.Table(t, w, a.Args[0])
}

// small returns (t,true) if a is a zero-extension of a term t with at most 8 bits.
func small(c *Ctx, a *Expr) (*Expr, bool) {
	if a.W > 64 {
		return nil, false
	}
	if a.Op == OpConst {
		return nil, false
	}
	n := 0
	for m := a.max; m != 0; m >>= 1 {
		n++
	}
	if n == 0 || n > 8 {
		return nil, false
	}
	if n == a.W {
		return a, true
	}
	if a.Op == OpConcat && len(a.Args) == 2 && a.Args[0].Op == OpConst && a.Args[0].C == 0 && a.Args[1].W <= 8 {
		return a.Args[1], true
	}
	return c.Extract(n-1, 0, a), true
}

// Tabulate builds f(a) as a table when a is small; ok=false otherwise.
func (c *Ctx) Tabulate(a *Expr, w int, f func(uint64) uint64) (*Expr, bool) {
	if a.Op == OpTab {
		return c.tab1(a, w, f), true
	}
	s, ok := small(c, a)
	if !ok {
		return nil, false
	}
	t := make([]uint64, 1<<uint(s.W))
	for i := range t {
		t[i] = f(uint64(i)) & mask(w)
	}
	return c.Table(t, w, s), true
}

// ---------------------------------------------------------------- bitwise

func (c *Ctx) And(a ...*Expr) *Expr { return c.bitwise(OpAnd, a) }
func (c *Ctx) Or(a ...*Expr) *Expr  { return c.bitwise(OpOr, a) }
func (c *Ctx) Xor(a ...*Expr) *Expr { return c.bitwise(OpXor, a) }
func (c *Ctx) Not(a *Expr) *Expr    { return c.Xor(a, c.ones(a.W)) }

func (c *Ctx) ones(w int) *Expr {
	if w <= 64 {
		return c.Const(w, mask(w))
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return c.BigConst(w, m.Sub(m, big.NewInt(1)))
}

func (c *Ctx) bitwise(op Op, in []*Expr) *Expr {
	w := in[0].W
	var args []*Expr
	var konst *big.Int
	var k64 uint64
	hasK := false
	addK := func(e *Expr) {
		if w <= 64 {
			if !hasK {
				k64 = e.C
			} else {
				switch op {
				case OpAnd:
					k64 &= e.C
				case OpOr:
					k64 |= e.C
				case OpXor:
					k64 ^= e.C
				}
			}
		} else {
			if !hasK {
				konst = new(big.Int).Set(e.bigVal())
			} else {
				switch op {
				case OpAnd:
					konst.And(konst, e.bigVal())
				case OpOr:
					konst.Or(konst, e.bigVal())
				case OpXor:
					konst.Xor(konst, e.bigVal())
				}
			}
		}
		hasK = true
	}
	var flat func(a *Expr)
	flat = func(a *Expr) {
		if a.W != w {
			panic(fmt.Sprintf("bitwise %s width mismatch %d %d", opNames[op], a.W, w))
		}
		if a.Op == OpConst {
			addK(a)
		} else if a.Op == op {
			for _, x := range a.Args {
				flat(x)
			}
		} else {
			args = append(args, a)
		}
	}
	for _, a := range in {
		flat(a)
	}
	mkK := func() *Expr {
		if w <= 64 {
			return c.Const(w, k64)
		}
		return c.BigConst(w, konst)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].ID < args[j].ID })
	var u []*Expr
	for i := 0; i < len(args); {
		j := i
		for j < len(args) && args[j] == args[i] {
			j++
		}
		if op == OpXor {
			if (j-i)%2 == 1 {
				u = append(u, args[i])
			}
		} else {
			u = append(u, args[i])
		}
		i = j
	}
	args = u
	var k *Expr
	if hasK {
		k = mkK()
		zero := isZero(k)
		ones := k == c.ones(w)
		switch {
		case op == OpAnd && zero, op == OpOr && ones:
			return k
		case op == OpAnd && ones, op != OpAnd && zero:
			k = nil
		}
	}
	if len(args) == 0 {
		if k != nil {
			return k
		}
		if op == OpAnd {
			return c.ones(w)
		}
		return c.Const(w, 0)
	}
	if len(args) == 1 && k == nil {
		return args[0]
	}
	// x & ~x, x | ~x
	if op != OpXor {
		for _, a := range args {
			if a.Op == OpXor && len(a.Args) == 2 && a.Args[0].Op == OpConst && a.Args[0] == c.ones(w) {
				for _, b := range args {
					if b == a.Args[1] {
						if op == OpAnd {
							return c.Const(w, 0)
						}
						return c.ones(w)
					}
				}
			}
		}
	}
	// split at concatenation boundaries, and at the run boundaries of a mask
	cuts := map[int]bool{}
	for _, a := range args {
		if a.Op == OpConcat {
			p := 0
			for i := len(a.Args) - 1; i > 0; i-- {
				p += a.Args[i].W
				cuts[p] = true
			}
		}
	}
	if k != nil && op != OpXor {
		kb := k.bigVal()
		for i := 1; i < w; i++ {
			if kb.Bit(i) != kb.Bit(i-1) {
				cuts[i] = true
			}
		}
	}
	if len(cuts) > 0 {
		var ps []int
		for p := range cuts {
			ps = append(ps, p)
		}
		sort.Ints(ps)
		ps = append(ps, w)
		var parts []*Expr
		lo := 0
		all := args
		if k != nil {
			all = append(append([]*Expr{}, args...), k)
		}
		for _, p := range ps {
			sub := make([]*Expr, len(all))
			for i, a := range all {
				sub[i] = c.Extract(p-1, lo, a)
			}
			parts = append(parts, c.bitwise(op, sub))
			lo = p
		}
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
		return c.Concat(parts...)
	}
	if k != nil && len(args) == 1 && args[0].Op == OpTab {
		kk := k.C
		return c.tab1(args[0], w, func(v uint64) uint64 {
			switch op {
			case OpAnd:
				return v & kk
			case OpOr:
				return v | kk
			}
			return v ^ kk
		})
	}
	// two tables over the same index
	if w <= 64 {
		for i := 0; i < len(args); i++ {
			for j := i + 1; j < len(args); j++ {
				a, b := args[i], args[j]
				if r := c.tabPair(a, b, w, func(x, y uint64) uint64 {
					switch op {
					case OpAnd:
						return x & y
					case OpOr:
						return x | y
					}
					return x ^ y
				}); r != nil {
					rest := append([]*Expr{r}, args[:i]...)
					rest = append(rest, args[i+1:j]...)
					rest = append(rest, args[j+1:]...)
					if k != nil {
						rest = append(rest, k)
					}
					return c.bitwise(op, rest)
				}
			}
		}
	}
	// constant bit times ite: ite(c,k1,k2) op k
	if k != nil {
		args = append([]*Expr{k}, args...)
	}
	if w > 1 && len(args) == 2 && args[0].Op == OpConst && args[1].Op == OpIte && args[1].Args[1].Op == OpConst && args[1].Args[2].Op == OpConst {
		return c.Ite(args[1].Args[0], c.bitwise(op, []*Expr{args[0], args[1].Args[1]}), c.bitwise(op, []*Expr{args[0], args[1].Args[2]}))
	}
	// single bits: xor with one, and/or over bit conditions stay as terms
	n := &Expr{Op: op, W: w, Args: args}
	if r := c.fuse(n); r != nil {
		return r
	}
	return c.mk(n)
}

func (c *Ctx) tabPair(a, b *Expr, w int, f func(x, y uint64) uint64) *Expr {
	if a.Op == OpTab && b.Op == OpTab && a.Args[0] == b.Args[0] {
		t := make([]uint64, len(a.Tab))
		for i := range t {
			t[i] = f(a.Tab[i], b.Tab[i]) & mask(w)
		}
		return c.Table(t, w, a.Args[0])
	}
	return nil
}

func isZero(e *Expr) bool {
	if e.Op != OpConst {
		return false
	}
	if e.Big != nil {
		return e.Big.Sign() == 0
	}
	return e.C == 0
}

// ---------------------------------------------------------------- arithmetic

// Add is an n-ary sum kept in linear normal form (W<=64).
func (c *Ctx) Add(in ...*Expr) *Expr {
	w := in[0].W
	coef := map[*Expr]uint64{}
	var order []*Expr
	var k uint64
	var acc func(e *Expr, m uint64)
	acc = func(e *Expr, m uint64) {
		switch {
		case e.Op == OpConst:
			k += e.C * m
		case e.Op == OpAdd:
			for _, a := range e.Args {
				acc(a, m)
			}
		case e.Op == OpMul && e.Args[0].Op == OpConst:
			acc(e.Args[1], m*e.Args[0].C)
		default:
			if _, ok := coef[e]; !ok {
				order = append(order, e)
			}
			coef[e] += m
		}
	}
	if w > 64 {
		panic("wide add")
	}
	for _, e := range in {
		acc(e, 1)
	}
	k &= mask(w)
	var args []*Expr
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	for _, e := range order {
		m := coef[e] & mask(w)
		if m == 0 {
			continue
		}
		if m == 1 {
			args = append(args, e)
		} else {
			args = append(args, c.mk(&Expr{Op: OpMul, W: w, Args: []*Expr{c.Const(w, m), e}}))
		}
	}
	if len(args) == 0 {
		return c.Const(w, k)
	}
	if k == 0 && len(args) == 1 {
		if args[0].Op == OpMul && args[0].Args[0].Op == OpConst {
			return c.Mul(args[0].Args[0], args[0].Args[1])
		}
		return args[0]
	}
	if len(args) == 1 && args[0].Op == OpTab {
		return c.tab1(args[0], w, func(v uint64) uint64 { return v + k })
	}
	if len(args) == 1 && args[0].Op == OpConcat && args[0].Args[len(args[0].Args)-1].Op == OpTab && w <= 64 {
		// zext(tab)+k
		a := args[0]
		if len(a.Args) == 2 && isZero(a.Args[0]) {
			return c.tab1(a.Args[1], w, func(v uint64) uint64 { return v + k })
		}
	}
	if len(args) == 2 && k == 0 {
		if r := c.tabPair(args[0], args[1], w, func(x, y uint64) uint64 { return x + y }); r != nil {
			return r
		}
	}
	if len(args) == 1 && args[0].Op == OpIte && args[0].Args[1].Op == OpConst && args[0].Args[2].Op == OpConst {
		a := args[0]
		return c.Ite(a.Args[0], c.Const(w, a.Args[1].C+k), c.Const(w, a.Args[2].C+k))
	}
	// disjoint bits: concat(x,0..0)+k where k fits the zero tail is wiring
	if len(args) == 1 && args[0].Op == OpConcat {
		last := args[0].Args[len(args[0].Args)-1]
		if isZero(last) && last.W < 64 && k>>uint(last.W) == 0 {
			return c.Or(args[0], c.Const(w, k))
		}
	}
	if k != 0 {
		args = append([]*Expr{c.Const(w, k)}, args...)
	}
	n := &Expr{Op: OpAdd, W: w, Args: args}
	if r := c.fuse(n); r != nil {
		return r
	}
	return c.mk(n)
}

func (c *Ctx) Neg(a *Expr) *Expr {
	return c.Mul(c.Const(a.W, mask(a.W)), a)
}

func (c *Ctx) Sub(a, b *Expr) *Expr {
	if a == b {
		return c.Const(a.W, 0)
	}
	if b.Op == OpConst {
		return c.Add(a, c.Const(a.W, -b.C))
	}
	return c.Add(a, c.mk(&Expr{Op: OpMul, W: a.W, Args: []*Expr{c.Const(a.W, mask(a.W)), b}}))
}

func (c *Ctx) Mul(a, b *Expr) *Expr {
	w := a.W
	if b.Op == OpConst {
		a, b = b, a
	}
	if a.Op == OpConst {
		if b.Op == OpConst {
			return c.Const(w, a.C*b.C)
		}
		if a.C == 0 {
			return a
		}
		if a.C == 1 {
			return b
		}
		if a.C&(a.C-1) == 0 {
			n := 0
			for v := a.C; v > 1; v >>= 1 {
				n++
			}
			return c.ShlC(b, n)
		}
		if b.Op == OpTab {
			return c.tab1(b, w, func(v uint64) uint64 { return v * a.C })
		}
		if b.Op == OpMul && b.Args[0].Op == OpConst {
			return c.Mul(c.Const(w, a.C*b.Args[0].C), b.Args[1])
		}
		if b.Op == OpAdd {
			args := make([]*Expr, len(b.Args))
			for i, x := range b.Args {
				args[i] = c.Mul(a, x)
			}
			return c.Add(args...)
		}
	}
	if a.Op != OpConst && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Expr{Op: OpMul, W: w, Args: []*Expr{a, b}})
}

func signed(v uint64, w int) int64 {
	if w < 64 && v>>(uint(w)-1)&1 == 1 {
		v |= ^mask(w)
	}
	return int64(v)
}

func (c *Ctx) UDiv(a, b *Expr) *Expr {
	if b.Op == OpConst && b.C != 0 {
		if a.Op == OpConst {
			return c.Const(a.W, a.C/b.C)
		}
		if b.C == 1 {
			return a
		}
		if b.C&(b.C-1) == 0 {
			n := 0
			for v := b.C; v > 1; v >>= 1 {
				n++
			}
			return c.LshrC(a, n)
		}
		if r, ok := c.Tabulate(a, a.W, func(v uint64) uint64 { return v / b.C }); ok {
			return r
		}
	}
	return c.mk(&Expr{Op: OpUDiv, W: a.W, Args: []*Expr{a, b}})
}

func (c *Ctx) URem(a, b *Expr) *Expr {
	if b.Op == OpConst && b.C != 0 {
		if a.Op == OpConst {
			return c.Const(a.W, a.C%b.C)
		}
		if b.C&(b.C-1) == 0 {
			return c.And(a, c.Const(a.W, b.C-1))
		}
		if a.max < b.C {
			return a
		}
		if r, ok := c.Tabulate(a, a.W, func(v uint64) uint64 { return v % b.C }); ok {
			return r
		}
	}
	return c.mk(&Expr{Op: OpURem, W: a.W, Args: []*Expr{a, b}})
}

func (c *Ctx) nonNeg(a *Expr) bool { return a.max < uint64(1)<<uint(a.W-1) }

func (c *Ctx) SDiv(a, b *Expr) *Expr {
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.UDiv(a, b)
	}
	if a.Op == OpConst && b.Op == OpConst && b.C != 0 {
		x, y := signed(a.C, a.W), signed(b.C, b.W)
		if y == -1 {
			return c.Const(a.W, uint64(-x))
		}
		return c.Const(a.W, uint64(x/y))
	}
	return c.mk(&Expr{Op: OpSDiv, W: a.W, Args: []*Expr{a, b}})
}

func (c *Ctx) SRem(a, b *Expr) *Expr {
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.URem(a, b)
	}
	if a.Op == OpConst && b.Op == OpConst && b.C != 0 {
		x, y := signed(a.C, a.W), signed(b.C, b.W)
		if y == -1 {
			return c.Const(a.W, 0)
		}
		return c.Const(a.W, uint64(x%y))
	}
	return c.mk(&Expr{Op: OpSRem, W: a.W, Args: []*Expr{a, b}})
}

func (c *Ctx) ShlC(a *Expr, n int) *Expr {
	if n == 0 {
		return a
	}
	if n >= a.W {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Extract(a.W-1-n, 0, a), c.Const(n, 0))
}

func (c *Ctx) LshrC(a *Expr, n int) *Expr {
	if n == 0 {
		return a
	}
	if n >= a.W {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Const(n, 0), c.Extract(a.W-1, n, a))
}

func (c *Ctx) AshrC(a *Expr, n int) *Expr {
	if n == 0 {
		return a
	}
	if n >= a.W {
		n = a.W - 1
	}
	return c.Sext(c.Extract(a.W-1, n, a), a.W)
}

// shifts by a term of the same width; the caller handles counts >= W per Go semantics
// (bvshl/bvlshr/bvashr already give Go's result for them).
func (c *Ctx) Shl(a, n *Expr) *Expr {
	if n.Op == OpConst {
		if n.C >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		return c.ShlC(a, int(n.C))
	}
	if a.Op == OpConst {
		if r, ok := c.Tabulate(n, a.W, func(v uint64) uint64 {
			if v >= uint64(a.W) {
				return 0
			}
			return a.C << v
		}); ok {
			return r
		}
	}
	return c.mk(&Expr{Op: OpShl, W: a.W, Args: []*Expr{a, n}})
}

func (c *Ctx) Lshr(a, n *Expr) *Expr {
	if n.Op == OpConst {
		if n.C >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		return c.LshrC(a, int(n.C))
	}
	if a.Op == OpConst {
		if r, ok := c.Tabulate(n, a.W, func(v uint64) uint64 {
			if v >= uint64(a.W) {
				return 0
			}
			return a.C >> v
		}); ok {
			return r
		}
	}
	return c.mk(&Expr{Op: OpLshr, W: a.W, Args: []*Expr{a, n}})
}

func (c *Ctx) Ashr(a, n *Expr) *Expr {
	if n.Op == OpConst {
		m := n.C
		if m > uint64(a.W) {
			m = uint64(a.W)
		}
		return c.AshrC(a, int(m))
	}
	return c.mk(&Expr{Op: OpAshr, W: a.W, Args: []*Expr{a, n}})
}

// ---------------------------------------------------------------- predicates

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	k := [2]int{a.ID, b.ID}
	if a.ID > b.ID {
		k = [2]int{b.ID, a.ID}
	}
	if r, ok := c.eqCache[k]; ok {
		return r
	}
	r := c.eq(a, b)
	c.eqCache[k] = r
	return r
}

// RawEq is the equality of a and b left for the solver to judge.
func (c *Ctx) RawEq(a, b *Expr) *Expr {
	return c.mk(&Expr{Op: OpEq, W: 0, Args: []*Expr{a, b}})
}

func (c *Ctx) eq(a, b *Expr) *Expr {
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.W == 0 {
		if a.Op == OpConst {
			a, b = b, a
		}
		if b.Op == OpConst {
			if b.C == 1 {
				return a
			}
			return c.BNot(a)
		}
		if c.BNot(a) == b {
			return c.False
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		n := &Expr{Op: OpEq, W: 0, Args: []*Expr{a, b}}
		if !(b.Op == OpConst && (a.Op == OpTab || a.Op == OpExtract)) {
			if r := c.fuse(n); r != nil {
				return r
			}
		}
		return c.mk(n)
	}
	if a.Op == OpConst && b.Op == OpConst {
		return c.False // hash-consed, distinct
	}
	if a.Op == OpConst {
		a, b = b, a
	}
	if a.W <= 64 && (a.max < b.min || b.max < a.min) {
		return c.False
	}
	// piecewise
	if a.Op == OpConcat || b.Op == OpConcat {
		cuts := map[int]bool{}
		for _, e := range []*Expr{a, b} {
			if e.Op == OpConcat {
				p := 0
				for i := len(e.Args) - 1; i > 0; i-- {
					p += e.Args[i].W
					cuts[p] = true
				}
			}
		}
		var ps []int
		for p := range cuts {
			ps = append(ps, p)
		}
		sort.Ints(ps)
		ps = append(ps, a.W)
		lo := 0
		var cs []*Expr
		for _, p := range ps {
			q := c.Eq(c.Extract(p-1, lo, a), c.Extract(p-1, lo, b))
			if q.IsFalse() {
				return q
			}
			cs = append(cs, q)
			lo = p
		}
		return c.BAnd(cs...)
	}
	if b.Op == OpConst {
		switch a.Op {
		case OpXor:
			if a.Args[0].Op == OpConst {
				return c.Eq(c.bitwise(OpXor, a.Args[1:]), c.Xor(a.Args[0], b))
			}
		case OpAdd:
			if a.Args[0].Op == OpConst && a.W <= 64 {
				return c.Eq(c.Add(a.Args[1:]...), c.Const(a.W, b.C-a.Args[0].C))
			}
		case OpIte:
			if a.Args[1].Op == OpConst || a.Args[2].Op == OpConst {
				x, y := c.Eq(a.Args[1], b), c.Eq(a.Args[2], b)
				return c.IteB(a.Args[0], x, y)
			}
		case OpTab:
			n, at := 0, 0
			for i, v := range a.Tab {
				if v == b.C {
					n++
					at = i
				}
			}
			if n == 0 {
				return c.False
			}
			if n == len(a.Tab) {
				return c.True
			}
			if n == 1 {
				return c.Eq(a.Args[0], c.Const(a.Args[0].W, uint64(at)))
			}
			if a.W > 1 {
				return c.Eq(c.tab1(a, 1, func(v uint64) uint64 {
					if v == b.C {
						return 1
					}
					return 0
				}), c.Const(1, 1))
			}
		case OpSext:
			x := a.Args[0]
			t := c.Extract(x.W-1, 0, b)
			if c.Sext(t, a.W) != b {
				return c.False
			}
			return c.Eq(x, t)
		}
		if a.W == 1 {
			if b.C == 0 {
				return c.BNot(c.Eq(a, c.Const(1, 1)))
			}
			switch a.Op {
			case OpAnd:
				var cs []*Expr
				for _, x := range a.Args {
					cs = append(cs, c.Eq(x, c.Const(1, 1)))
				}
				return c.BAnd(cs...)
			case OpOr:
				var cs []*Expr
				for _, x := range a.Args {
					cs = append(cs, c.Eq(x, c.Const(1, 1)))
				}
				return c.BOr(cs...)
			}
		}
	} else {
		if a.Op == OpXor && b.Op == OpXor || a.Op == OpXor && contains(a.Args, b) || b.Op == OpXor && contains(b.Args, a) {
			// cancel common terms
			d := c.Xor(a, b)
			if d.Op != OpXor || len(d.Args) < len2(a)+len2(b) {
				if d.Op == OpXor {
					return c.Eq(d.Args[0], c.bitwise(OpXor, d.Args[1:]))
				}
				return c.Eq(d, c.Const(d.W, 0))
			}
		}
		if a.W <= 64 && (a.Op == OpAdd || b.Op == OpAdd) {
			d := c.Sub(a, b)
			if d.Op == OpConst {
				return c.Bool(d.C == 0)
			}
		}
		if r := c.tabPairB(a, b, func(x, y uint64) bool { return x == y }); r != nil {
			return r
		}
		if a.Op == OpIte && b.Op == OpIte && a.Args[0] == b.Args[0] {
			return c.IteB(a.Args[0], c.Eq(a.Args[1], b.Args[1]), c.Eq(a.Args[2], b.Args[2]))
		}
	}
	if b.Op != OpConst && a.ID > b.ID {
		a, b = b, a
	}
	n := &Expr{Op: OpEq, W: 0, Args: []*Expr{a, b}}
	if !(b.Op == OpConst && (a.Op == OpTab || a.Op == OpExtract)) {
		if r := c.fuse(n); r != nil {
			return r
		}
	}
	return c.mk(n)
}

func contains(l []*Expr, e *Expr) bool {
	for _, x := range l {
		if x == e {
			return true
		}
	}
	return false
}

func len2(e *Expr) int {
	if e.Op == OpXor {
		return len(e.Args)
	}
	return 1
}

func (c *Ctx) tabPairB(a, b *Expr, f func(x, y uint64) bool) *Expr {
	if a.Op == OpTab && b.Op == OpTab && a.Args[0] == b.Args[0] {
		t := make([]uint64, len(a.Tab))
		for i := range t {
			if f(a.Tab[i], b.Tab[i]) {
				t[i] = 1
			}
		}
		return c.Eq(c.Table(t, 1, a.Args[0]), c.Const(1, 1))
	}
	return nil
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.W > 64 {
		panic("wide ult")
	}
	if a.max < b.min {
		return c.True
	}
	if a.min >= b.max {
		return c.False
	}
	if b.Op == OpConst && b.C == 1 {
		return c.Eq(a, c.Const(a.W, 0))
	}
	if a.Op == OpConst && a.C == 0 {
		return c.BNot(c.Eq(b, c.Const(a.W, 0)))
	}
	if b.Op == OpConst && b.C == mask(b.W) {
		return c.BNot(c.Eq(a, b))
	}
	if b.Op == OpConst {
		if a.Op == OpTab {
			return c.Eq(c.tab1(a, 1, func(v uint64) uint64 {
				if v < b.C {
					return 1
				}
				return 0
			}), c.Const(1, 1))
		}
		if a.Op == OpIte && (a.Args[1].Op == OpConst || a.Args[2].Op == OpConst) {
			return c.IteB(a.Args[0], c.Ult(a.Args[1], b), c.Ult(a.Args[2], b))
		}
	}
	if a.Op == OpConst {
		if b.Op == OpTab {
			return c.Eq(c.tab1(b, 1, func(v uint64) uint64 {
				if a.C < v {
					return 1
				}
				return 0
			}), c.Const(1, 1))
		}
		if b.Op == OpIte && (b.Args[1].Op == OpConst || b.Args[2].Op == OpConst) {
			return c.IteB(b.Args[0], c.Ult(a, b.Args[1]), c.Ult(a, b.Args[2]))
		}
	}
	// strip common leading zeros
	n := 0
	for n < a.W && a.max>>(uint(a.W-1-n)) == 0 && b.max>>(uint(a.W-1-n)) == 0 {
		n++
	}
	if n > 0 && n < a.W {
		return c.Ult(c.Extract(a.W-1-n, 0, a), c.Extract(a.W-1-n, 0, b))
	}
	nn := &Expr{Op: OpUlt, W: 0, Args: []*Expr{a, b}}
	if r := c.fuse(nn); r != nil {
		return r
	}
	return c.mk(nn)
}

func (c *Ctx) Ule(a, b *Expr) *Expr { return c.BNot(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.Ult(a, b)
	}
	if a.Op == OpConst && b.Op == OpConst {
		return c.Bool(signed(a.C, a.W) < signed(b.C, b.W))
	}
	h := uint64(1) << uint(a.W-1)
	if c.nonNeg(a) && b.min >= h {
		return c.False
	}
	if a.min >= h && c.nonNeg(b) {
		return c.True
	}
	if b.Op == OpConst && b.C == 0 {
		return c.Eq(c.Extract(a.W-1, a.W-1, a), c.Const(1, 1))
	}
	if b.Op == OpConst && a.Op == OpTab {
		return c.Eq(c.tab1(a, 1, func(v uint64) uint64 {
			if signed(v, a.W) < signed(b.C, b.W) {
				return 1
			}
			return 0
		}), c.Const(1, 1))
	}
	if a.Op == OpConst && b.Op == OpTab {
		return c.Eq(c.tab1(b, 1, func(v uint64) uint64 {
			if signed(a.C, a.W) < signed(v, b.W) {
				return 1
			}
			return 0
		}), c.Const(1, 1))
	}
	if b.Op == OpConst && a.Op == OpIte && (a.Args[1].Op == OpConst || a.Args[2].Op == OpConst) {
		return c.IteB(a.Args[0], c.Slt(a.Args[1], b), c.Slt(a.Args[2], b))
	}
	if a.Op == OpConst && b.Op == OpIte && (b.Args[1].Op == OpConst || b.Args[2].Op == OpConst) {
		return c.IteB(b.Args[0], c.Slt(a, b.Args[1]), c.Slt(a, b.Args[2]))
	}
	return c.mk(&Expr{Op: OpSlt, W: 0, Args: []*Expr{a, b}})
}

func (c *Ctx) Sle(a, b *Expr) *Expr { return c.BNot(c.Slt(b, a)) }

// ---------------------------------------------------------------- ite / booleans

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if a.W == 0 {
		return c.IteB(cond, a, b)
	}
	if cond.Op == OpConst {
		if cond.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width %d %d", a.W, b.W))
	}
	if cond.Op == OpBNot {
		return c.Ite(cond.Args[0], b, a)
	}
	if a.Op == OpIte && a.Args[0] == cond {
		return c.Ite(cond, a.Args[1], b)
	}
	if b.Op == OpIte && b.Args[0] == cond {
		return c.Ite(cond, a, b.Args[2])
	}
	if a.Op == OpConcat || b.Op == OpConcat {
		cuts := map[int]bool{}
		for _, e := range []*Expr{a, b} {
			if e.Op == OpConcat {
				p := 0
				for i := len(e.Args) - 1; i > 0; i-- {
					p += e.Args[i].W
					cuts[p] = true
				}
			}
		}
		var ps []int
		for p := range cuts {
			ps = append(ps, p)
		}
		sort.Ints(ps)
		ps = append(ps, a.W)
		lo := 0
		parts := make([]*Expr, len(ps))
		for i, p := range ps {
			parts[len(ps)-1-i] = c.Ite(cond, c.Extract(p-1, lo, a), c.Extract(p-1, lo, b))
			lo = p
		}
		return c.Concat(parts...)
	}
	if a.Op == OpConst && b.Op == OpConst {
		if a.W == 1 {
			// bool to bit
			if cond.Op == OpEq && cond.Args[0].W == 1 && cond.Args[1].Op == OpConst {
				x := cond.Args[0]
				same := cond.Args[1].C == a.C
				if same {
					return x
				}
				return c.Not(x)
			}
			if a.C == 0 {
				return c.Not(c.Ite(cond, b, a))
			}
		} else if a.W <= 64 {
			// split into runs of equal/different bits
			d := a.C ^ b.C
			split := false
			for i := 1; i < a.W; i++ {
				if d>>uint(i)&1 != d>>uint(i-1)&1 {
					split = true
				}
			}
			if split {
				lo := 0
				var parts []*Expr
				for i := 1; i <= a.W; i++ {
					if i == a.W || d>>uint(i)&1 != d>>uint(lo)&1 {
						parts = append(parts, c.Ite(cond, c.Extract(i-1, lo, a), c.Extract(i-1, lo, b)))
						lo = i
					}
				}
				for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
					parts[i], parts[j] = parts[j], parts[i]
				}
				return c.Concat(parts...)
			}
		}
	}
	if cond.Op == OpEq && cond.Args[0].Op == OpTab && cond.Args[0].W == 1 && cond.Args[1].Op == OpConst && a.W <= 64 {
		// condition is a table over a small index; fold branches over the same index
		idx := cond.Args[0].Args[0]
		ta, oka := asTable(c, a, idx)
		tb, okb := asTable(c, b, idx)
		if oka && okb {
			t := make([]uint64, len(cond.Args[0].Tab))
			for i, v := range cond.Args[0].Tab {
				if v == cond.Args[1].C {
					t[i] = ta(i)
				} else {
					t[i] = tb(i)
				}
			}
			return c.Table(t, a.W, idx)
		}
	}
	n := &Expr{Op: OpIte, W: a.W, Args: []*Expr{cond, a, b}}
	if r := c.fuse(n); r != nil {
		return r
	}
	return c.mk(n)
}

func asTable(c *Ctx, e, idx *Expr) (func(int) uint64, bool) {
	if e.Op == OpConst {
		return func(int) uint64 { return e.C }, true
	}
	if e.Op == OpTab && e.Args[0] == idx {
		return func(i int) uint64 { return e.Tab[i] }, true
	}
	if e == idx {
		return func(i int) uint64 { return uint64(i) }, true
	}
	return nil, false
}

func (c *Ctx) IteB(cond, a, b *Expr) *Expr {
	if cond.Op == OpConst {
		if cond.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	switch {
	case a.IsTrue():
		return c.BOr(cond, b)
	case a.IsFalse():
		return c.BAnd(c.BNot(cond), b)
	case b.IsTrue():
		return c.BOr(c.BNot(cond), a)
	case b.IsFalse():
		return c.BAnd(cond, a)
	}
	if cond.Op == OpBNot {
		return c.IteB(cond.Args[0], b, a)
	}
	return c.mk(&Expr{Op: OpIte, W: 0, Args: []*Expr{cond, a, b}})
}

func (c *Ctx) BNot(a *Expr) *Expr {
	switch a.Op {
	case OpConst:
		return c.Bool(a.C == 0)
	case OpBNot:
		return a.Args[0]
	}
	return c.mk(&Expr{Op: OpBNot, W: 0, Args: []*Expr{a}})
}

func (c *Ctx) BAnd(in ...*Expr) *Expr { return c.nary(OpBAnd, in) }
func (c *Ctx) BOr(in ...*Expr) *Expr  { return c.nary(OpBOr, in) }

func (c *Ctx) nary(op Op, in []*Expr) *Expr {
	unit, zero := c.True, c.False
	if op == OpBOr {
		unit, zero = c.False, c.True
	}
	var args []*Expr
	for _, a := range in {
		if a == unit {
			continue
		}
		if a == zero {
			return zero
		}
		if a.Op == op {
			args = append(args, a.Args...)
		} else {
			args = append(args, a)
		}
	}
	if len(args) == 0 {
		return unit
	}
	if len(args) == 1 {
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool { return args[i].ID < args[j].ID })
	u := args[:0:0]
	set := make(map[*Expr]bool, len(args))
	for _, a := range args {
		if set[a] {
			continue
		}
		set[a] = true
		u = append(u, a)
	}
	for _, a := range u {
		if a.Op == OpBNot && set[a.Args[0]] {
			return zero
		}
	}
	// absorption: a op (a dual b) = a ; a op (!a dual b) = a op b
	dual := OpBOr
	if op == OpBOr {
		dual = OpBAnd
	}
	changed := false
	out := u[:0:0]
	for _, a := range u {
		if a.Op != dual {
			out = append(out, a)
			continue
		}
		absorbed := false
		var keep []*Expr
		for _, x := range a.Args {
			if set[x] {
				absorbed = true
				break
			}
			if (x.Op == OpBNot && set[x.Args[0]]) || set[c.notIfExists(x)] {
				continue
			}
			keep = append(keep, x)
		}
		if absorbed {
			changed = true
			continue
		}
		if len(keep) != len(a.Args) {
			changed = true
			out = append(out, c.nary(dual, keep))
			continue
		}
		out = append(out, a)
	}
	if changed {
		return c.nary(op, out)
	}
	if op == OpBOr && len(u) == 2 {
		// (p & x) | (p & !x) = p ; and factoring of common conjuncts
		a, b := conj(u[0]), conj(u[1])
		common, ra, rb := splitCommon(a, b)
		if len(common) > 0 {
			r := c.BOr(c.BAnd(ra...), c.BAnd(rb...))
			return c.BAnd(append(common, r)...)
		}
	}
	if len(u) == 1 {
		return u[0]
	}
	return c.mk(&Expr{Op: op, W: 0, Args: u})
}

func (c *Ctx) notIfExists(x *Expr) *Expr {
	if x.Op == OpBNot {
		return x.Args[0]
	}
	return c.mk(&Expr{Op: OpBNot, W: 0, Args: []*Expr{x}})
}

func conj(e *Expr) []*Expr {
	if e.Op == OpBAnd {
		return e.Args
	}
	return []*Expr{e}
}

func splitCommon(a, b []*Expr) (common, ra, rb []*Expr) {
	in := map[*Expr]bool{}
	for _, x := range b {
		in[x] = true
	}
	cm := map[*Expr]bool{}
	for _, x := range a {
		if in[x] {
			common = append(common, x)
			cm[x] = true
		} else {
			ra = append(ra, x)
		}
	}
	for _, x := range b {
		if !cm[x] {
			rb = append(rb, x)
		}
	}
	return
}

// BoolToBV converts a boolean to a bit-vector of width w (0/1).
func (c *Ctx) BoolToBV(b *Expr, w int) *Expr {
	return c.Zext(c.Ite(b, c.Const(1, 1), c.Const(1, 0)), w)
}

// Select builds elems[idx] for an in-range idx.
func (c *Ctx) Select(elems []*Expr, idx *Expr) *Expr {
	if idx.Op == OpConst {
		return elems[idx.C]
	}
	n := len(elems)
	k := 1
	for (1 << uint(k)) < n {
		k++
	}
	if idx.W > k {
		idx = c.Extract(k-1, 0, idx)
	} else if idx.W < k {
		idx = c.Zext(idx, k)
	}
	var rec func(lo, k int) *Expr
	rec = func(lo, k int) *Expr {
		if lo >= n {
			return nil
		}
		if k <= 8 && elems[lo].W <= 64 && elems[lo].W > 0 {
			ok := true
			t := make([]uint64, 1<<uint(k))
			for i := range t {
				if lo+i < n {
					if elems[lo+i].Op != OpConst {
						ok = false
						break
					}
					t[i] = elems[lo+i].C
				} else {
					t[i] = elems[n-1].C
				}
			}
			if ok {
				if k == 0 {
					return elems[lo]
				}
				return c.Table(t, elems[lo].W, c.Extract(k-1, 0, idx))
			}
		}
		if k == 0 {
			return elems[lo]
		}
		l := rec(lo, k-1)
		r := rec(lo+1<<uint(k-1), k-1)
		if r == nil {
			return l
		}
		return c.Ite(c.Eq(c.Extract(k-1, k-1, idx), c.Const(1, 1)), r, l)
	}
	return rec(0, k)
}

func (e *Expr) String() string {
	var b strings.Builder
	e.str(&b, 0)
	return b.String()
}

func (e *Expr) str(b *strings.Builder, d int) {
	switch e.Op {
	case OpConst:
		if e.W == 0 {
			fmt.Fprintf(b, "%v", e.C == 1)
		} else {
			fmt.Fprintf(b, "%s#%d", e.bigVal().Text(16), e.W)
		}
		return
	case OpVar:
		b.WriteString(e.Name)
		return
	}
	if d > 6 {
		fmt.Fprintf(b, "@%d", e.ID)
		return
	}
	b.WriteString("(")
	switch e.Op {
	case OpUF:
		b.WriteString(e.Name)
	case OpExtract:
		fmt.Fprintf(b, "[%d:%d]", int(e.C)+e.W-1, e.C)
	case OpTab:
		fmt.Fprintf(b, "tab%d", len(e.Tab))
	default:
		b.WriteString(opNames[e.Op])
	}
	for _, a := range e.Args {
		b.WriteString(" ")
		a.str(b, d+1)
	}
	b.WriteString(")")
}
