package expr

import (
	"fmt"
	"math/big"
)

// UFImpl gives the real function behind an uninterpreted one.
type UFImpl func(args []*big.Int, widths []int) *big.Int

// Assign is a concrete assignment of variables with a memo of evaluated terms.
// Variables that are absent evaluate to zero.
type Assign struct {
	ctx  *Ctx
	Vals map[string]*big.Int
	lo   map[int]uint64
	hi   map[int]*big.Int
}

func (c *Ctx) NewAssign(vals map[string]*big.Int) *Assign {
	return &Assign{ctx: c, Vals: vals, lo: map[int]uint64{}, hi: map[int]*big.Int{}}
}

func bigMask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

// Bool evaluates a boolean term.
func (a *Assign) Bool(e *Expr) bool { return a.u(e) == 1 }

// U64 evaluates a term of at most 64 bits (or a boolean).
func (a *Assign) U64(e *Expr) uint64 { return a.u(e) }

// Big evaluates any term.
func (a *Assign) Big(e *Expr) *big.Int {
	if e.W <= 64 {
		return new(big.Int).SetUint64(a.u(e))
	}
	return a.b(e)
}

func (a *Assign) u(e *Expr) uint64 {
	if e.Op == OpConst {
		return e.C
	}
	if v, ok := a.lo[e.ID]; ok {
		return v
	}
	v := a.eval64(e)
	if e.W > 0 {
		v &= mask(e.W)
	}
	a.lo[e.ID] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (a *Assign) eval64(e *Expr) uint64 {
	switch e.Op {
	case OpVar:
		if v := a.Vals[e.Name]; v != nil {
			return v.Uint64()
		}
		return 0
	case OpUF:
		return a.uf(e).Uint64()
	case OpConcat:
		var v uint64
		for _, x := range e.Args {
			v = v<<uint(x.W) | a.u(x)
		}
		return v
	case OpExtract:
		x := e.Args[0]
		if x.W <= 64 {
			return a.u(x) >> e.C
		}
		return new(big.Int).And(new(big.Int).Rsh(a.b(x), uint(e.C)), bigMask(e.W)).Uint64()
	case OpAnd:
		v := ^uint64(0)
		for _, x := range e.Args {
			v &= a.u(x)
		}
		return v
	case OpOr:
		v := uint64(0)
		for _, x := range e.Args {
			v |= a.u(x)
		}
		return v
	case OpXor:
		v := uint64(0)
		for _, x := range e.Args {
			v ^= a.u(x)
		}
		return v
	case OpAdd:
		v := uint64(0)
		for _, x := range e.Args {
			v += a.u(x)
		}
		return v
	case OpMul:
		v := uint64(1)
		for _, x := range e.Args {
			v *= a.u(x)
		}
		return v
	case OpUDiv:
		d := a.u(e.Args[1])
		if d == 0 {
			return mask(e.W)
		}
		return a.u(e.Args[0]) / d
	case OpURem:
		d := a.u(e.Args[1])
		if d == 0 {
			return a.u(e.Args[0])
		}
		return a.u(e.Args[0]) % d
	case OpSDiv, OpSRem:
		x, y := signed(a.u(e.Args[0]), e.W), signed(a.u(e.Args[1]), e.W)
		if y == 0 {
			if e.Op == OpSRem {
				return uint64(x)
			}
			if x < 0 {
				return 1
			}
			return mask(e.W)
		}
		if y == -1 {
			if e.Op == OpSDiv {
				return uint64(-x)
			}
			return 0
		}
		if e.Op == OpSDiv {
			return uint64(x / y)
		}
		return uint64(x % y)
	case OpShl:
		n := a.u(e.Args[1])
		if n >= uint64(e.W) {
			return 0
		}
		return a.u(e.Args[0]) << n
	case OpLshr:
		n := a.u(e.Args[1])
		if n >= uint64(e.W) {
			return 0
		}
		return a.u(e.Args[0]) >> n
	case OpAshr:
		n := a.u(e.Args[1])
		x := signed(a.u(e.Args[0]), e.W)
		if n > 63 {
			n = 63
		}
		return uint64(x >> n)
	case OpSext:
		return uint64(signed(a.u(e.Args[0]), e.Args[0].W))
	case OpTab:
		return e.Tab[a.u(e.Args[0])]
	case OpIte:
		if a.u(e.Args[0]) == 1 {
			return a.u(e.Args[1])
		}
		return a.u(e.Args[2])
	case OpUlt:
		return b2u(a.u(e.Args[0]) < a.u(e.Args[1]))
	case OpSlt:
		w := e.Args[0].W
		return b2u(signed(a.u(e.Args[0]), w) < signed(a.u(e.Args[1]), w))
	case OpEq:
		if e.Args[0].W <= 64 {
			return b2u(a.u(e.Args[0]) == a.u(e.Args[1]))
		}
		return b2u(a.b(e.Args[0]).Cmp(a.b(e.Args[1])) == 0)
	case OpBNot:
		return 1 - a.u(e.Args[0])
	case OpBAnd:
		for _, x := range e.Args {
			if a.u(x) == 0 {
				return 0
			}
		}
		return 1
	case OpBOr:
		for _, x := range e.Args {
			if a.u(x) == 1 {
				return 1
			}
		}
		return 0
	}
	panic("eval64: " + opNames[e.Op])
}

func (a *Assign) uf(e *Expr) *big.Int {
	f := a.ctx.Impl[e.Name]
	if f == nil {
		panic(fmt.Sprintf("no implementation of uninterpreted function %s", e.Name))
	}
	args := make([]*big.Int, len(e.Args))
	ws := make([]int, len(e.Args))
	for i, x := range e.Args {
		args[i], ws[i] = a.Big(x), x.W
	}
	return f(args, ws)
}

func (a *Assign) b(e *Expr) *big.Int {
	if e.W <= 64 {
		return new(big.Int).SetUint64(a.u(e))
	}
	if e.Op == OpConst {
		return e.Big
	}
	if v, ok := a.hi[e.ID]; ok {
		return v
	}
	v := a.evalBig(e)
	if v.Sign() < 0 || v.BitLen() > e.W {
		v = new(big.Int).And(v, bigMask(e.W))
	}
	a.hi[e.ID] = v
	return v
}

func (a *Assign) evalBig(e *Expr) *big.Int {
	switch e.Op {
	case OpVar:
		if v := a.Vals[e.Name]; v != nil {
			return v
		}
		return new(big.Int)
	case OpUF:
		return a.uf(e)
	case OpConcat:
		v := new(big.Int)
		for _, x := range e.Args {
			v.Lsh(v, uint(x.W))
			v.Or(v, a.b(x))
		}
		return v
	case OpExtract:
		return new(big.Int).Rsh(a.b(e.Args[0]), uint(e.C))
	case OpAnd, OpOr, OpXor, OpAdd, OpMul:
		v := new(big.Int).Set(a.b(e.Args[0]))
		for _, x := range e.Args[1:] {
			switch e.Op {
			case OpAnd:
				v.And(v, a.b(x))
			case OpOr:
				v.Or(v, a.b(x))
			case OpXor:
				v.Xor(v, a.b(x))
			case OpAdd:
				v.Add(v, a.b(x))
			case OpMul:
				v.Mul(v, a.b(x))
			}
		}
		return v
	case OpIte:
		if a.u(e.Args[0]) == 1 {
			return a.b(e.Args[1])
		}
		return a.b(e.Args[2])
	case OpSext:
		x := e.Args[0]
		v := a.b(x)
		if v.Bit(x.W-1) == 1 {
			v = new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(x.W)))
		}
		return v
	}
	panic(fmt.Sprintf("evalBig: %s width %d", opNames[e.Op], e.W))
}

// ConstVal returns the value of a constant.
func (e *Expr) ConstVal() *big.Int { return e.bigVal() }

// Cone calls f once for every term reachable from roots, arguments first.
func Cone(roots []*Expr, f func(*Expr)) {
	seen := map[int]bool{}
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if seen[e.ID] {
			return
		}
		seen[e.ID] = true
		for _, a := range e.Args {
			rec(a)
		}
		f(e)
	}
	for _, r := range roots {
		rec(r)
	}
}
