package expr

import (
	"math/big"
	"math/rand"
	"testing"
)

// Random terms are built through the simplifying constructors next to their
// directly computed value; evaluating the term must give that value under the
// assignment used, and under every other assignment the value recomputed.
func TestSimplifier(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewCtx()
		const NA = 4
		type tv struct {
			e *Expr
			v [NA]*big.Int
		}
		var pool []tv
		var vals [NA]map[string]*big.Int
		for i := range vals {
			vals[i] = map[string]*big.Int{}
		}
		for _, n := range []struct {
			n string
			w int
		}{{"a", 1}, {"b", 4}, {"c", 8}, {"d", 8}, {"e", 16}, {"f", 32}, {"g", 64}, {"h", 128}, {"p", 0}, {"q", 0}, {"s", 8}} {
			var x tv
			x.e = c.Var(n.n, n.w)
			for i := range vals {
				w := n.w
				if w == 0 {
					w = 1
				}
				x.v[i] = new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
				if r.Intn(4) == 0 {
					x.v[i] = new(big.Int)
				}
				vals[i][n.n] = x.v[i]
			}
			pool = append(pool, x)
		}
		pick := func(ok func(*Expr) bool) (tv, bool) {
			for k := 0; k < 30; k++ {
				x := pool[r.Intn(len(pool))]
				if ok(x.e) {
					return x, true
				}
			}
			return tv{}, false
		}
		sg := func(v *big.Int, w int) *big.Int {
			if v.Bit(w-1) == 1 {
				return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			}
			return v
		}
		for step := 0; step < 60; step++ {
			x, _ := pick(func(e *Expr) bool { return e.W > 0 })
			w := x.e.W
			var y tv
			if r.Intn(3) == 0 {
				k := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
				if r.Intn(2) == 0 {
					k = big.NewInt(int64(r.Intn(3)))
					if w == 1 {
						k = big.NewInt(int64(r.Intn(2)))
					}
				}
				y.e = c.BigConst(w, k)
				for i := range y.v {
					y.v[i] = k
				}
			} else {
				y, _ = pick(func(e *Expr) bool { return e.W == w })
			}
			if y.e == nil {
				continue
			}
			if r.Intn(2) == 0 {
				x, y = y, x
			}
			p, okp := pick(func(e *Expr) bool { return e.W == 0 })
			q, okq := pick(func(e *Expr) bool { return e.W == 0 })
			if !okp || !okq {
				continue
			}
			var z tv
			bl := func(f func(i int) bool) {
				for i := range z.v {
					z.v[i] = big.NewInt(0)
					if f(i) {
						z.v[i] = big.NewInt(1)
					}
				}
			}
			bv := func(f func(i int) *big.Int) {
				for i := range z.v {
					v := f(i)
					if v == nil {
						z.e = nil
						return
					}
					z.v[i] = new(big.Int).And(v, bigMask(z.e.W))
				}
			}
			switch op := r.Intn(27); op {
			case 0:
				z.e = c.And(x.e, y.e)
				bv(func(i int) *big.Int { return new(big.Int).And(x.v[i], y.v[i]) })
			case 1:
				z.e = c.Or(x.e, y.e)
				bv(func(i int) *big.Int { return new(big.Int).Or(x.v[i], y.v[i]) })
			case 2, 3:
				z.e = c.Xor(x.e, y.e)
				bv(func(i int) *big.Int { return new(big.Int).Xor(x.v[i], y.v[i]) })
			case 4:
				if w > 64 {
					continue
				}
				z.e = c.Add(x.e, y.e)
				bv(func(i int) *big.Int { return new(big.Int).Add(x.v[i], y.v[i]) })
			case 5:
				if w > 64 {
					continue
				}
				z.e = c.Sub(x.e, y.e)
				bv(func(i int) *big.Int { return new(big.Int).Sub(x.v[i], y.v[i]) })
			case 6:
				if w > 64 {
					continue
				}
				z.e = c.Mul(x.e, y.e)
				bv(func(i int) *big.Int { return new(big.Int).Mul(x.v[i], y.v[i]) })
			case 7, 8, 9, 10:
				if w > 64 {
					continue
				}
				bad := false
				for i := range y.v {
					bad = bad || y.v[i].Sign() == 0
				}
				if bad {
					continue
				}
				f := func(i int) *big.Int { return new(big.Int).Div(x.v[i], y.v[i]) }
				switch op {
				case 7:
					z.e = c.UDiv(x.e, y.e)
				case 8:
					z.e = c.URem(x.e, y.e)
					f = func(i int) *big.Int { return new(big.Int).Rem(x.v[i], y.v[i]) }
				case 9:
					z.e = c.SDiv(x.e, y.e)
					f = func(i int) *big.Int { return new(big.Int).Quo(sg(x.v[i], w), sg(y.v[i], w)) }
				case 10:
					z.e = c.SRem(x.e, y.e)
					f = func(i int) *big.Int { return new(big.Int).Rem(sg(x.v[i], w), sg(y.v[i], w)) }
				}
				bv(f)
			case 11, 12, 13:
				if w > 64 {
					continue
				}
				if r.Intn(2) == 0 {
					k := big.NewInt(int64(r.Intn(w + 2)))
					if k.BitLen() > w {
						continue
					}
					y.e = c.BigConst(w, k)
					for i := range y.v {
						y.v[i] = k
					}
				}
				sh := func(i int) uint {
					if y.v[i].BitLen() > 8 {
						return 256
					}
					return uint(y.v[i].Uint64())
				}
				switch op {
				case 11:
					z.e = c.Shl(x.e, y.e)
					bv(func(i int) *big.Int { return new(big.Int).Lsh(x.v[i], sh(i)) })
				case 12:
					z.e = c.Lshr(x.e, y.e)
					bv(func(i int) *big.Int { return new(big.Int).Rsh(x.v[i], sh(i)) })
				case 13:
					z.e = c.Ashr(x.e, y.e)
					bv(func(i int) *big.Int { return new(big.Int).Rsh(sg(x.v[i], w), sh(i)) })
				}
			case 14, 15:
				hi := r.Intn(w)
				lo := r.Intn(hi + 1)
				z.e = c.Extract(hi, lo, x.e)
				bv(func(i int) *big.Int { return new(big.Int).Rsh(x.v[i], uint(lo)) })
			case 16:
				y, _ = pick(func(e *Expr) bool { return e.W > 0 && e.W+w <= 160 })
				if y.e == nil {
					continue
				}
				z.e = c.Concat(x.e, y.e)
				bv(func(i int) *big.Int { return new(big.Int).Or(new(big.Int).Lsh(x.v[i], uint(y.e.W)), y.v[i]) })
			case 17:
				z.e = c.Sext(x.e, w+1+r.Intn(30))
				bv(func(i int) *big.Int { return sg(x.v[i], w) })
			case 18, 19:
				z.e = c.Ite(p.e, x.e, y.e)
				bv(func(i int) *big.Int {
					if p.v[i].Sign() != 0 {
						return x.v[i]
					}
					return y.v[i]
				})
			case 20:
				z.e = c.Eq(x.e, y.e)
				bl(func(i int) bool { return x.v[i].Cmp(y.v[i]) == 0 })
			case 21:
				if w > 64 {
					continue
				}
				z.e = c.Ult(x.e, y.e)
				bl(func(i int) bool { return x.v[i].Cmp(y.v[i]) < 0 })
			case 22:
				if w > 64 {
					continue
				}
				z.e = c.Slt(x.e, y.e)
				bl(func(i int) bool { return sg(x.v[i], w).Cmp(sg(y.v[i], w)) < 0 })
			case 23:
				z.e = c.BAnd(p.e, q.e)
				bl(func(i int) bool { return p.v[i].Sign() != 0 && q.v[i].Sign() != 0 })
			case 24:
				z.e = c.BOr(p.e, c.BNot(q.e))
				bl(func(i int) bool { return p.v[i].Sign() != 0 || q.v[i].Sign() == 0 })
			case 25:
				if w > 8 {
					continue
				}
				tw := 1 + r.Intn(9)
				tb := make([]uint64, 1<<uint(w))
				for i := range tb {
					tb[i] = uint64(r.Intn(3)) & mask(tw)
					if seed%2 == 0 {
						tb[i] = uint64(r.Intn(1 << uint(tw)))
					}
				}
				z.e = c.Table(tb, tw, x.e)
				bv(func(i int) *big.Int { return new(big.Int).SetUint64(tb[x.v[i].Uint64()]) })
			case 26:
				x, _ := pick(func(e *Expr) bool { return e.W == 0 })
				y, _ := pick(func(e *Expr) bool { return e.W == 0 })
				if x.e == nil || y.e == nil {
					continue
				}
				z.e = c.IteB(p.e, x.e, c.Eq(y.e, q.e))
				bl(func(i int) bool {
					if p.v[i].Sign() != 0 {
						return x.v[i].Sign() != 0
					}
					return y.v[i].Cmp(q.v[i]) == 0
				})
			}
			if z.e == nil {
				continue
			}
			for i := range vals {
				as := c.NewAssign(vals[i])
				if got := as.Big(z.e); got.Cmp(z.v[i]) != 0 {
					t.Fatalf("seed %d step %d: got %x want %x: %s", seed, step, got, z.v[i], z.e)
				}
				if z.e.W > 0 && z.e.W <= 64 {
					lo, hi := z.e.Range()
					if v := z.v[i].Uint64(); v < lo || v > hi {
						t.Fatalf("seed %d step %d: %x outside [%x,%x]: %s", seed, step, v, lo, hi, z.e)
					}
				}
			}
			pool = append(pool, z)
		}
	}
}
