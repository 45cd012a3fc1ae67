package exec

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"gosym/expr"
	"math/big"
	"strconv"
	"strings"
)

func bigBytes(v *big.Int, w int) []byte { return v.FillBytes(make([]byte, (w+7)/8)) }

func blockUF(mk func(k []byte) (cipher.Block, error), dec bool) expr.UFImpl {
	return func(a []*big.Int, w []int) *big.Int {
		b, err := mk(bigBytes(a[0], w[0]))
		if err != nil {
			panic(err)
		}
		in := bigBytes(a[1], w[1])
		out := make([]byte, len(in))
		if dec {
			b.Decrypt(out, in)
		} else {
			b.Encrypt(out, in)
		}
		return new(big.Int).SetBytes(out)
	}
}

// registerUFs gives the uninterpreted primitives their real meaning (used for
// evaluating witnesses and for folding constants) and their inverse laws.
func registerUFs(c *expr.Ctx) {
	pair := func(n string, mk func(k []byte) (cipher.Block, error)) {
		c.Impl[n+"_E"] = blockUF(mk, false)
		c.Impl[n+"_D"] = blockUF(mk, true)
		c.Inverse[n+"_E"] = n + "_D"
		c.Inverse[n+"_D"] = n + "_E"
	}
	pair("des", des.NewCipher)
	for _, k := range []string{"aes128", "aes192", "aes256"} {
		pair(k, aes.NewCipher)
	}
}

var hashes = map[string]func([]byte) []byte{
	"sha256": func(b []byte) []byte { s := sha256.Sum256(b); return s[:] },
	"sha224": func(b []byte) []byte { s := sha256.Sum224(b); return s[:] },
	"sha1":   func(b []byte) []byte { s := sha1.Sum(b); return s[:] },
	"md5":    func(b []byte) []byte { s := md5.Sum(b); return s[:] },
	"sha512": func(b []byte) []byte { s := sha512.Sum512(b); return s[:] },
	"sha384": func(b []byte) []byte { s := sha512.Sum384(b); return s[:] },
}

// uf applies the primitive called name to byte strings.
func (r *Run) uf(name string, outBytes int, args [][]*expr.Expr) []*expr.Expr {
	c := r.C
	if h, ok := hashes[name]; ok {
		n := len(args[0])
		name += "_" + strconv.Itoa(n)
		if c.Impl[name] == nil {
			c.Impl[name] = func(a []*big.Int, w []int) *big.Int {
				b := []byte{}
				if n > 0 {
					b = bigBytes(a[0], w[0])
				}
				return new(big.Int).SetBytes(h(b))
			}
		}
		if n == 0 {
			args = [][]*expr.Expr{{c.Const(8, 0)}}
		}
	} else if c.Impl[name] == nil {
		unsup("unknown primitive %s", name)
	}
	var es []*expr.Expr
	for _, a := range args {
		if len(a) == 0 {
			unsup("empty argument of primitive %s", name)
		}
		es = append(es, c.Concat(a...))
	}
	if strings.HasPrefix(name, "des_") {
		// the parity bits of a DES key have no effect
		m, _ := new(big.Int).SetString("fefefefefefefefe", 16)
		es[0] = c.And(es[0], c.BigConst(64, m))
	}
	e := c.UF(name, outBytes*8, es...)
	out := make([]*expr.Expr, outBytes)
	for i := range out {
		hi := (outBytes-i)*8 - 1
		out[i] = c.Extract(hi, hi-7, e)
	}
	return out
}
