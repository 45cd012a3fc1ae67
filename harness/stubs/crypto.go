// Package stubs models the environment of the code under test: each function
// replaces a standard-library function during symbolic execution.
package stubs

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"
	"hash"
	"io"

	"dukptverif/sym"
)

// ---- block ciphers

type desBlock struct{ k [3][]byte }

func (d *desBlock) BlockSize() int { return 8 }

func (d *desBlock) run(dst, src []byte, dec bool) {
	if len(src) < 8 {
		panic("crypto/des: input not full block")
	}
	if len(dst) < 8 {
		panic("crypto/des: output not full block")
	}
	b := make([]byte, 8)
	copy(b, src)
	if d.k[1] == nil {
		if dec {
			b = sym.UF("des_D", 8, d.k[0], b)
		} else {
			b = sym.UF("des_E", 8, d.k[0], b)
		}
	} else if dec {
		b = sym.UF("des_D", 8, d.k[2], b)
		b = sym.UF("des_E", 8, d.k[1], b)
		b = sym.UF("des_D", 8, d.k[0], b)
	} else {
		b = sym.UF("des_E", 8, d.k[0], b)
		b = sym.UF("des_D", 8, d.k[1], b)
		b = sym.UF("des_E", 8, d.k[2], b)
	}
	copy(dst, b)
}

func (d *desBlock) Encrypt(dst, src []byte) { d.run(dst, src, false) }
func (d *desBlock) Decrypt(dst, src []byte) { d.run(dst, src, true) }

func dup(b []byte) []byte {
	n := make([]byte, len(b))
	copy(n, b)
	return n
}

//sym:replace crypto/des.NewCipher
func NewDES(key []byte) (cipher.Block, error) {
	if len(key) != 8 {
		return nil, des.KeySizeError(len(key))
	}
	d := new(desBlock)
	d.k[0] = dup(key)
	return d, nil
}

//sym:replace crypto/des.NewTripleDESCipher
func NewTDES(key []byte) (cipher.Block, error) {
	if len(key) != 24 {
		return nil, des.KeySizeError(len(key))
	}
	d := new(desBlock)
	d.k[0] = dup(key[:8])
	d.k[1] = dup(key[8:16])
	d.k[2] = dup(key[16:])
	return d, nil
}

type aesBlock struct {
	name string
	k    []byte
}

func (a *aesBlock) BlockSize() int { return 16 }

func (a *aesBlock) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, sym.UF(a.name+"_E", 16, a.k, src[:16]))
}

func (a *aesBlock) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, sym.UF(a.name+"_D", 16, a.k, src[:16]))
}

//sym:replace crypto/aes.NewCipher
func NewAES(key []byte) (cipher.Block, error) {
	a := &aesBlock{k: dup(key)}
	switch len(key) {
	case 16:
		a.name = "aes128"
	case 24:
		a.name = "aes192"
	case 32:
		a.name = "aes256"
	default:
		return nil, aes.KeySizeError(len(key))
	}
	return a, nil
}

// ---- modes

type cbc struct {
	b   cipher.Block
	iv  []byte
	dec bool
}

func (c *cbc) BlockSize() int { return len(c.iv) }

func (c *cbc) CryptBlocks(dst, src []byte) {
	n := len(c.iv)
	if len(src)%n != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	in := dup(src)
	for o := 0; o < len(in); o += n {
		blk := in[o : o+n]
		if c.dec {
			t := make([]byte, n)
			c.b.Decrypt(t, blk)
			for i := range t {
				t[i] ^= c.iv[i]
			}
			copy(dst[o:], t)
			c.iv = dup(blk)
		} else {
			t := make([]byte, n)
			for i := range t {
				t[i] = blk[i] ^ c.iv[i]
			}
			c.b.Encrypt(t, t)
			copy(dst[o:], t)
			c.iv = t
		}
	}
}

func (c *cbc) SetIV(iv []byte) {
	if len(iv) != len(c.iv) {
		panic("cipher: incorrect length IV")
	}
	c.iv = dup(iv)
}

//sym:replace crypto/cipher.NewCBCEncrypter
func NewCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCEncrypter: IV length must equal block size")
	}
	return &cbc{b: b, iv: dup(iv)}
}

//sym:replace crypto/cipher.NewCBCDecrypter
func NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCDecrypter: IV length must equal block size")
	}
	return &cbc{b: b, iv: dup(iv), dec: true}
}

// stream models CTR, OFB and CFB.
type stream struct {
	b    cipher.Block
	reg  []byte
	ks   []byte
	mode int // 0 CTR, 1 OFB, 2 CFB encrypt, 3 CFB decrypt
}

func (s *stream) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	n := s.b.BlockSize()
	for i := 0; i < len(src); i++ {
		if len(s.ks) == 0 {
			s.ks = make([]byte, n)
			s.b.Encrypt(s.ks, s.reg)
			switch s.mode {
			case 0:
				for j := n - 1; j >= 0; j-- {
					s.reg[j]++
					if s.reg[j] != 0 {
						break
					}
				}
			case 1:
				copy(s.reg, s.ks)
			}
		}
		in := src[i]
		out := in ^ s.ks[0]
		p := n - len(s.ks)
		s.ks = s.ks[1:]
		if s.mode == 2 {
			s.reg[p] = out
		} else if s.mode == 3 {
			s.reg[p] = in
		}
		dst[i] = out
	}
}

func newStream(b cipher.Block, iv []byte, mode int) cipher.Stream {
	if len(iv) != b.BlockSize() {
		panic("crypto/cipher: IV length must equal block size")
	}
	return &stream{b: b, reg: dup(iv), mode: mode}
}

//sym:replace crypto/cipher.NewCTR
func NewCTR(b cipher.Block, iv []byte) cipher.Stream { return newStream(b, iv, 0) }

//sym:replace crypto/cipher.NewOFB
func NewOFB(b cipher.Block, iv []byte) cipher.Stream { return newStream(b, iv, 1) }

//sym:replace crypto/cipher.NewCFBEncrypter
func NewCFBEncrypter(b cipher.Block, iv []byte) cipher.Stream { return newStream(b, iv, 2) }

//sym:replace crypto/cipher.NewCFBDecrypter
func NewCFBDecrypter(b cipher.Block, iv []byte) cipher.Stream { return newStream(b, iv, 3) }

// ---- hashes

type ufHash struct {
	name     string
	size, bs int
	buf      []byte
}

func (h *ufHash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *ufHash) Sum(b []byte) []byte { return append(b, sym.UF(h.name, h.size, h.buf)...) }
func (h *ufHash) Reset()              { h.buf = nil }
func (h *ufHash) Size() int           { return h.size }
func (h *ufHash) BlockSize() int      { return h.bs }

//sym:replace crypto/sha256.New
func NewSHA256() hash.Hash { return &ufHash{name: "sha256", size: 32, bs: 64} }

//sym:replace crypto/sha256.New224
func NewSHA224() hash.Hash { return &ufHash{name: "sha224", size: 28, bs: 64} }

//sym:replace crypto/sha1.New
func NewSHA1() hash.Hash { return &ufHash{name: "sha1", size: 20, bs: 64} }

//sym:replace crypto/md5.New
func NewMD5() hash.Hash { return &ufHash{name: "md5", size: 16, bs: 64} }

//sym:replace crypto/sha512.New
func NewSHA512() hash.Hash { return &ufHash{name: "sha512", size: 64, bs: 128} }

//sym:replace crypto/sha512.New384
func NewSHA384() hash.Hash { return &ufHash{name: "sha384", size: 48, bs: 128} }

//sym:replace crypto/sha256.Sum256
func Sum256(b []byte) (out [32]byte) {
	copy(out[:], sym.UF("sha256", 32, b))
	return
}

type hmacHash struct {
	h          func() hash.Hash
	ipad, opad []byte
	buf        []byte
	size, bs   int
}

func (m *hmacHash) Write(p []byte) (int, error) {
	m.buf = append(m.buf, p...)
	return len(p), nil
}
func (m *hmacHash) Sum(b []byte) []byte {
	in := m.h()
	in.Write(m.ipad)
	in.Write(m.buf)
	out := m.h()
	out.Write(m.opad)
	out.Write(in.Sum(nil))
	return append(b, out.Sum(nil)...)
}
func (m *hmacHash) Reset()         { m.buf = nil }
func (m *hmacHash) Size() int      { return m.size }
func (m *hmacHash) BlockSize() int { return m.bs }

//sym:replace crypto/hmac.New
func NewHMAC(h func() hash.Hash, key []byte) hash.Hash {
	x := h()
	m := &hmacHash{h: h, size: x.Size(), bs: x.BlockSize()}
	if len(key) > m.bs {
		x.Write(key)
		key = x.Sum(nil)
	}
	m.ipad = make([]byte, m.bs)
	m.opad = make([]byte, m.bs)
	copy(m.ipad, key)
	copy(m.opad, key)
	for i := range m.ipad {
		m.ipad[i] ^= 0x36
		m.opad[i] ^= 0x5c
	}
	return m
}

// ---- randomness

//sym:global crypto/rand.Reader
var Reader io.Reader = sym.RandReader{}

//sym:replace crypto/rand.Read
func RandRead(b []byte) (int, error) {
	copy(b, sym.Fresh(len(b)))
	return len(b), nil
}

//sym:replace crypto/subtle.XORBytes
func XORBytes(dst, x, y []byte) int {
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	if n == 0 {
		return 0
	}
	if n > len(dst) {
		panic("subtle.XORBytes: dst too short")
	}
	for i := 0; i < n; i++ {
		dst[i] = x[i] ^ y[i]
	}
	return n
}

//sym:replace crypto/subtle.ConstantTimeCompare
func ConstantTimeCompare(x, y []byte) int {
	if sym.EqBytes(x, y) {
		return 1
	}
	return 0
}

//sym:replace crypto/hmac.Equal
func HmacEqual(x, y []byte) bool { return sym.EqBytes(x, y) }
