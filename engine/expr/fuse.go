package expr

// A term that depends on few bits of one other term, and on a table look-up of
// them, is a look-up itself. Character handling (hex digits, mostly) leaves
// such terms behind, and a table of the whole often is plain wiring.

type view struct {
	src    *Expr
	lo, hi int
	n      int // nodes
	tab    bool
	ok     bool
}

const (
	viewSpan  = 8
	viewNodes = 60
)

func (c *Ctx) view(e *Expr) view {
	if v, ok := c.views[e]; ok {
		return v
	}
	v := c.makeView(e)
	c.views[e] = v
	return v
}

func leafView(e *Expr) view {
	if e.W < 1 || e.W > viewSpan {
		return view{}
	}
	return view{src: e, hi: e.W - 1, n: 1, ok: true}
}

func (c *Ctx) makeView(e *Expr) view {
	if e.W > 64 {
		return view{}
	}
	switch e.Op {
	case OpConst:
		return view{n: 1, ok: true}
	case OpExtract:
		if e.W > viewSpan {
			return view{}
		}
		return view{src: e.Args[0], lo: int(e.C), hi: int(e.C) + e.W - 1, n: 1, ok: true}
	case OpTab:
		v := c.view(e.Args[0])
		v.tab = true
		v.n++
		return v
	case OpConcat, OpIte, OpAdd, OpAnd, OpOr, OpXor, OpEq, OpUlt, OpBNot, OpBAnd, OpBOr:
		if v := c.join(e.Args); v.ok && v.tab {
			return v
		}
	}
	return leafView(e)
}

// join is the view of a term with these arguments.
func (c *Ctx) join(args []*Expr) view {
	r := view{n: 1, ok: true}
	for _, a := range args {
		if a.W > 64 {
			return view{}
		}
		v := c.view(a)
		if !v.ok {
			return view{}
		}
		r.n += v.n
		r.tab = r.tab || v.tab
		if v.src == nil {
			continue
		}
		if r.src == nil {
			r.src, r.lo, r.hi = v.src, v.lo, v.hi
			continue
		}
		if r.src != v.src {
			return view{}
		}
		if v.lo < r.lo {
			r.lo = v.lo
		}
		if v.hi > r.hi {
			r.hi = v.hi
		}
	}
	if r.n > viewNodes || r.src != nil && r.hi-r.lo >= viewSpan {
		return view{}
	}
	return r
}

// fuse makes e one look-up if it can; nil otherwise.
func (c *Ctx) fuse(e *Expr) *Expr {
	v := c.join(e.Args)
	if !v.ok || !v.tab || v.src == nil || e.W > 64 {
		return nil
	}
	w := v.hi - v.lo + 1
	t := make([]uint64, 1<<uint(w))
	for i := range t {
		t[i] = viewVal(e, v.src, uint64(i)<<uint(v.lo), v.lo)
		if e.W > 0 {
			t[i] &= mask(e.W)
		}
	}
	idx := c.Extract(v.hi, v.lo, v.src)
	if e.W == 0 {
		return c.Eq(c.Table(t, 1, idx), c.Const(1, 1))
	}
	return c.Table(t, e.W, idx)
}

// viewVal evaluates e where the viewed bits of src, from bit lo on, have the
// value val>>lo (val itself would not fit for wide terms).
func viewVal(e, src *Expr, val uint64, lo int) uint64 { return viewBits(e, src, val>>uint(lo), lo) }

func viewBits(e, src *Expr, bits uint64, lo int) uint64 {
	ev := func(a *Expr) uint64 {
		r := viewBits(a, src, bits, lo)
		if a.W > 0 {
			r &= mask(a.W)
		}
		return r
	}
	if e == src {
		return bits // the whole term: lo is 0
	}
	switch e.Op {
	case OpConst:
		return e.C
	case OpExtract:
		return bits >> (uint(e.C) - uint(lo)) & mask(e.W)
	case OpTab:
		return e.Tab[ev(e.Args[0])]
	case OpConcat:
		r := uint64(0)
		for _, a := range e.Args {
			r = r<<uint(a.W) | ev(a)
		}
		return r
	case OpIte:
		if ev(e.Args[0]) == 1 {
			return ev(e.Args[1])
		}
		return ev(e.Args[2])
	case OpAdd:
		r := uint64(0)
		for _, a := range e.Args {
			r += ev(a)
		}
		return r
	case OpAnd, OpOr, OpXor:
		r := ev(e.Args[0])
		for _, a := range e.Args[1:] {
			switch e.Op {
			case OpAnd:
				r &= ev(a)
			case OpOr:
				r |= ev(a)
			default:
				r ^= ev(a)
			}
		}
		return r
	case OpEq:
		return b2u(ev(e.Args[0]) == ev(e.Args[1]))
	case OpUlt:
		return b2u(ev(e.Args[0]) < ev(e.Args[1]))
	case OpBNot:
		return 1 - ev(e.Args[0])
	case OpBAnd, OpBOr:
		for _, a := range e.Args {
			if (ev(a) == 1) == (e.Op == OpBOr) {
				return b2u(e.Op == OpBOr)
			}
		}
		return b2u(e.Op == OpBAnd)
	}
	panic("viewBits")
}
