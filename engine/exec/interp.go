package exec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"gosym/expr"
	"gosym/smt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine is the loaded program, shared by all runs.
type Engine struct {
	Prog    *ssa.Program
	Stubs   map[string]*ssa.Function // full name of a replaced function -> stub
	Globals map[string]*ssa.Global   // redirected package variables
	info    *infoCache
	Sizes   types.Sizes
	mu      sync.Mutex
}

func NewEngine(p *ssa.Program) *Engine {
	return &Engine{Prog: p, Stubs: map[string]*ssa.Function{}, Globals: map[string]*ssa.Global{}, info: &infoCache{m: map[*ssa.Function]*fnInfo{}}, Sizes: types.SizesFor("gc", "amd64")}
}

type Stats struct {
	Paths, Merges, Forks, Instrs, Unknown int
	Asserts, AssertsTrivial, Proved       int
	Confirmed                             int
	Incomplete                            map[string]int
	Funcs                                 map[string]bool
	Reached                               map[string]bool
	StubsUsed                             map[string]bool
}

// Violation is an assertion (or uncaught panic) reachable with real inputs.
type Violation struct {
	Msg    string
	Inputs map[string]string // hex
	Detail string
}

// Trace is a completed path with the outputs predicted for a concrete input.
type Trace struct {
	Inputs map[string]string
	Outs   map[string]string
	Reach  []string
}

type Options struct {
	Param       int
	Args        map[string]string
	Deadline    time.Time
	QueryTime   time.Duration
	MaxVisits   int
	MaxSplit    int
	MaxPaths    int
	AllowPanics bool
	Found       func(Violation) // called with every candidate counterexample
	Stop        *atomic.Bool    // ends the run as if its deadline had passed
}

// Run is the symbolic execution of one harness with one parameter.
type Run struct {
	E         *Engine
	C         *expr.Ctx
	Sol       *smt.Solver
	Opt       Options
	base      map[int]*Obj
	nextBas   int
	nextObj   int
	globals   map[*ssa.Global]int
	inited    map[*ssa.Package]bool
	initing   int
	byteK     [256]*expr.Expr
	consts    map[*ssa.Const]Value
	pool      []*expr.Assign
	hard      int // queries left for which fresh solvers go first
	vsets     map[int]*big.Int
	Stats     Stats
	Viol      []Violation
	Traces    []Trace
	inputs    []inputVar
	inputBy   map[string]bool
	Unconf    []string
	cur       *Frame
	msets     map[string]*ssa.Function
	debug     bool
	written   map[int]bool
	Notes     map[string]int
	reps      map[string]int
	pending   []*expr.Expr
	confirmed map[int]bool
}

type inputVar struct {
	Name string
	Bits []*expr.Expr // most significant first
}

func NewRun(e *Engine, opt Options) *Run {
	if opt.MaxVisits == 0 {
		opt.MaxVisits = 200000
	}
	if opt.MaxSplit == 0 {
		opt.MaxSplit = 300
	}
	if opt.QueryTime == 0 {
		opt.QueryTime = 20 * time.Second
	}
	r := &Run{E: e, C: expr.NewCtx(), Opt: opt, base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, inited: map[*ssa.Package]bool{},
		consts: map[*ssa.Const]Value{}, vsets: map[int]*big.Int{}, inputBy: map[string]bool{}, msets: map[string]*ssa.Function{}, written: map[int]bool{}, confirmed: map[int]bool{}}
	r.Stats = Stats{Incomplete: map[string]int{}, Funcs: map[string]bool{}, Reached: map[string]bool{}, StubsUsed: map[string]bool{}}
	registerUFs(r.C)
	for i := range r.byteK {
		r.byteK[i] = r.C.Const(8, uint64(i))
	}
	r.Sol = smt.New(r.C)
	r.debug = os.Getenv("GOSYM_DEBUG") != ""
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		w, _ := os.Create(f)
		r.Sol.Log = w
	}
	return r
}

type outKind int

const (
	kReach outKind = iota
	kReturn
	kPanic
	kDead
	kExit
	kIncomplete
)

type Out struct {
	kind outKind
	st   *State
	fr   *Frame
	vals []Value
	val  Value // panic value or exit code
	msg  string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	bi   *ssa.Builtin
}

type Frame struct {
	fn       *ssa.Function
	info     *fnInfo
	regs     []Value
	defers   []deferred
	panicIdx int // index+1 of the panic a deferred call may recover
	visits   map[int]int
	parent   *Frame
	at       ssa.Instruction
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value{}, f.regs...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.visits = make(map[int]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return &n
}

func (f *Frame) stack() string {
	s := ""
	n := 0
	for ; f != nil && n < 12; f = f.parent {
		s += "\n    at " + f.fn.String()
		if f.at != nil {
			p := f.fn.Prog.Fset.Position(f.at.Pos())
			s += fmt.Sprintf(" (%s:%d) %s", p.Filename, p.Line, f.at)
		}
		n++
	}
	return s
}

type resKind int

const (
	rNext resKind = iota
	rDead
	rSplit
	rMulti
	rRetry
)

type res struct {
	kind  resKind
	split *expr.Expr
	multi []mstate
}

type mstate struct {
	st  *State
	val Value
}

// xc is the execution context of one instruction.
type xc struct {
	r    *Run
	st   *State
	fr   *Frame
	outs *[]Out
	ret  Value
}

var errDeadline = "time budget"

func (r *Run) expired() bool {
	if r.Opt.Stop != nil && r.Opt.Stop.Load() {
		return true
	}
	return !r.Opt.Deadline.IsZero() && time.Now().After(r.Opt.Deadline)
}

func (r *Run) exec(st *State, fr *Frame, b *ssa.BasicBlock, i int, until *ssa.BasicBlock) (outs []Out) {
	x := &xc{r: r, st: st, fr: fr, outs: &outs}
	defer func() {
		if p := recover(); p != nil {
			if u, ok := p.(unsupported); ok {
				msg := u.msg
				if r.debug {
					msg += fr.stack()
				}
				outs = append(outs, Out{kind: kIncomplete, st: x.st, fr: x.fr, msg: msg})
				return
			}
			if r.debug {
				fmt.Fprintf(os.Stderr, "internal: %v\n%s\n%s\n", p, x.fr.stack(), debug.Stack())
			}
			outs = append(outs, Out{kind: kIncomplete, st: x.st, fr: x.fr, msg: fmt.Sprintf("internal: %v in %s", p, x.fr.fn)})
		}
	}()
	for {
		ins := b.Instrs[i]
		x.fr.at = ins
		r.Stats.Instrs++
		if r.Stats.Instrs&4095 == 0 && r.expired() {
			outs = append(outs, Out{kind: kIncomplete, st: x.st, fr: x.fr, msg: errDeadline})
			return
		}
		var subs []Out // states to resume: fr positioned, val unused
		var subB []*ssa.BasicBlock
		var subI []int
		var reached []Out
		stop := until
		if p := x.fr.info.ipdom[b.Index]; p >= 0 {
			stop = x.fr.fn.Blocks[p]
		}
		switch ins := ins.(type) {
		case *ssa.Phi: // assigned on entry to the block
			i++
			continue
		case *ssa.Jump:
			nb := b.Succs[0]
			if !x.enter(b, nb) {
				return
			}
			if nb == until {
				outs = append(outs, Out{kind: kReach, st: x.st, fr: x.fr})
				return
			}
			b, i = nb, 0
			continue
		case *ssa.If:
			cond, ok := r.val(x.fr, ins.Cond).(*expr.Expr)
			if !ok {
				unsup("branch on %v", r.val(x.fr, ins.Cond))
			}
			t, f := r.split(x.st, cond)
			if t == nil && f == nil {
				return
			}
			if t == nil || f == nil {
				k := 0
				x.st = t
				if t == nil {
					k = 1
					x.st = f
				}
				nb := b.Succs[k]
				if !x.enter(b, nb) {
					return
				}
				if nb == until {
					outs = append(outs, Out{kind: kReach, st: x.st, fr: x.fr})
					return
				}
				b, i = nb, 0
				continue
			}
			if r.expired() {
				outs = append(outs, Out{kind: kIncomplete, st: x.st, fr: x.fr, msg: errDeadline})
				return
			}
			ff := x.fr.clone()
			sts := []*State{t, f}
			frs := []*Frame{x.fr, ff}
			for k := 0; k < 2; k++ {
				y := &xc{r: r, st: sts[k], fr: frs[k], outs: &outs}
				if !y.enter(b, b.Succs[k]) {
					continue
				}
				o := Out{kind: kReach, st: y.st, fr: y.fr}
				if b.Succs[k] == stop {
					reached = append(reached, o)
				} else {
					subs = append(subs, o)
					subB = append(subB, b.Succs[k])
					subI = append(subI, 0)
				}
			}
		case *ssa.Return:
			vals := make([]Value, len(ins.Results))
			for k, v := range ins.Results {
				vals[k] = r.val(x.fr, v)
			}
			outs = append(outs, Out{kind: kReturn, st: x.st, vals: vals})
			return
		case *ssa.Panic:
			outs = append(outs, Out{kind: kPanic, st: x.st, fr: x.fr, val: r.val(x.fr, ins.X)})
			return
		default:
			var c res
			if r.initing > 0 {
				c = x.stepInit(ins)
			} else {
				c = x.step(ins)
			}
			switch c.kind {
			case rNext:
				i++
				continue
			case rDead:
				return
			case rSplit:
				sts, ok := r.enumerate(x.st, c.split)
				if !ok {
					outs = append(outs, Out{kind: kIncomplete, st: x.st, fr: x.fr, msg: "case split too wide: " + c.split.String()})
				}
				if len(sts) == 0 {
					return
				}
				if len(sts) == 1 {
					x.st = sts[0]
					continue
				}
				for k, s := range sts {
					f := x.fr
					if k > 0 {
						f = subs[0].fr.clone()
					}
					subs = append(subs, Out{kind: kReach, st: s, fr: f})
					subB = append(subB, b)
					subI = append(subI, i)
				}
			case rRetry:
				for k, m := range c.multi {
					f := x.fr
					if k < len(c.multi)-1 {
						f = x.fr.clone()
					}
					subs = append(subs, Out{kind: kReach, st: m.st, fr: f})
					subB = append(subB, b)
					subI = append(subI, i)
				}
				if len(subs) == 0 {
					return
				}
				if len(subs) == 1 {
					x.st, x.fr = subs[0].st, subs[0].fr
					continue
				}
			case rMulti:
				v, isVal := ins.(ssa.Value)
				for k, m := range c.multi {
					f := x.fr
					if k < len(c.multi)-1 {
						f = x.fr.clone()
					}
					if isVal {
						f.regs[f.info.num[v]] = m.val
					}
					subs = append(subs, Out{kind: kReach, st: m.st, fr: f})
					subB = append(subB, b)
					subI = append(subI, i+1)
				}
				if len(subs) == 0 {
					return
				}
				if len(subs) == 1 {
					x.st, x.fr = subs[0].st, subs[0].fr
					i++
					continue
				}
			}
		}
		// run every sub-state to the join point
		for k := range subs {
			os := r.exec(subs[k].st, subs[k].fr, subB[k], subI[k], stop)
			for _, o := range os {
				if o.kind == kReach {
					reached = append(reached, o)
				} else {
					outs = append(outs, o)
				}
			}
		}
		merged := r.mergeReach(reached, stop)
		if stop == until {
			outs = append(outs, merged...)
			return
		}
		if len(merged) == 0 {
			return
		}
		if len(merged) == 1 {
			x.st, x.fr = merged[0].st, merged[0].fr
			r.flatten(x.st)
			b, i = stop, 0
			continue
		}
		for _, m := range merged {
			outs = append(outs, r.exec(m.st, m.fr, stop, 0, until)...)
		}
		// outcomes at until are joined by the caller
		return
	}
}

func (r *Run) flatten(s *State) {
	if s.top.depth < 20 {
		return
	}
	n := newLayer(nil)
	n.m = changed(s, nil)
	// objects may be shared with other states
	for id, o := range n.m {
		c := *o
		c.Fresh = false
		n.m[id] = &c
	}
	s.top = n
}

// enter performs the parallel phi assignment of nb.
func (x *xc) enter(from, nb *ssa.BasicBlock) bool {
	fr := x.fr
	if fr.visits == nil {
		fr.visits = map[int]int{}
	}
	fr.visits[nb.Index]++
	if fr.visits[nb.Index] > x.r.Opt.MaxVisits {
		unsup("loop bound %d in %s", x.r.Opt.MaxVisits, fr.fn)
	}
	var vals []Value
	n := 0
	for _, ins := range nb.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range nb.Preds {
			if p == from {
				vals = append(vals, x.r.val(fr, ph.Edges[k]))
				break
			}
		}
		n++
	}
	for k := 0; k < n; k++ {
		fr.regs[fr.info.num[nb.Instrs[k].(*ssa.Phi)]] = vals[k]
	}
	return true
}

func (r *Run) mergeReach(in []Out, at *ssa.BasicBlock) []Out {
	var res []Out
	for _, o := range in {
		done := false
		for k := len(res) - 1; k >= 0 && k >= len(res)-16; k-- {
			if m, ok := r.mergeOut(res[k], o, at); ok {
				res[k] = m
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

func (r *Run) mergeOut(a, b Out, at *ssa.BasicBlock) (Out, bool) {
	fa, fb := a.fr, b.fr
	if len(fa.defers) != len(fb.defers) {
		return a, false
	}
	live := fa.info.live[at.Index]
	// phis of the block are already assigned and live if used below
	var ra, rb []Value
	var idx []int
	for k, l := range live {
		if l {
			idx = append(idx, k)
			ra = append(ra, fa.regs[k])
			rb = append(rb, fb.regs[k])
		}
	}
	for k := range fa.defers {
		da, db := fa.defers[k], fb.defers[k]
		if da.call != db.call || len(da.args) != len(db.args) {
			return a, false
		}
		ra = append(append(ra, da.fn), da.args...)
		rb = append(append(rb, db.fn), db.args...)
	}
	st, vals, ok := r.mergeStates(a.st, b.st, ra, rb, fa.parent)
	if !ok {
		return a, false
	}
	f := fa.clone()
	for k := range f.regs {
		if !live[k] {
			f.regs[k] = nil
		}
	}
	for k, i := range idx {
		f.regs[i] = vals[k]
	}
	p := len(idx)
	nd := make([]deferred, len(fa.defers))
	for k := range nd {
		d := fa.defers[k]
		nd[k] = deferred{call: d.call, bi: d.bi, fn: vals[p], args: vals[p+1 : p+1+len(d.args)]}
		p += 1 + len(d.args)
	}
	f.defers = nd
	for k, v := range fb.visits {
		if v > f.visits[k] {
			f.visits[k] = v
		}
	}
	return Out{kind: kReach, st: st, fr: f}, true
}

func (r *Run) mergeReturns(in []Out, parent *Frame) []Out {
	var res []Out
	for _, o := range in {
		done := false
		if o.kind == kReturn {
			for k := len(res) - 1; k >= 0 && k >= len(res)-16; k-- {
				if res[k].kind != kReturn {
					continue
				}
				if st, vals, ok := r.mergeStates(res[k].st, o.st, res[k].vals, o.vals, parent); ok {
					res[k] = Out{kind: kReturn, st: st, vals: vals}
					done = true
					break
				}
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

// ---------------------------------------------------------------- branching

func (r *Run) known(s *State, cond *expr.Expr) (bool, bool) {
	n := r.C.BNot(cond)
	for k := len(s.pc) - 1; k >= 0; k-- {
		if s.pc[k] == cond {
			return true, true
		}
		if s.pc[k] == n {
			return false, true
		}
	}
	return false, false
}

// split forks s on cond; a nil result means that side is infeasible.
func (r *Run) split(s *State, cond *expr.Expr) (t, f *State) {
	if cond.IsConst() {
		if cond.IsTrue() {
			return s, nil
		}
		return nil, s
	}
	if v, ok := r.known(s, cond); ok {
		if v {
			return s, nil
		}
		return nil, s
	}
	if v, ok := s.conc[cond.ID]; ok {
		if v == 1 {
			return s, nil
		}
		return nil, s
	}
	if r.debug && os.Getenv("GOSYM_SPLITS") != "" && r.Stats.Forks < 400 {
		fmt.Fprintf(os.Stderr, "split %.300s pc=%d wit=%v\n", cond.String(), len(s.pc), s.wit != nil)
	}
	n := r.C.BNot(cond)
	wt, ot := r.feasible(s, cond)
	wf, of := r.feasible(s, n)
	switch {
	case ot && of:
		r.Stats.Forks++
		g := s.fork()
		s.assume(cond)
		s.wit = wt
		g.assume(n)
		g.wit = wf
		return s, g
	case ot:
		return s, nil
	case of:
		return nil, s
	}
	return nil, nil
}

// feasible reports whether pc and cond can hold together, with a witness if one is known.
func (r *Run) feasible(s *State, cond *expr.Expr) (*expr.Assign, bool) {
	if s.wit != nil && s.wit.Bool(cond) {
		return s.wit, true
	}
	for k := len(r.pool) - 1; k >= 0; k-- {
		if a := r.pool[k]; a.Bool(cond) && allTrue(a, s.pc) {
			return a, true
		}
	}
	var q []*expr.Expr
	if s.wit != nil {
		q = r.relevant(s.pc, cond)
	} else {
		q = append([]*expr.Expr{cond}, s.pc...)
	}
	res, a := r.solve(s, q, 30)
	switch res {
	case smt.Unsat:
		return nil, false
	case smt.Sat:
		return a, true
	}
	r.Stats.Unknown++
	return nil, true
}

func allTrue(a *expr.Assign, cs []*expr.Expr) bool {
	for k := len(cs) - 1; k >= 0; k-- {
		if !a.Bool(cs[k]) {
			return false
		}
	}
	return true
}

// decide has the solvers answer one query. The incremental solver takes the
// easy ones; where it is slow, fresh solvers on the query alone are often much
// faster, so they are then tried first.
func (r *Run) decide(all []*expr.Expr) (smt.Result, map[string]*big.Int) {
	limit := func(d time.Duration) time.Duration {
		if r.Opt.Deadline.IsZero() {
			return d
		}
		left := time.Until(r.Opt.Deadline)
		if left < time.Second {
			left = time.Second
		}
		if d > left {
			return left
		}
		return d
	}
	if !r.Opt.Deadline.IsZero() && time.Since(r.Opt.Deadline) > 5*time.Second {
		return smt.Unknown, nil
	}
	if r.hard > 0 {
		r.hard--
		if res, m := r.Sol.Single(all, limit(3*time.Second)); res != smt.Unknown {
			return res, m
		}
		return r.Sol.Portfolio(all, limit(2*r.Opt.QueryTime))
	}
	first := limit(r.Opt.QueryTime)
	if first > 1500*time.Millisecond {
		first = 1500 * time.Millisecond
	}
	t0 := time.Now()
	res, m := r.Sol.Check(all, first)
	if time.Since(t0) > 300*time.Millisecond {
		r.hard = 20
	}
	if res == smt.Unknown {
		res, m = r.Sol.Portfolio(all, limit(2*r.Opt.QueryTime))
	}
	return res, m
}

// solve checks the conjunction q (a slice of s.pc plus a condition) and
// returns an assignment under the real interpretation of every function
// symbol that satisfies all of s.pc and q.
func (r *Run) solve(s *State, q []*expr.Expr, rounds int) (smt.Result, *expr.Assign) {
	base := map[string]*big.Int{}
	if s.wit != nil {
		base = s.wit.Vals
	}
	var lemmas []*expr.Expr
	for k := 0; ; k++ {
		if r.Opt.Stop != nil && r.Opt.Stop.Load() {
			return smt.Unknown, nil
		}
		all := append(append([]*expr.Expr{}, q...), lemmas...)
		res, m := r.decide(all)
		if res != smt.Sat {
			return res, nil
		}
		vals := make(map[string]*big.Int, len(base)+len(m))
		for n, v := range base {
			vals[n] = v
		}
		for n, v := range m {
			vals[n] = v
		}
		a := r.C.NewAssign(vals)
		if allTrue(a, q) {
			if !allTrue(a, s.pc) {
				return smt.Unknown, nil
			}
			r.pool = append(r.pool, a)
			if len(r.pool) > 24 {
				r.pool = r.pool[1:]
			}
			return smt.Sat, a
		}
		if k >= rounds {
			return smt.Sat, nil
		}
		if k == 0 || k == 3 || k == 8 {
			if a := r.pinned(s, q, a); a != nil {
				return smt.Sat, a
			}
		}
		// pin every function application to its real value at this point
		added := false
		expr.Cone(q, func(e *expr.Expr) {
			if e.Op != expr.OpUF {
				return
			}
			var prem []*expr.Expr
			for _, x := range e.Args {
				prem = append(prem, r.C.BNot(r.C.Eq(x, r.C.BigConst(x.W, a.Big(x)))))
			}
			prem = append(prem, r.C.Eq(e, r.C.BigConst(e.W, a.Big(e))))
			l := r.C.BOr(prem...)
			if !l.IsTrue() {
				lemmas = append(lemmas, l)
				added = true
			}
		})
		if !added {
			return smt.Sat, nil
		}
	}
}

// pinned looks for an assignment that agrees with a on everything function
// symbols are applied to, so that their real values are known.
func (r *Run) pinned(s *State, q []*expr.Expr, a *expr.Assign) *expr.Assign {
	under := new(big.Int)
	all := append([]*expr.Expr{}, q...)
	var vars []*expr.Expr
	expr.Cone(q, func(e *expr.Expr) {
		switch e.Op {
		case expr.OpVar:
			vars = append(vars, e)
		case expr.OpUF:
			for _, x := range e.Args {
				under.Or(under, r.varset(x))
			}
			all = append(all, r.C.Eq(e, r.C.BigConst(e.W, a.Big(e))))
		}
	})
	free := false
	for _, v := range vars {
		if under.Bit(v.ID) == 0 {
			free = true
		} else if v.W == 0 {
			if c := a.Bool(v); c {
				all = append(all, v)
			} else {
				all = append(all, r.C.BNot(v))
			}
		} else {
			all = append(all, r.C.Eq(v, r.C.BigConst(v.W, a.Big(v))))
		}
	}
	if !free {
		return nil
	}
	res, m := r.decide(all)
	if res != smt.Sat {
		return nil
	}
	vals := make(map[string]*big.Int, len(a.Vals)+len(m))
	for n, v := range a.Vals {
		vals[n] = v
	}
	for n, v := range m {
		vals[n] = v
	}
	b := r.C.NewAssign(vals)
	if !allTrue(b, q) || !allTrue(b, s.pc) {
		return nil
	}
	r.pool = append(r.pool, b)
	if len(r.pool) > 24 {
		r.pool = r.pool[1:]
	}
	return b
}

func (r *Run) varset(e *expr.Expr) *big.Int {
	if v, ok := r.vsets[e.ID]; ok {
		return v
	}
	v := new(big.Int)
	if e.Op == expr.OpVar {
		v.SetBit(v, e.ID, 1)
	}
	for _, a := range e.Args {
		v.Or(v, r.varset(a))
	}
	r.vsets[e.ID] = v
	return v
}

// relevant returns cond and the path constraints sharing variables with it.
func (r *Run) relevant(pc []*expr.Expr, cond *expr.Expr) []*expr.Expr {
	vs := new(big.Int).Set(r.varset(cond))
	used := make([]bool, len(pc))
	out := []*expr.Expr{cond}
	for ch := true; ch; {
		ch = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			if new(big.Int).And(vs, r.varset(p)).Sign() != 0 {
				used[i] = true
				vs.Or(vs, r.varset(p))
				out = append(out, p)
				ch = true
			}
		}
	}
	return out
}

// enumerate case-splits s over the feasible values of e.
func (r *Run) enumerate(s *State, e *expr.Expr) ([]*State, bool) {
	var out []*State
	if e.W == 0 {
		t, f := r.split(s, e)
		if t != nil {
			t.setConc(e.ID, 1)
			out = append(out, t)
		}
		if f != nil {
			f.setConc(e.ID, 0)
			out = append(out, f)
		}
		return out, true
	}
	rest := s
	for n := 0; ; n++ {
		if n >= r.Opt.MaxSplit || r.expired() {
			return out, false
		}
		var v uint64
		if rest.wit != nil {
			v = rest.wit.U64(e)
		} else {
			res, a := r.solve(rest, append([]*expr.Expr{r.C.True}, rest.pc...), 10)
			if res == smt.Unsat {
				return out, true
			}
			if a == nil {
				return out, false
			}
			rest.wit = a
			v = a.U64(e)
		}
		eq := r.C.Eq(e, r.C.Const(e.W, v))
		t, f := r.split(rest, eq)
		if t != nil {
			t.setConc(e.ID, v)
			out = append(out, t)
		}
		if f == nil {
			return out, true
		}
		rest = f
	}
}

// ---------------------------------------------------------------- calls

func (r *Run) call(st *State, parent *Frame, fn *ssa.Function, args, binds []Value, panicIdx int) []Out {
	if st.depth > 3000 {
		unsup("call depth")
	}
	if len(fn.Blocks) == 0 {
		unsup("call of %s: no body", fn)
	}
	r.Stats.Funcs[fn.String()] = true
	info := r.E.info.get(fn)
	fr := &Frame{fn: fn, info: info, regs: make([]Value, info.n), parent: parent, panicIdx: panicIdx}
	if len(args) != len(fn.Params) {
		unsup("call of %s with %d arguments", fn, len(args))
	}
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.regs[len(fn.Params)+i] = binds[i]
	}
	d := st.depth
	st.depth++
	outs := r.exec(st, fr, fn.Blocks[0], 0, nil)
	var res []Out
	for _, o := range outs {
		if o.st != nil {
			o.st.depth = d
		}
		switch o.kind {
		case kPanic:
			if o.fr == nil || o.fr.fn != fn {
				o.fr = fr
			}
			res = append(res, r.unwind(o.st, o.fr, o.val)...)
		case kReach:
			panic("internal: reach at call level")
		default:
			res = append(res, o)
		}
	}
	if len(res) > 1 {
		res = r.mergeReturns(res, parent)
		n := 0
		for _, o := range res {
			if o.kind == kReturn {
				n++
			}
		}
		if n == 1 {
			for _, o := range res {
				if o.kind == kReturn {
					r.flatten(o.st)
				}
			}
		}
	}
	return res
}

// runDefers runs the deferred calls of fr; kReach outcomes continue.
func (r *Run) runDefers(st *State, fr *Frame, panicIdx int) []Out {
	if len(fr.defers) == 0 {
		return []Out{{kind: kReach, st: st, fr: fr}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
	var outs []Out
	var got []Out
	x := &xc{r: r, st: st, fr: fr, outs: &got}
	c := x.invokeValue(d.call, d.fn, d.bi, d.args, panicIdx)
	var next []mstate
	switch c.kind {
	case rNext:
		next = []mstate{{st: x.st}}
	case rMulti:
		next = c.multi
	case rSplit:
		unsup("case split in deferred intrinsic")
	}
	for _, o := range got {
		if o.kind == kPanic {
			s := o.st
			if panicIdx > 0 {
				s.panics = append([]panicRec{}, s.panics...)
				s.panics[panicIdx-1] = panicRec{Val: o.val}
				outs = append(outs, r.runDefers(s, fr.clone(), panicIdx)...)
			} else {
				outs = append(outs, r.unwind(s, fr.clone(), o.val)...)
			}
			continue
		}
		outs = append(outs, o)
	}
	for k, m := range next {
		f := fr
		if k < len(next)-1 {
			f = fr.clone()
		}
		outs = append(outs, r.runDefers(m.st, f, panicIdx)...)
	}
	return outs
}

func (r *Run) unwind(st *State, fr *Frame, val Value) (res []Out) {
	defer func() {
		if p := recover(); p != nil {
			if u, ok := p.(unsupported); ok {
				res = append(res, Out{kind: kIncomplete, st: st, msg: u.msg})
				return
			}
			panic(p)
		}
	}()
	st.panics = append(append([]panicRec{}, st.panics...), panicRec{Val: val})
	idx := len(st.panics)
	for _, o := range r.runDefers(st, fr, idx) {
		if o.kind != kReach {
			res = append(res, o)
			continue
		}
		s := o.st
		rec := s.panics[idx-1]
		s.panics = s.panics[: idx-1 : idx-1]
		if !rec.Recovered {
			res = append(res, Out{kind: kPanic, st: s, val: rec.Val, msg: o.fr.stack()})
			continue
		}
		if o.fr.fn.Recover != nil {
			for _, p := range r.exec(s, o.fr, o.fr.fn.Recover, 0, nil) {
				if p.kind == kPanic {
					p.fr = nil
				}
				res = append(res, p)
			}
			continue
		}
		var vals []Value
		rs := o.fr.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			vals = append(vals, r.zero(rs.At(i).Type()))
		}
		res = append(res, Out{kind: kReturn, st: s, vals: vals})
	}
	return res
}

// ---------------------------------------------------------------- operands

func (r *Run) val(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return r.constVal(v)
	case *ssa.Global:
		return Ptr{Obj: r.global(v)}
	case *ssa.Function:
		return &Closure{Fn: v}
	case *ssa.Builtin:
		return v
	}
	k, ok := fr.info.num[v]
	if !ok {
		unsup("operand %s", v)
	}
	return fr.regs[k]
}

func (r *Run) constVal(c *ssa.Const) Value {
	if v, ok := r.consts[c]; ok {
		return v
	}
	v := r.constVal1(c)
	r.consts[c] = v
	return v
}

func (r *Run) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return r.zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		unsup("constant of type %s", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return r.C.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return r.str(constant.StringVal(c.Value))
		}
		n, _ := constant.Int64Val(constant.ToInt(c.Value))
		return r.str(string(rune(n)))
	case b.Info()&types.IsInteger != 0:
		iv := constant.ToInt(c.Value)
		if n, ok := constant.Uint64Val(iv); ok {
			return r.C.Const(intWidth(b), n)
		}
		n, _ := constant.Int64Val(iv)
		return r.C.Const(intWidth(b), uint64(n))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return Float(f)
	case b.Kind() == types.UnsafePointer:
		return Ptr{}
	}
	unsup("constant %s", c)
	return nil
}

// ---------------------------------------------------------------- globals

func (r *Run) global(g *ssa.Global) int {
	if id, ok := r.globals[g]; ok {
		return id
	}
	if h := r.E.Globals[g.String()]; h != nil && h != g {
		id := r.global(h)
		r.globals[g] = id
		return id
	}
	pkg := g.Pkg
	for _, m := range sortedMembers(pkg) {
		if gg, ok := m.(*ssa.Global); ok {
			if h := r.E.Globals[gg.String()]; h != nil && h != gg {
				continue // found when it is used
			}
			if _, ok := r.globals[gg]; !ok {
				r.nextBas--
				t := gg.Type().Underlying().(*types.Pointer).Elem()
				r.base[r.nextBas] = &Obj{V: r.zero(t), T: t, Site: gg.String()}
				r.globals[gg] = r.nextBas
			}
		}
	}
	if _, ok := r.globals[g]; !ok { // not a package member (e.g. init$guard variants)
		r.nextBas--
		t := g.Type().Underlying().(*types.Pointer).Elem()
		r.base[r.nextBas] = &Obj{V: r.zero(t), T: t, Site: g.String()}
		r.globals[g] = r.nextBas
	}
	r.initPkg(pkg)
	return r.globals[g]
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var ns []string
	for n := range p.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	out := make([]ssa.Member, len(ns))
	for i, n := range ns {
		out[i] = p.Members[n]
	}
	return out
}

// initPkg runs a package's initialisation concretely, once, on first use.
func (r *Run) initPkg(p *ssa.Package) {
	if r.inited[p] {
		return
	}
	r.inited[p] = true
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	st := &State{top: newLayer(nil), wit: r.C.NewAssign(nil)}
	info := r.E.info.get(fn)
	fr := &Frame{fn: fn, info: info, regs: make([]Value, info.n)}
	r.initing++
	saved := r.Opt.MaxVisits
	r.Opt.MaxVisits = 1 << 20
	outs := r.exec(st, fr, fn.Blocks[0], 0, nil)
	r.Opt.MaxVisits = saved
	r.initing--
	ok := false
	var fin *State
	for _, o := range outs {
		if o.kind == kReturn && len(outs) == 1 {
			ok = true
		}
		if fin == nil {
			fin = o.st
		}
	}
	if fin == nil {
		fin = st
	}
	ch := changed(fin, nil)
	for id, o := range ch {
		r.base[id] = o
	}
	if !ok {
		msg := "initialisation of " + p.Pkg.Path() + " not executable"
		if len(outs) > 0 {
			msg += ": " + outs[0].msg
		}
		if r.debug {
			fmt.Fprintln(os.Stderr, "gosym:", msg)
		}
		for _, m := range p.Members {
			if g, isG := m.(*ssa.Global); isG {
				if id, have := r.globals[g]; have && ch[id] == nil {
					r.base[id] = &Obj{V: Poison{msg}, T: r.base[id].T, Site: g.String()}
				}
			}
		}
	}
}

// stepInit executes one instruction of a package initialiser; what cannot be
// executed leaves a poisoned value behind that makes its readers give up.
func (x *xc) stepInit(ins ssa.Instruction) (c res) {
	r := x.r
	if cl, ok := ins.(*ssa.Call); ok {
		if f := cl.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != nil && f.Pkg != x.fr.fn.Pkg && f.Synthetic != "" {
			return res{}
		}
	}
	if sto, ok := ins.(*ssa.Store); ok {
		if g, ok := sto.Addr.(*ssa.Global); ok && r.E.Globals[g.String()] != nil && r.E.Globals[g.String()] != g {
			return res{} // has a model
		}
	}
	if x.fr.fn.Name() != "init" {
		return x.step(ins)
	}
	nouts := len(*x.outs)
	defer func() {
		p := recover()
		bad := p != nil || c.kind != rNext || len(*x.outs) != nouts
		if !bad {
			return
		}
		if c.kind == rMulti && len(c.multi) == 1 && len(*x.outs) == nouts && p == nil {
			return
		}
		msg := fmt.Sprint(p)
		for _, o := range (*x.outs)[nouts:] {
			msg += o.msg
		}
		*x.outs = (*x.outs)[:nouts]
		if r.debug {
			fmt.Fprintf(os.Stderr, "gosym: %s: initialiser %s: %s\n", x.fr.fn, ins, msg)
		}
		c = res{}
		if v, ok := ins.(ssa.Value); ok {
			if tt, ok := v.Type().(*types.Tuple); ok {
				t := make(Tuple, tt.Len())
				for i := range t {
					t[i] = Poison{msg}
				}
				x.fr.regs[x.fr.info.num[v]] = t
			} else {
				x.fr.regs[x.fr.info.num[v]] = Poison{msg}
			}
			return
		}
		_ = r
	}()
	return x.step(ins)
}

// ---------------------------------------------------------------- entry

// Harness runs fn() from an empty heap.
func (r *Run) Harness(fn *ssa.Function) {
	st := &State{top: newLayer(nil), wit: r.C.NewAssign(map[string]*big.Int{})}
	var outs []Out
	func() {
		defer func() {
			if p := recover(); p != nil {
				u, ok := p.(unsupported)
				if !ok {
					panic(p)
				}
				r.Stats.Incomplete[u.msg]++
			}
		}()
		outs = r.call(st, nil, fn, nil, nil, 0)
	}()
	for _, o := range outs {
		switch o.kind {
		case kReturn:
			r.Stats.Paths++
			r.finish(o.st)
		case kPanic:
			r.Stats.Paths++
			r.report(o.st, r.C.True, "uncaught panic: "+r.showPanic(o.st, o.val)+o.msg)
		case kExit:
			r.Stats.Paths++
			r.report(o.st, r.C.True, "program exit escaped the harness")
		case kIncomplete:
			r.Stats.Paths++
			r.Stats.Incomplete[o.msg]++
			if o.st != nil {
				for _, l := range o.st.reach {
					r.Stats.Reached[l] = true
				}
			}
		}
	}
	r.Sol.Close()
}

func (r *Run) finish(st *State) {
	if st.wit == nil {
		res, a := r.solve(st, append([]*expr.Expr{r.C.True}, st.pc...), 10)
		if res != smt.Sat || a == nil {
			return
		}
		st.wit = a
	}
	for _, l := range st.reach {
		r.Stats.Reached[l] = true
	}
	r.addTrace(st, st.wit)
}

func (r *Run) addTrace(st *State, w *expr.Assign) {
	if len(r.Traces) >= 40 {
		return
	}
	t := Trace{Inputs: r.inputVals(w), Outs: map[string]string{}}
	for _, o := range st.outs {
		t.Outs[o.Name] = r.concretize(st, w, o.V)
	}
	r.Traces = append(r.Traces, t)
}

func (r *Run) inputVals(w *expr.Assign) map[string]string {
	m := map[string]string{}
	for _, in := range r.inputs {
		v := new(big.Int)
		n := 0
		for _, e := range in.Bits {
			wd := e.W
			if wd == 0 {
				wd = 8
			}
			v.Lsh(v, uint(wd))
			v.Or(v, w.Big(e))
			n += wd
		}
		m[in.Name] = fmt.Sprintf("%0*x", n/4, v)
		if n == 0 {
			m[in.Name] = ""
		}
	}
	return m
}

// concretize renders an output value under an assignment.
func (r *Run) concretize(st *State, w *expr.Assign, v Value) string {
	switch v := v.(type) {
	case *expr.Expr:
		if v.W == 0 {
			return fmt.Sprint(w.Bool(v))
		}
		return fmt.Sprintf("%0*x", (v.W+3)/4, w.Big(v))
	case Str:
		b := make([]byte, len(v.B))
		for i, e := range v.B {
			b[i] = byte(w.U64(e))
		}
		return fmt.Sprintf("%x", b)
	case Slice:
		if v.Obj == 0 {
			return ""
		}
		s := ""
		for _, e := range r.arr(st, v) {
			s += r.concretize(st, w, e)
		}
		return s
	}
	return fmt.Sprintf("%T", v)
}

func (r *Run) report(st *State, extra *expr.Expr, msg string) {
	for _, v := range r.Viol {
		if v.Msg == msg {
			return
		}
	}
	s := st
	if !extra.IsTrue() || s.wit == nil {
		q := append([]*expr.Expr{extra}, st.pc...)
		res, a := r.solve(&State{pc: nil, wit: nil}, q, 60)
		if res != smt.Sat || a == nil {
			if res != smt.Unsat {
				r.Unconf = append(r.Unconf, msg)
			}
			return
		}
		r.add(Violation{Msg: msg, Inputs: r.inputVals(a)})
		return
	}
	r.add(Violation{Msg: msg, Inputs: r.inputVals(s.wit)})
}

func (r *Run) add(v Violation) {
	r.Viol = append(r.Viol, v)
	if r.Opt.Found != nil {
		r.Opt.Found(v)
	}
}

var _ = token.ADD
