package exec

import (
	"fmt"
	"gosym/expr"
	"sort"
	"strconv"
	"strings"
)

// Concurrency is sequentialised: threads run one inside the other. At every
// synchronisation operation a symbolic variable decides whether the next
// thread runs (to completion) at this point; threads that were never switched
// to run at the end, and the starting order is symbolic too. Happens-before is
// tracked with vector clocks, so unsynchronised conflicting accesses are
// reported in whatever schedule they occur.

type access struct {
	path  string
	write bool
	clk   int
	site  string
}

type lockState struct {
	writer  int // thread + 1
	readers []int
	vc      []int // clock released by writers
	rvc     []int // clock released by readers, seen by writers only
}

type parState struct {
	cur    int // running thread, 0-based
	next   int // next thread to start
	thr    []*Closure
	vc     [][]int
	acc    map[string]access // object|path|thread|rw -> last access
	skip   bool
	points int
	races  []string
}

func (p *parState) clone() *parState {
	n := *p
	n.vc = make([][]int, len(p.vc))
	for i := range n.vc {
		n.vc[i] = append([]int{}, p.vc[i]...)
	}
	n.acc = make(map[string]access, len(p.acc))
	for k, v := range p.acc {
		n.acc[k] = v
	}
	n.races = append([]string{}, p.races...)
	return &n
}

func (p *parState) same(q *parState) bool {
	return p.cur == q.cur && p.next == q.next && p.skip == q.skip && p.points == q.points && fmt.Sprint(p.vc, p.acc, p.races) == fmt.Sprint(q.vc, q.acc, q.races)
}

func pathStr(p []Step) string {
	var b strings.Builder
	for _, s := range p {
		if s.Sym != nil {
			break
		}
		b.WriteByte('.')
		b.WriteString(strconv.Itoa(s.I))
	}
	return b.String()
}

func overlap(a, b string) bool {
	return a == b || strings.HasPrefix(a, b+".") || strings.HasPrefix(b, a+".")
}

func (x *xc) preempt(obj int, write bool) (res, bool) { return x.touch(Ptr{Obj: obj}, write) }

// touch records a memory access for race detection.
func (x *xc) touch(p Ptr, write bool) (res, bool) {
	ps := x.st.par
	if ps == nil {
		return res{}, false
	}
	if p.Obj < 0 && !write && !x.r.written[p.Obj] {
		return res{}, false
	}
	if write {
		x.r.written[p.Obj] = true
	}
	path := pathStr(p.Path)
	id := strconv.Itoa(p.Obj)
	for k, a := range ps.acc {
		if !strings.HasPrefix(k, id+"|") || !(write || a.write) {
			continue
		}
		parts := strings.Split(k, "|")
		t, _ := strconv.Atoi(parts[1])
		if t == ps.cur || !overlap(a.path, path) {
			continue
		}
		if a.clk > ps.vc[ps.cur][t] {
			s := []string{a.site, x.site()}
			sort.Strings(s)
			msg := "data race: unsynchronised accesses at " + s[0] + " and " + s[1]
			dup := false
			for _, m := range ps.races {
				dup = dup || m == msg
			}
			if !dup {
				x.st.par = ps.clone()
				ps = x.st.par
				ps.races = append(ps.races, msg)
				x.r.report(x.st, x.r.C.True, "data race between concurrent operations")
				x.r.note("race", msg)
			}
		}
	}
	key := id + "|" + strconv.Itoa(ps.cur) + "|" + path + "|"
	if write {
		key += "w"
	} else {
		key += "r"
	}
	clk := ps.vc[ps.cur][ps.cur]
	if old, ok := ps.acc[key]; ok && old.clk == clk {
		return res{}, false
	}
	x.st.par = ps.clone()
	x.st.par.acc[key] = access{path: path, write: write, clk: clk, site: x.site()}
	return res{}, false
}

func (x *xc) site() string {
	f := x.fr.fn
	if x.fr.at != nil && x.fr.at.Pos().IsValid() {
		p := f.Prog.Fset.Position(x.fr.at.Pos())
		n := p.Filename
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return fmt.Sprintf("%s (%s:%d)", f.Name(), n, p.Line)
	}
	return f.Name()
}

// yieldPoint lets the schedule start the next thread here. When it reports
// true the instruction must be retried in the returned states.
func (x *xc) yieldPoint() (res, bool) {
	ps := x.st.par
	if ps == nil || ps.next >= len(ps.thr) {
		return res{}, false
	}
	if ps.skip {
		x.st.par = ps.clone()
		x.st.par.skip = false
		return res{}, false
	}
	r := x.r
	ps = ps.clone()
	x.st.par = ps
	ps.points++
	sw := r.input(fmt.Sprintf("switch%d", ps.next), 8)
	cond := r.C.Eq(sw, r.C.Const(8, uint64(ps.points)))
	t, f := r.split(x.st, cond)
	if t == nil {
		x.st = f
		return res{}, false
	}
	var ms []mstate
	for _, o := range r.startThread(x, t) {
		if o.kind != kReturn {
			*x.outs = append(*x.outs, o)
			continue
		}
		o.st.par = o.st.par.clone()
		o.st.par.skip = true
		ms = append(ms, mstate{st: o.st})
	}
	if f != nil {
		f.par = f.par.clone()
		f.par.skip = true
		if f.par.next >= len(f.par.thr) {
			f.par.skip = false
		}
		ms = append(ms, mstate{st: f})
	}
	for _, m := range ms {
		if m.st.par.next >= len(m.st.par.thr) {
			m.st.par.skip = false
		}
	}
	return res{kind: rRetry, multi: ms}, true
}

// startThread runs the next thread to completion in st, nested in x's frame.
func (r *Run) startThread(x *xc, st *State) []Out {
	ps := st.par.clone()
	st.par = ps
	me := ps.cur
	t := ps.next
	ps.cur = t
	ps.next++
	ps.points = 0
	cl := ps.thr[t]
	outs := r.call(st, x.fr, cl.Fn, nil, cl.Binds, 0)
	for i := range outs {
		o := &outs[i]
		if o.st == nil || o.st.par == nil {
			continue
		}
		o.st.par = o.st.par.clone()
		o.st.par.cur = me
		if o.kind == kPanic {
			r.report(o.st, r.C.True, "panic in a concurrent operation: "+r.showPanic(o.st, o.val))
			o.kind = kDead
		}
	}
	var out []Out
	for _, o := range outs {
		if o.kind == kDead {
			continue
		}
		for k, l := range o.st.locks {
			if l.writer == t+1 {
				r.report(o.st, r.C.True, "operation returns with a lock held")
				r.note("lock", k)
			}
		}
		out = append(out, o)
	}
	return out
}

func (s *State) setLock(k string, l lockState) {
	n := make(map[string]lockState, len(s.locks)+1)
	for a, b := range s.locks {
		n[a] = b
	}
	if l.writer == 0 && len(l.readers) == 0 && s.par == nil {
		delete(n, k)
	} else {
		n[k] = l
	}
	s.locks = n
}

func (s *State) thread() int {
	if s.par == nil {
		return 0
	}
	return s.par.cur
}

func joinVC(a, b []int) []int {
	n := append([]int{}, a...)
	for i, v := range b {
		if i >= len(n) {
			n = append(n, v)
		} else if v > n[i] {
			n[i] = v
		}
	}
	return n
}

func (x *xc) acquireVC(vc []int) {
	if x.st.par == nil {
		return
	}
	ps := x.st.par.clone()
	ps.vc[ps.cur] = joinVC(ps.vc[ps.cur], vc)
	x.st.par = ps
}

func (x *xc) releaseVC(vc []int) []int {
	if x.st.par == nil {
		return vc
	}
	ps := x.st.par.clone()
	n := joinVC(vc, ps.vc[ps.cur])
	ps.vc[ps.cur][ps.cur]++
	x.st.par = ps
	return n
}

func lockKey(p Ptr) string { return strconv.Itoa(p.Obj) + pathStr(p.Path) }

func without(l []int, t int) ([]int, bool) {
	for i, v := range l {
		if v == t {
			return append(append([]int{}, l[:i]...), l[i+1:]...), true
		}
	}
	return l, false
}

func (x *xc) lockOp(p Ptr, op string) res {
	if p.Obj == 0 {
		return x.nilDeref()
	}
	if op == "Lock" || op == "RLock" || strings.HasPrefix(op, "Try") {
		if c, stop := x.yieldPoint(); stop {
			return c
		}
	}
	k := lockKey(p)
	l := x.st.locks[k]
	me := x.st.thread()
	mine := l.writer == me+1
	_, reading := without(l.readers, me)
	free := l.writer == 0 && len(l.readers) == 0
	switch op {
	case "Lock", "TryLock":
		if !free {
			if op == "TryLock" {
				return x.done(x.r.C.False)
			}
			if mine || reading || x.st.par == nil || x.ownerFinished(l) {
				x.r.report(x.st, x.r.C.True, "deadlock: a lock is never released")
				x.r.note("deadlock", x.site())
			}
			return res{kind: rDead} // blocked: another schedule covers it
		}
		l.writer = me + 1
		x.st.setLock(k, l)
		x.acquireVC(l.vc)
		x.acquireVC(l.rvc)
	case "RLock", "TryRLock":
		if l.writer != 0 {
			if op == "TryRLock" {
				return x.done(x.r.C.False)
			}
			if mine || x.st.par == nil || x.ownerFinished(l) {
				x.r.report(x.st, x.r.C.True, "deadlock: a lock is never released")
				x.r.note("deadlock", x.site())
			}
			return res{kind: rDead}
		}
		l.readers = append(append([]int{}, l.readers...), me)
		x.st.setLock(k, l)
		x.acquireVC(l.vc)
	case "Unlock":
		if !mine {
			if l.writer == 0 {
				x.fatal("fatal error: sync: unlock of unlocked mutex")
				return res{kind: rDead}
			}
		}
		l.writer = 0
		l.vc = x.releaseVC(l.vc)
		x.st.setLock(k, l)
	case "RUnlock":
		n, ok := without(l.readers, me)
		if !ok {
			x.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
			return res{kind: rDead}
		}
		l.readers = n
		l.rvc = x.releaseVC(l.rvc)
		x.st.setLock(k, l)
	}
	if strings.HasPrefix(op, "Try") {
		return x.done(x.r.C.True)
	}
	return x.done(nil)
}

func (x *xc) fatal(msg string) {
	x.r.report(x.st, x.r.C.True, msg)
}

// ownerFinished: threads above the current one in the nesting are suspended,
// all others have finished and will never release anything.
func (x *xc) ownerFinished(l lockState) bool {
	ps := x.st.par
	for _, t := range append([]int{l.writer - 1}, l.readers...) {
		if t >= 0 && t > ps.cur {
			return true
		}
	}
	return false
}

// runPar implements sym.Par.
func (x *xc) runPar(thr []*Closure) res {
	r := x.r
	if x.st.par != nil {
		unsup("nested Par")
	}
	if len(thr) == 0 {
		return x.done(nil)
	}
	// the order in which the threads are started is symbolic
	perms := permutations(len(thr))
	var starts []mstate
	rest := x.st
	for k, p := range perms {
		t := rest
		if k < len(perms)-1 {
			t, rest = r.split(rest, r.C.Eq(r.input("order", 8), r.C.Const(8, uint64(k))))
		}
		if t != nil {
			var ord []*Closure
			for _, i := range p {
				ord = append(ord, thr[i])
			}
			starts = append(starts, x.runOrder(t, ord)...)
		}
		if rest == nil {
			break
		}
	}
	if len(starts) == 0 {
		return res{kind: rDead}
	}
	return res{kind: rMulti, multi: starts}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := len(p); i >= 0; i-- {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// runOrder runs the threads, started in the order given, from st.
func (x *xc) runOrder(st *State, thr []*Closure) []mstate {
	r := x.r
	n := len(thr)
	ps := &parState{thr: thr, acc: map[string]access{}}
	for i := 0; i < n; i++ {
		v := make([]int, n)
		v[i] = 1
		ps.vc = append(ps.vc, v)
	}
	st.par = ps
	st.locks = nil
	// thread 0 first, the rest whenever the schedule says, at the latest now
	type item struct{ st *State }
	work := []item{{st}}
	first := true
	var fin []mstate
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if !first && it.st.par.next >= n {
			fin = append(fin, mstate{st: it.st})
			continue
		}
		if first {
			first = false
		} else {
			p := it.st.par.clone()
			p.skip = false
			it.st.par = p
		}
		y := &xc{r: r, st: it.st, fr: x.fr, outs: x.outs}
		for _, o := range r.startThread(y, it.st) {
			if o.kind == kReturn {
				work = append(work, item{o.st})
				continue
			}
			*x.outs = append(*x.outs, o)
		}
	}
	for i := range fin {
		fin[i].st.par = nil
		fin[i].st.locks = nil
	}
	return fin
}

// input declares (or finds) a named symbolic input of w bits.
func (r *Run) input(name string, w int) *expr.Expr {
	v := r.C.Var(name, w)
	if !r.inputBy[name] {
		r.inputBy[name] = true
		r.inputs = append(r.inputs, inputVar{Name: name, Bits: []*expr.Expr{v}})
	}
	return v
}

func (r *Run) note(kind, msg string) {
	k := kind + ": " + msg
	if r.Notes == nil {
		r.Notes = map[string]int{}
	}
	r.Notes[k]++
}
