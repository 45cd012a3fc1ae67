// Package smt prints terms as SMT-LIB 2 and asks solver processes.
package smt

import (
	"bufio"
	"context"
	"fmt"
	"gosym/expr"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Stats struct {
	Queries, Sat, Unsat, Unknown int
	Portfolio                    int
	Time                         time.Duration
}

// Solver is one incremental solver process plus an on-demand one-shot portfolio.
type Solver struct {
	ctx    *expr.Ctx
	bin    []string
	cmd    *exec.Cmd
	in     *bufio.Writer
	inPipe io.WriteCloser
	out    *bufio.Reader
	pr     *printer
	Stats  Stats
	Log    io.Writer
	dead   bool
}

func New(ctx *expr.Ctx) *Solver {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	return &Solver{ctx: ctx, bin: []string{bin, "-in"}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	ip, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.inPipe = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.pr = newPrinter()
	s.dead = false
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) {
	s.in.WriteString(t)
	if s.Log != nil {
		io.WriteString(s.Log, t)
	}
}

var slow = os.Getenv("GOSYM_SLOW") != ""

// Check asks whether the conjunction is satisfiable.
func (s *Solver) Check(conj []*expr.Expr, timeout time.Duration) (Result, map[string]*big.Int) {
	t0 := time.Now()
	r, m := s.check(conj, timeout)
	s.Stats.Time += time.Since(t0)
	if slow {
		pc := make([]uintptr, 12)
		fs := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
		w := ""
		for {
			f, more := fs.Next()
			w += fmt.Sprintf(" %s:%d", f.Function[strings.LastIndex(f.Function, ".")+1:], f.Line)
			if !more {
				break
			}
		}
		fmt.Fprintf(os.Stderr, "query %v %.2fs%s\n", r, time.Since(t0).Seconds(), w)
	}
	s.Stats.Queries++
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return r, m
}

func (s *Solver) check(conj []*expr.Expr, timeout time.Duration) (Result, map[string]*big.Int) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	var b strings.Builder
	s.pr.define(&b, conj)
	vars := varsOf(conj)
	fmt.Fprintf(&b, "(push 1)\n(set-option :timeout %d)\n", timeout.Milliseconds())
	for _, c := range conj {
		fmt.Fprintf(&b, "(assert %s)\n", s.pr.ref(c))
	}
	b.WriteString("(check-sat)\n(echo \"@1\")\n")
	s.send(b.String())
	s.in.Flush()
	timer := time.AfterFunc(timeout+3*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	ans, ok := s.until("@1")
	if !ok {
		s.cmd.Wait()
		s.cmd = nil
		return Unknown, nil
	}
	res := Unknown
	for _, l := range ans {
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", l)
			res = Unknown
			break
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	var model map[string]*big.Int
	if res == Sat {
		model = map[string]*big.Int{}
		if len(vars) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, v := range vars {
				g.WriteString(" " + quote(v.Name))
			}
			g.WriteString("))\n(echo \"@2\")\n")
			s.send(g.String())
			s.in.Flush()
			ans, ok := s.until("@2")
			if !ok {
				s.cmd.Wait()
				s.cmd = nil
				return Unknown, nil
			}
			parseValues(strings.Join(ans, " "), model)
		}
	}
	s.send("(pop 1)\n")
	return res, model
}

func (s *Solver) until(mark string) ([]string, bool) {
	var out []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return out, false
		}
		l = strings.TrimSpace(l)
		if l == mark {
			return out, true
		}
		if l != "" {
			out = append(out, l)
		}
	}
}

func varsOf(conj []*expr.Expr) []*expr.Expr {
	var vs []*expr.Expr
	expr.Cone(conj, func(e *expr.Expr) {
		if e.Op == expr.OpVar {
			vs = append(vs, e)
		}
	})
	return vs
}

// Script prints a self-contained query.
func Script(conj []*expr.Expr) string {
	pr := newPrinter()
	var b strings.Builder
	b.WriteString("(set-logic QF_UFBV)\n")
	pr.define(&b, conj)
	for _, c := range conj {
		fmt.Fprintf(&b, "(assert %s)\n", pr.ref(c))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// Portfolio runs the query on every installed solver and takes the first answer.
func (s *Solver) Portfolio(conj []*expr.Expr, timeout time.Duration) (Result, map[string]*big.Int) {
	return s.fresh(conj, timeout, 4)
}

// Single runs the query in one fresh solver.
func (s *Solver) Single(conj []*expr.Expr, timeout time.Duration) (Result, map[string]*big.Int) {
	return s.fresh(conj, timeout, 1)
}

func (s *Solver) fresh(conj []*expr.Expr, timeout time.Duration, count int) (Result, map[string]*big.Int) {
	t0 := time.Now()
	s.Stats.Queries++
	s.Stats.Portfolio++
	defer func() {
		s.Stats.Time += time.Since(t0)
		if slow {
			fmt.Fprintf(os.Stderr, "portfolio: %.2fs\n", time.Since(t0).Seconds())
		}
	}()
	text := Script(conj)
	vars := varsOf(conj)
	if len(vars) > 0 {
		text += "(get-value ("
		for _, v := range vars {
			text += " " + quote(v.Name)
		}
		text += "))\n"
	}
	dir, err := os.MkdirTemp("", "smtq")
	if err != nil {
		s.Stats.Unknown++
		return Unknown, nil
	}
	defer func() {
		if d := os.Getenv("GOSYM_KEEP"); d != "" && time.Since(t0) > 2*time.Second {
			os.Rename(filepath.Join(dir, "q.smt2"), filepath.Join(d, filepath.Base(dir)+".smt2"))
		}
		os.RemoveAll(dir)
	}()
	f := filepath.Join(dir, "q.smt2")
	os.WriteFile(f, []byte("(set-option :produce-models true)\n"+text), 0o600)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r Result
		m map[string]*big.Int
	}
	sol := [][]string{{"z3-new", f}, {"z3", f}, {"cvc5", "--produce-models", f}, {"z3-new", "sat.euf=true", "tactic.default_tactic=smt", f}}
	sol = sol[:count]
	ch := make(chan ans, len(sol))
	n := 0
	for i, a := range sol {
		if _, err := exec.LookPath(a[0]); err != nil {
			continue
		}
		n++
		wait := 15 * time.Second // the first one usually answers soonest
		if i == 0 {
			wait = 0
		}
		go func(a []string) {
			select {
			case <-time.After(wait):
			case <-ctx.Done():
				ch <- ans{}
				return
			}
			c := exec.CommandContext(ctx, a[0], a[1:]...)
			c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			o, _ := c.Output()
			t := strings.TrimSpace(string(o))
			first, rest, _ := strings.Cut(t, "\n")
			switch strings.TrimSpace(first) {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				m := map[string]*big.Int{}
				parseValues(rest, m)
				ch <- ans{Sat, m}
			default:
				ch <- ans{}
			}
		}(a)
	}
	for ; n > 0; n-- {
		a := <-ch
		if a.r != Unknown {
			if a.r == Sat {
				s.Stats.Sat++
			} else {
				s.Stats.Unsat++
			}
			return a.r, a.m
		}
	}
	s.Stats.Unknown++
	return Unknown, nil
}

// ---------------------------------------------------------------- printing

type printer struct {
	done map[int]bool
	ufs  map[string]bool
	apps map[int]bool
}

func newPrinter() *printer {
	return &printer{done: map[int]bool{}, ufs: map[string]bool{}, apps: map[int]bool{}}
}

func quote(n string) string { return "|" + n + "|" }

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func konst(w int, v *big.Int) string {
	if w%4 == 0 {
		t := v.Text(16)
		return "#x" + strings.Repeat("0", w/4-len(t)) + t
	}
	t := v.Text(2)
	return "#b" + strings.Repeat("0", w-len(t)) + t
}

func (p *printer) ref(e *expr.Expr) string {
	if e.Op == expr.OpConst {
		if e.W == 0 {
			if e.C == 1 {
				return "true"
			}
			return "false"
		}
		return konst(e.W, e.ConstVal())
	}
	if e.Op == expr.OpVar {
		return quote(e.Name)
	}
	return fmt.Sprintf("t%d", e.ID)
}

// inverse pairs: name ending in E/D by convention of the stubs.
func inverseName(n string) string {
	if strings.HasSuffix(n, "_E") {
		return n[:len(n)-2] + "_D"
	}
	if strings.HasSuffix(n, "_D") {
		return n[:len(n)-2] + "_E"
	}
	return ""
}

func (p *printer) define(b *strings.Builder, roots []*expr.Expr) {
	var newApps []*expr.Expr
	expr.Cone(roots, func(e *expr.Expr) {
		if e.Op == expr.OpConst || p.done[e.ID] {
			return
		}
		p.done[e.ID] = true
		if e.Op == expr.OpVar {
			fmt.Fprintf(b, "(declare-fun %s () %s)\n", quote(e.Name), sortOf(e.W))
			return
		}
		if e.Op == expr.OpUF {
			p.declUF(b, e.Name, e)
			newApps = append(newApps, e)
		}
		fmt.Fprintf(b, "(define-fun t%d () %s %s)\n", e.ID, sortOf(e.W), p.body(e))
	})
	for _, e := range newApps {
		if inv := inverseName(e.Name); inv != "" && len(e.Args) == 2 {
			p.declUF(b, inv, e)
			fmt.Fprintf(b, "(assert (= (|%s| %s t%d) %s))\n", inv, p.ref(e.Args[0]), e.ID, p.ref(e.Args[1]))
		}
	}
}

func (p *printer) declUF(b *strings.Builder, name string, e *expr.Expr) {
	if p.ufs[name] {
		return
	}
	p.ufs[name] = true
	fmt.Fprintf(b, "(declare-fun |%s| (", name)
	for i, a := range e.Args {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(sortOf(a.W))
	}
	fmt.Fprintf(b, ") %s)\n", sortOf(e.W))
}

func (p *printer) body(e *expr.Expr) string {
	var b strings.Builder
	app := func(op string) string {
		b.WriteString("(" + op)
		for _, a := range e.Args {
			b.WriteString(" " + p.ref(a))
		}
		b.WriteString(")")
		return b.String()
	}
	switch e.Op {
	case expr.OpUF:
		return app("|" + e.Name + "|")
	case expr.OpConcat:
		// binary for solvers that want it
		s := p.ref(e.Args[0])
		for _, a := range e.Args[1:] {
			s = "(concat " + s + " " + p.ref(a) + ")"
		}
		return s
	case expr.OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(e.C)+e.W-1, e.C, p.ref(e.Args[0]))
	case expr.OpAnd, expr.OpOr, expr.OpXor, expr.OpAdd, expr.OpMul:
		op := map[expr.Op]string{expr.OpAnd: "bvand", expr.OpOr: "bvor", expr.OpXor: "bvxor", expr.OpAdd: "bvadd", expr.OpMul: "bvmul"}[e.Op]
		s := p.ref(e.Args[0])
		for _, a := range e.Args[1:] {
			s = "(" + op + " " + s + " " + p.ref(a) + ")"
		}
		return s
	case expr.OpUDiv:
		return app("bvudiv")
	case expr.OpURem:
		return app("bvurem")
	case expr.OpSDiv:
		return app("bvsdiv")
	case expr.OpSRem:
		return app("bvsrem")
	case expr.OpShl:
		return app("bvshl")
	case expr.OpLshr:
		return app("bvlshr")
	case expr.OpAshr:
		return app("bvashr")
	case expr.OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.W-e.Args[0].W, p.ref(e.Args[0]))
	case expr.OpTab:
		return p.table(e)
	case expr.OpIte:
		return app("ite")
	case expr.OpUlt:
		return app("bvult")
	case expr.OpSlt:
		return app("bvslt")
	case expr.OpEq:
		return app("=")
	case expr.OpBNot:
		return app("not")
	case expr.OpBAnd:
		return app("and")
	case expr.OpBOr:
		return app("or")
	}
	panic("smt: op")
}

// table prints a look-up table as a multiplexer tree with shared equal halves.
func (p *printer) table(e *expr.Expr) string {
	idx := p.ref(e.Args[0])
	var lets []string
	names := map[string]string{}
	var rec func(t []uint64, bit int) string
	rec = func(t []uint64, bit int) string {
		same := true
		for _, v := range t {
			if v != t[0] {
				same = false
				break
			}
		}
		if same {
			return konst(e.W, new(big.Int).SetUint64(t[0]))
		}
		key := fmt.Sprint(t)
		if n, ok := names[key]; ok {
			return n
		}
		h := len(t) / 2
		l := rec(t[:h], bit-1)
		r := rec(t[h:], bit-1)
		n := l
		if l != r {
			n = fmt.Sprintf("n%d_%d", e.ID, len(lets))
			lets = append(lets, fmt.Sprintf("(let ((%s (ite (= ((_ extract %d %d) %s) #b1) %s %s))) ", n, bit, bit, idx, r, l))
		}
		names[key] = n
		return n
	}
	root := rec(e.Tab, e.Args[0].W-1)
	return strings.Join(lets, "") + root + strings.Repeat(")", len(lets))
}

func parseValues(t string, m map[string]*big.Int) {
	// ((|a| #x00) (b #b1) (p true))
	i := 0
	for i < len(t) {
		c := t[i]
		if c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			i++
			continue
		}
		var name string
		if c == '|' {
			j := strings.IndexByte(t[i+1:], '|')
			if j < 0 {
				return
			}
			name = t[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for j < len(t) && !strings.ContainsRune(" ()\n\t\r", rune(t[j])) {
				j++
			}
			name = t[i:j]
			i = j
		}
		for i < len(t) && strings.ContainsRune(" \n\t\r", rune(t[i])) {
			i++
		}
		j := i
		for j < len(t) && !strings.ContainsRune(" ()\n\t\r", rune(t[j])) {
			j++
		}
		val := t[i:j]
		i = j
		v := new(big.Int)
		switch {
		case val == "true":
			v.SetInt64(1)
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			v.SetString(val[2:], 16)
		case strings.HasPrefix(val, "#b"):
			v.SetString(val[2:], 2)
		default:
			continue
		}
		m[name] = v
	}
}

// SortedVars is a helper for reports.
func SortedVars(m map[string]*big.Int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
