// Package sym is the interface between harnesses and the symbolic executor.
// The executor intercepts every function here; this implementation is what
// runs when a harness is replayed natively on concrete inputs.
package sym

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"sync"
	"time"
)

type state struct {
	param   int
	in      map[string][]byte
	rnd     int
	Fails   []string
	Reached map[string]bool
	Outs    [][2]string
	mu      sync.Mutex
}

var cur *state

type stop struct{ why string }

// Result of a native run.
type Result struct {
	Fails   []string          `json:"fails"`
	Reached []string          `json:"reached"`
	Outs    map[string]string `json:"outs"`
	Panic   string            `json:"panic"`
	Skipped bool              `json:"skipped"`
}

// Replay runs f natively with the given inputs.
func Replay(f func(), param int, in map[string]string) (r Result) {
	cur = &state{param: param, in: map[string][]byte{}, Reached: map[string]bool{}}
	for k, v := range in {
		b, _ := hex.DecodeString(v)
		cur.in[k] = b
	}
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(stop); ok {
				r.Skipped = s.why == "assume"
			} else {
				r.Panic = fmt.Sprint(p)
				buf := make([]byte, 4096)
				r.Panic += "\n" + string(buf[:runtime.Stack(buf, false)])
			}
		}
		r.Fails = cur.Fails
		for k := range cur.Reached {
			r.Reached = append(r.Reached, k)
		}
		sort.Strings(r.Reached)
		r.Outs = map[string]string{}
		for _, o := range cur.Outs {
			r.Outs[o[0]] = o[1]
		}
	}()
	f()
	return
}

// Symbolic is true under the executor and false natively.
func Symbolic() bool { return false }

// Param is the job parameter of the harness.
func Param() int { return cur.param }

// Bytes is a symbolic byte string of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	copy(b, cur.in[name])
	return b
}

// Str is a symbolic string of length n.
func Str(name string, n int) string { return string(Bytes(name, n)) }

func Byte(name string) byte  { return Bytes(name, 1)[0] }
func U16(name string) uint16 { return binary.BigEndian.Uint16(Bytes(name, 2)) }
func U32(name string) uint32 { return binary.BigEndian.Uint32(Bytes(name, 4)) }
func U64(name string) uint64 { return binary.BigEndian.Uint64(Bytes(name, 8)) }
func Bool(name string) bool  { return Bytes(name, 1)[0]&1 == 1 }
func Int(name string, lo, hi int) int {
	v := int(U32(name))
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// Assume discards paths on which c does not hold.
func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

// Dead ends the path.
func Dead() { panic(stop{"dead"}) }

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		cur.mu.Lock()
		cur.Fails = append(cur.Fails, msg)
		cur.mu.Unlock()
	}
}

// Reach records that a label was reached.
func Reach(label string) {
	cur.mu.Lock()
	cur.Reached[label] = true
	cur.mu.Unlock()
}

// Out records an observable output, compared between executor and native runs.
func Out(name string, v interface{}) {
	s := ""
	switch v := v.(type) {
	case []byte:
		s = hex.EncodeToString(v)
	case string:
		s = hex.EncodeToString([]byte(v))
	case bool:
		s = fmt.Sprint(v)
	case byte:
		s = fmt.Sprintf("%02x", v)
	case uint32:
		s = fmt.Sprintf("%08x", v)
	case int:
		s = fmt.Sprintf("%016x", uint64(v))
	default:
		s = fmt.Sprintf("%T", v)
	}
	cur.Outs = append(cur.Outs, [2]string{name, s})
}

// Conc makes the executor case-split on n.
func Conc(n int) int { return n }

// Fork makes the executor case-split on b.
func Fork(b bool) bool { return b }

func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }

// And and Or build one condition without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return Or(!a, b) }

func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

func IteU32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}

// UF applies a cryptographic primitive; only models use it.
func UF(name string, n int, args ...[]byte) []byte { panic("sym.UF outside the executor") }

// Fresh returns n random bytes chosen by the environment.
func Fresh(n int) []byte {
	cur.mu.Lock()
	cur.rnd++
	k := fmt.Sprintf("rnd%d_%d", cur.rnd, n)
	cur.mu.Unlock()
	return Bytes(k, n)
}

// Rewind returns the position in the environment's randomness and, for n >= 0,
// goes back to an earlier one, so that a call can be repeated exactly.
func Rewind(n int) int {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	old := cur.rnd
	if n >= 0 {
		cur.rnd = n
	}
	return old
}

// RandReader replays recorded randomness.
type RandReader struct{}

func (RandReader) Read(p []byte) (int, error) {
	copy(p, Fresh(len(p)))
	return len(p), nil
}

// Unsupported stops the executor on this path: reduced coverage, no verdict.
func Unsupported(msg string) { panic("unsupported: " + msg) }

func Exit(code int) { panic(fmt.Sprintf("sym.Exit(%d)", code)) }

// CatchExit runs f and returns the exit code it ended with, -1 if it returned.
func CatchExit(f func()) int { f(); return -1 }

// Par runs the functions concurrently.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	var ready sync.WaitGroup
	ready.Add(len(fs))
	start := make(chan struct{})
	var pmu sync.Mutex
	var pv interface{}
	for _, f := range fs {
		wg.Add(1)
		f := f
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					pmu.Lock()
					pv = p
					pmu.Unlock()
				}
			}()
			ready.Done()
			<-start
			f()
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
	if pv != nil {
		panic(pv)
	}
}

// Yield is a scheduling point for replays of concurrent harnesses.
func Yield() {
	if n := rand.Intn(4); n > 0 {
		time.Sleep(time.Duration(rand.Intn(60)) * time.Microsecond)
	} else {
		runtime.Gosched()
	}
}

// CLI runs the command line tool and returns what it prints to standard output
// and its exit status.
func CLI(args ...string) (string, int) {
	cmd := exec.Command(os.Getenv("DUKPTCLI"), args...)
	var out bytes.Buffer
	cmd.Stdout = &out
	err := cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	return out.String(), cmd.ProcessState.ExitCode()
}

// CallMain calls the main function of a program of the repository.
func CallMain(pkg string) { panic("only available under the executor") }
