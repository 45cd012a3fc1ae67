package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gexec "gosym/exec"
)

type job struct {
	h     *harness
	param int
	run   *gexec.Run
	wall  time.Duration
	err   string
	done  atomic.Bool
}

type request struct {
	Harness string            `json:"harness"`
	Param   int               `json:"param"`
	Inputs  map[string]string `json:"inputs"`
	Repeat  int               `json:"repeat,omitempty"`
}

type result struct {
	Fails   []string          `json:"fails"`
	Reached []string          `json:"reached"`
	Outs    map[string]string `json:"outs"`
	Panic   string            `json:"panic"`
	Skipped bool              `json:"skipped"`
}

type replayDoc struct {
	Property string `json:"property"`
	request
	Message string `json:"message"`
	Native  result `json:"native_result"`
	Stress  bool   `json:"stress,omitempty"`
	How     string `json:"how"`
}

func (w *world) check(id string) int {
	start := time.Now()
	defer w.cleanup()
	var jobs []*job
	sel, _ := ranges(*params)
	inSel := map[int]bool{}
	for _, p := range sel {
		inSel[p] = true
	}
	for _, h := range w.harnesses {
		if *prop != "" && h.Prop != id {
			continue
		}
		if *only != "" && h.Name != *only {
			continue
		}
		ps := h.Quick
		if *tier == "thorough" {
			ps = h.Thor
		}
		if *params != "" {
			ps = sel
		}
		for _, p := range ps {
			jobs = append(jobs, &job{h: h, param: p})
		}
	}
	if len(jobs) == 0 {
		fatal(fmt.Errorf("no harness for property %s", id))
	}
	total := time.Duration(*budget) * time.Second
	if total == 0 {
		total = 420 * time.Second
		if *tier == "thorough" {
			total = 3000 * time.Second
		}
	}
	end := start.Add(total)
	// the native program builds while the solver works
	natErr := make(chan error, 1)
	stress := false
	for _, j := range jobs {
		stress = stress || j.h.Stress
	}
	go func() {
		_, err := w.native(false)
		if err == nil && stress {
			_, err = w.native(true)
		}
		natErr <- err
	}()
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				w.runJob(j, end)
			}
		}()
	}
	finished := make(chan bool)
	go func() {
		for _, j := range jobs {
			ch <- j
		}
		close(ch)
		wg.Wait()
		close(finished)
	}()
	select {
	case <-finished:
	case <-time.After(time.Until(end.Add(60 * time.Second))):
		// something does not heed its deadline: go on with what there is
		w.stop.Store(true)
		for i, j := range jobs {
			if !j.done.Load() {
				jobs[i] = &job{h: j.h, param: j.param, err: "no answer within the time budget"}
			}
		}
	}
	solved := time.Since(start)
	if err := <-natErr; err != nil {
		fatal(err)
	}
	return w.conclude(id, jobs, start, solved)
}

// confirm replays a candidate while the search goes on. One that is real and
// not a recorded finding decides the check, so the search ends.
func (w *world) confirm(j *job, v gexec.Violation) {
	if j.h.Stress || *all || w.stop.Load() {
		return
	}
	q := request{Harness: j.h.Name, Param: j.param, Inputs: v.Inputs}
	res := w.runNative([]request{q}, false)[0]
	if !bad(res) {
		return
	}
	doc := replayDoc{Property: j.h.Prop, request: q, Message: v.Msg, Native: res}
	for _, k := range w.known(j.h.Prop) {
		if (k.harness == "" || k.harness == j.h.Name) && matches(k.msg, doc) {
			return
		}
	}
	w.stop.Store(true)
}

func (w *world) runJob(j *job, end time.Time) {
	t0 := time.Now()
	defer j.done.Store(true)
	defer func() {
		j.wall = time.Since(t0)
		if p := recover(); p != nil {
			j.err = fmt.Sprint(p)
		}
		if *verbose {
			n := 0
			if j.run != nil {
				n = j.run.Stats.Paths
			}
			fmt.Fprintf(os.Stderr, "  %s/%d %.2fs paths=%d\n", j.h.Name, j.param, j.wall.Seconds(), n)
		}
	}()
	secs := j.h.Secs
	if secs == 0 {
		secs = 60
		if *tier == "thorough" {
			secs = 300
		}
	}
	dl := t0.Add(time.Duration(secs) * time.Second)
	if dl.After(end) {
		dl = end
	}
	if w.stop.Load() {
		j.err = "not run: a violation was found"
		return
	}
	if time.Until(dl) < time.Second {
		j.err = "time budget of the check"
		return
	}
	q := time.Duration(j.h.QuerySc) * time.Second
	j.run = gexec.NewRun(w.eng, gexec.Options{Param: j.param, Deadline: dl, QueryTime: q, Stop: &w.stop,
		Found: func(v gexec.Violation) { w.confirm(j, v) }})
	j.run.Harness(j.h.Fn)
}

// runNative executes requests in the replay program.
func (w *world) runNative(reqs []request, race bool) []result {
	out := make([]result, len(reqs))
	bin, err := w.native(race)
	if err != nil {
		for i := range out {
			out[i].Panic = "replay unavailable"
			out[i].Skipped = true
		}
		return out
	}
	done := 0
	for done < len(reqs) {
		n, crash := w.batch(bin, reqs[done:], out[done:])
		done += n
		if done < len(reqs) {
			out[done] = result{Panic: "replay program ended: " + crash}
			done++
		}
	}
	return out
}

func (w *world) batch(bin string, reqs []request, out []result) (int, string) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return 0, err.Error()
	}
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "DUKPTCLI="+w.cliBin)
	cmd.ExtraFiles = []*os.File{pw}
	var se strings.Builder
	cmd.Stderr = &capWriter{b: &se}
	in, _ := cmd.StdinPipe()
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return 0, err.Error()
	}
	pw.Close()
	go func() {
		e := json.NewEncoder(in)
		for _, q := range reqs {
			if e.Encode(q) != nil {
				break
			}
		}
		in.Close()
	}()
	lines := make(chan string)
	go func() {
		rd := bufio.NewReaderSize(pr, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				lines <- l
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	n := 0
	why := ""
loop:
	for n < len(reqs) {
		lim := 20 * time.Second
		if reqs[n].Repeat > 0 {
			lim = 60 * time.Second
		}
		select {
		case l, ok := <-lines:
			if !ok {
				break loop
			}
			if json.Unmarshal([]byte(l), &out[n]) != nil {
				break loop
			}
			n++
		case <-time.After(lim):
			why = "no answer (hang): "
			break loop
		}
	}
	cmd.Process.Kill()
	go func() {
		for range lines {
		}
	}()
	cmd.Wait()
	pr.Close()
	return n, why + se.String()
}

type capWriter struct{ b *strings.Builder }

func (c *capWriter) Write(p []byte) (int, error) {
	if c.b.Len() < 4000 {
		c.b.Write(p)
	}
	return len(p), nil
}

type finding struct{ prop, harness, msg, text string }

// known reads the findings that are recorded rather than repaired.
func (w *world) known(prop string) []finding {
	var out []finding
	b, _ := os.ReadFile(filepath.Join(w.verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " :: ")
		f := finding{text: text}
		for {
			head = strings.TrimSpace(head)
			k, rest, ok := strings.Cut(head, "=")
			if !ok {
				break
			}
			v := ""
			if strings.HasPrefix(rest, "\"") {
				q, err := strconv.QuotedPrefix(rest)
				if err != nil {
					break
				}
				v, _ = strconv.Unquote(q)
				head = rest[len(q):]
			} else {
				v, head, _ = strings.Cut(rest, " ")
			}
			switch k {
			case "property":
				f.prop = v
			case "harness":
				f.harness = v
			case "msg":
				f.msg = v
			}
		}
		if f.prop == prop {
			out = append(out, f)
		}
	}
	return out
}

func (w *world) conclude(prop string, jobs []*job, start time.Time, solved time.Duration) int {
	type viol struct {
		doc replayDoc
	}
	var viols []viol
	var unconf []string
	funcs, stubs, reached := map[string]bool{}, map[string]bool{}, map[string]map[string]bool{}
	wantReach := map[string]map[string]bool{}
	incomplete := map[string]int{}
	var paths, merges, instrs, asserts, trivial, proved, confirmed, unknown int
	var queries, solverSat, solverUnsat, solverUnk int
	var solverTime time.Duration
	validated, mismatched := 0, []string{}
	bounds := map[string][]int{}
	notes := map[string]int{}
	var samples []interface{}
	complete := 0
	for _, j := range jobs {
		if reached[j.h.Name] == nil {
			reached[j.h.Name] = map[string]bool{}
			wantReach[j.h.Name] = map[string]bool{}
			for _, l := range j.h.Reach {
				wantReach[j.h.Name][l] = true
			}
		}
		if j.err != "" {
			incomplete[fmt.Sprintf("%s/%d: %s", j.h.Name, j.param, j.err)]++
		}
		r := j.run
		if r == nil {
			continue
		}
		if len(r.Stats.Incomplete) == 0 && j.err == "" && len(r.Unconf) == 0 && r.Stats.Unknown == 0 {
			complete++
			bounds[j.h.Name] = append(bounds[j.h.Name], j.param)
		}
		for m, n := range r.Stats.Incomplete {
			incomplete[fmt.Sprintf("%s/%d: %s", j.h.Name, j.param, clip(m, 3000))] += n
		}
		for f := range r.Stats.Funcs {
			if strings.Contains(f, "github.com/moov-io/") {
				funcs[f] = true
			}
		}
		for f := range r.Stats.StubsUsed {
			stubs[f] = true
		}
		for l := range r.Stats.Reached {
			reached[j.h.Name][l] = true
		}
		for k, n := range r.Notes {
			notes[k] += n
		}
		paths += r.Stats.Paths
		merges += r.Stats.Merges
		instrs += r.Stats.Instrs
		asserts += r.Stats.Asserts
		trivial += r.Stats.AssertsTrivial
		proved += r.Stats.Proved
		confirmed += r.Stats.Confirmed
		unknown += r.Stats.Unknown
		queries += r.Sol.Stats.Queries
		solverSat += r.Sol.Stats.Sat
		solverUnsat += r.Sol.Stats.Unsat
		solverUnk += r.Sol.Stats.Unknown
		solverTime += r.Sol.Stats.Time
		for _, u := range r.Unconf {
			unconf = append(unconf, fmt.Sprintf("%s/%d: undecided: %s", j.h.Name, j.param, u))
		}
		// candidate counterexamples
		for _, v := range r.Viol {
			q := request{Harness: j.h.Name, Param: j.param, Inputs: v.Inputs}
			var res result
			ok := false
			if j.h.Stress {
				q.Repeat = 3000
				res = w.runNative([]request{q}, false)[0]
				ok = bad(res)
				if !ok {
					q.Repeat = 300
					res = w.runNative([]request{q}, true)[0]
					ok = bad(res)
				}
			} else {
				res = w.runNative([]request{q}, false)[0]
				ok = bad(res)
			}
			if !ok {
				unconf = append(unconf, fmt.Sprintf("%s/%d: did not reproduce: %s %v", j.h.Name, j.param, clip(v.Msg, 600), v.Inputs))
				continue
			}
			viols = append(viols, viol{replayDoc{Property: prop, request: q, Message: v.Msg, Native: res, Stress: j.h.Stress}})
		}
		// predicted paths against the real code
		if !j.h.Stress && len(r.Traces) > 0 {
			var qs []request
			for _, t := range r.Traces {
				qs = append(qs, request{Harness: j.h.Name, Param: j.param, Inputs: t.Inputs})
			}
			rs := w.runNative(qs, false)
			for i, t := range r.Traces {
				if rs[i].Skipped {
					mismatched = append(mismatched, fmt.Sprintf("%s/%d: path not taken natively %v", j.h.Name, j.param, t.Inputs))
					continue
				}
				if bad(rs[i]) {
					msg := rs[i].Panic
					if len(rs[i].Fails) > 0 {
						msg = rs[i].Fails[0]
					}
					dup := false
					for _, v := range viols {
						dup = dup || v.doc.Harness == j.h.Name && v.doc.Param == j.param
					}
					if !dup {
						viols = append(viols, viol{replayDoc{Property: prop, request: qs[i], Message: "found on replay of a predicted path: " + clip(msg, 300), Native: rs[i]}})
					}
					continue
				}
				same := true
				for k, v := range t.Outs {
					if rs[i].Outs[k] != v {
						same = false
						mismatched = append(mismatched, fmt.Sprintf("%s/%d: %s predicted %s, real %s on %v", j.h.Name, j.param, k, v, rs[i].Outs[k], t.Inputs))
						break
					}
				}
				if same {
					validated++
					if len(samples) < 6 && len(t.Inputs) > 0 {
						samples = append(samples, map[string]interface{}{"harness": j.h.Name, "param": j.param, "inputs": t.Inputs, "outputs": t.Outs})
					}
				}
			}
		}
	}
	var vacuous []string
	for h, ls := range wantReach {
		for l := range ls {
			if !reached[h][l] {
				vacuous = append(vacuous, h+": "+l)
			}
		}
	}
	sort.Strings(vacuous)
	// report
	known := w.known(prop)
	used := map[int]bool{}
	fails := 0
	seen := map[string]bool{}
	var vdocs []interface{}
	rdir := filepath.Join(w.verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for _, v := range viols {
		kf := -1
		for i, k := range known {
			if (k.harness == "" || k.harness == v.doc.Harness) && matches(k.msg, v.doc) {
				kf = i
			}
		}
		if kf >= 0 {
			used[kf] = true
			continue
		}
		key := v.doc.Harness + "|" + v.doc.Message
		if seen[key] {
			continue
		}
		seen[key] = true
		fails++
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, fails))
		v.doc.How = "cd /verif && ./check --replay " + path
		b, _ := json.MarshalIndent(v.doc, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		vdocs = append(vdocs, v.doc)
		if fails <= 20 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s/%d: %s\n  inputs: %v\n", v.doc.Harness, v.doc.Param, clip(v.doc.Message, 400), v.doc.Inputs)
		}
	}
	for i, k := range known {
		if used[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"harness": jobs[0].h.Name, "param": jobs[0].param})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"wall_s":     round(time.Since(start).Seconds()),
		"violations": fails,
		"coverage": map[string]interface{}{
			"states":                        paths,
			"transitions":                   instrs,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"meaning":                       "states: symbolic paths run to their end (each stands for all inputs satisfying its path condition); transitions: SSA instructions executed symbolically; traces: solver-chosen inputs whose predicted outputs were compared with the compiled code",
			"jobs":                          len(jobs),
			"jobs_complete":                 complete,
			"bounds_completed":              bounds,
			"merges":                        merges,
			"assertions":                    asserts,
			"assertions_constant":           trivial,
			"assertions_discharged_unsat":   proved,
			"assertions_identical_terms_confirmed_unsat": confirmed,
			"solver_queries":            queries,
			"solver_sat":                solverSat,
			"solver_unsat":              solverUnsat,
			"solver_unknown":            solverUnk,
			"solver_seconds":            round(solverTime.Seconds()),
			"symbolic_phase_s":          round(solved.Seconds()),
			"functions_encoded":         sorted(funcs),
			"models_used":               sorted(stubs),
			"incomplete":                sortedN(incomplete),
			"undecided_or_unreproduced": unconf,
			"trace_mismatches":          mismatched,
			"unreached_labels":          vacuous,
			"reached_labels":            reachList(reached),
			"events":                    notes,
			"violations_reported":       vdocs,
			"exhaustive":                false,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(w.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(w.verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("%s: %d/%d jobs complete, %d paths, %d assertions (%d by solver, %d confirmed), %d queries, %d traces replayed, %.1fs\n", prop, complete, len(jobs), paths, asserts, proved, confirmed, queries, validated, time.Since(start).Seconds())
	if *verbose || os.Getenv("GOSYM_SHOW") != "" {
		for _, s := range sortedN(incomplete) {
			fmt.Println("  incomplete:", s)
		}
		for _, s := range head(unconf, 10) {
			fmt.Println("  unconfirmed:", clip(s, 900))
		}
		for _, s := range head(mismatched, 10) {
			fmt.Println("  mismatch:", clip(s, 600))
		}
		for _, s := range vacuous {
			fmt.Println("  vacuous:", s)
		}
	} else {
		fmt.Printf("  incomplete=%d unconfirmed=%d mismatches=%d vacuous=%d\n", len(incomplete), len(unconf), len(mismatched), len(vacuous))
	}
	if fails > 0 {
		return 1
	}
	return 0
}

func matches(m string, d replayDoc) bool {
	if m == d.Message {
		return true
	}
	for _, f := range d.Native.Fails {
		if f == m && strings.HasPrefix(d.Message, "found on replay") {
			return true
		}
	}
	return false
}

func bad(r result) bool { return len(r.Fails) > 0 || !r.Skipped && r.Panic != "" }

func reachList(m map[string]map[string]bool) map[string][]string {
	o := map[string][]string{}
	for h, s := range m {
		o[h] = sorted(s)
	}
	return o
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func sorted(m map[string]bool) []string {
	o := []string{}
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func sortedN(m map[string]int) []string {
	o := []string{}
	for k, n := range m {
		if n > 1 {
			k = fmt.Sprintf("%s (x%d)", k, n)
		}
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// replayFile runs a recorded counterexample against the current tree.
func (w *world) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fatal(err)
	}
	if err := w.load(); err != nil {
		fatal(err)
	}
	defer w.cleanup()
	r := w.runNative([]request{d.request}, d.Stress && strings.Contains(d.Native.Panic, "DATA RACE"))[0]
	o, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(o))
	if bad(r) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.Property, path)
		return 1
	}
	return 0
}
