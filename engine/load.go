package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	gexec "gosym/exec"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type harness struct {
	Prop    string
	Name    string
	Fn      *ssa.Function
	Quick   []int
	Thor    []int
	Reach   []string
	Stress  bool // replay by repetition under real threads
	Secs    int  // per-job time
	QuerySc int
}

type world struct {
	verif, repo, build string
	modfile            string
	eng                *gexec.Engine
	prog               *ssa.Program
	harnesses          []*harness
	mu                 sync.Mutex
	bins               map[bool]string
	cliBin             string
	stop               atomic.Bool
}

func (w *world) env() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
}

// prepare derives the module file of the harnesses from the repository's.
func (w *world) prepare() error {
	mod, err := os.ReadFile(filepath.Join(w.repo, "go.mod"))
	if err != nil {
		return err
	}
	var out bytes.Buffer
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			out.WriteString("module dukptverif\n")
			continue
		}
		out.WriteString(l + "\n")
	}
	fmt.Fprintf(&out, "\nrequire github.com/moov-io/dukpt v0.0.0\n\nreplace github.com/moov-io/dukpt => %s\n", w.repo)
	w.modfile = filepath.Join(w.build, "harness.mod")
	if err := os.WriteFile(w.modfile, out.Bytes(), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(w.repo, "go.sum"))
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(w.build, "harness.sum"), sum, 0o644)
}

func (w *world) load() error {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        filepath.Join(w.verif, "harness"),
		Env:        w.env(),
		BuildFlags: []string{"-modfile=" + w.modfile},
	}
	ps, err := packages.Load(cfg, "./sym", "./spec", "./stubs", "./props", "github.com/moov-io/dukpt/...")
	if err != nil {
		return err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return fmt.Errorf("cannot load %s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.eng = gexec.NewEngine(prog)
	for _, p := range ps {
		if !strings.HasPrefix(p.PkgPath, "dukptverif/") {
			continue
		}
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Doc == nil || d.Recv != nil {
						continue
					}
					for _, c := range d.Doc.List {
						if err := w.directive(sp, d.Name.Name, c.Text); err != nil {
							return err
						}
					}
				case *ast.GenDecl:
					if d.Doc == nil {
						continue
					}
					for _, c := range d.Doc.List {
						f := strings.Fields(c.Text)
						if len(f) == 2 && f[0] == "//sym:global" {
							vs := d.Specs[0].(*ast.ValueSpec)
							w.eng.Globals[f[1]] = sp.Var(vs.Names[0].Name)
						}
					}
				}
			}
		}
	}
	sort.Slice(w.harnesses, func(i, j int) bool { return w.harnesses[i].Name < w.harnesses[j].Name })
	return nil
}

func (w *world) directive(sp *ssa.Package, name, text string) error {
	f := strings.Fields(text)
	if len(f) < 2 {
		return nil
	}
	switch f[0] {
	case "//sym:replace":
		w.eng.Stubs[f[1]] = sp.Func(name)
	case "//sym:prop":
		h := &harness{Prop: f[1], Name: name, Fn: sp.Func(name)}
		for _, o := range f[2:] {
			k, v, _ := strings.Cut(o, "=")
			var err error
			switch k {
			case "quick":
				h.Quick, err = ranges(v)
			case "thorough":
				h.Thor, err = ranges(v)
			case "reach":
				h.Reach = strings.Split(v, ",")
			case "stress":
				h.Stress = true
			case "secs":
				h.Secs, err = strconv.Atoi(v)
			case "query":
				h.QuerySc, err = strconv.Atoi(v)
			default:
				err = fmt.Errorf("unknown option %s", k)
			}
			if err != nil {
				return fmt.Errorf("%s: %v", name, err)
			}
		}
		if h.Quick == nil {
			h.Quick = []int{0}
		}
		if h.Thor == nil {
			h.Thor = h.Quick
		}
		w.harnesses = append(w.harnesses, h)
	}
	return nil
}

// ranges parses "0-9,12,20-40/4".
func ranges(s string) ([]int, error) {
	var out []int
	for _, p := range strings.Split(s, ",") {
		step := 1
		if a, b, ok := strings.Cut(p, "/"); ok {
			n, err := strconv.Atoi(b)
			if err != nil {
				return nil, err
			}
			p, step = a, n
		}
		lo, hi, ok := strings.Cut(p, "-")
		if !ok {
			hi = lo
		}
		a, err := strconv.Atoi(lo)
		if err != nil {
			return nil, err
		}
		b, err := strconv.Atoi(hi)
		if err != nil {
			return nil, err
		}
		for i := a; i <= b; i += step {
			out = append(out, i)
		}
	}
	return out, nil
}

// native builds the replay program (and the command line tool it may run).
func (w *world) native(race bool) (string, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.bins == nil {
		w.bins = map[bool]string{}
	}
	if b, ok := w.bins[race]; ok {
		return b, nil
	}
	var reg bytes.Buffer
	reg.WriteString("package main\n\nimport \"dukptverif/props\"\n\nvar registry = map[string]func(){\n")
	seen := map[string]bool{}
	for _, h := range w.harnesses {
		if !seen[h.Name] {
			seen[h.Name] = true
			fmt.Fprintf(&reg, "\t%q: props.%s,\n", h.Name, h.Name)
		}
	}
	reg.WriteString("}\n")
	tmp, err := os.MkdirTemp(w.build, "native")
	if err != nil {
		return "", err
	}
	gen := filepath.Join(tmp, "registry.go")
	if err := os.WriteFile(gen, reg.Bytes(), 0o644); err != nil {
		return "", err
	}
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(w.verif, "harness/cmd/replay/registry.go"): gen}})
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "replay")
	args := []string{"build", "-modfile=" + w.modfile, "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./cmd/replay")...)
	cmd.Dir = filepath.Join(w.verif, "harness")
	cmd.Env = w.env()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	if w.cliBin == "" {
		w.cliBin = filepath.Join(tmp, "dukptcli")
		cmd := exec.Command("go", "build", "-modfile="+w.modfile, "-o", w.cliBin, "github.com/moov-io/dukpt/cmd/dukptcli")
		cmd.Dir = filepath.Join(w.verif, "harness")
		cmd.Env = w.env()
		if out, err := cmd.CombinedOutput(); err != nil {
			return "", fmt.Errorf("building the command line tool: %v\n%s", err, out)
		}
	}
	w.bins[race] = bin
	return bin, nil
}

func (w *world) cleanup() {
	for _, b := range w.bins {
		os.RemoveAll(filepath.Dir(b))
	}
}

func (w *world) dumpFn(name string) {
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.String() == name {
			fn.WriteTo(os.Stdout)
		}
	}
}
