// gosym decides the properties of /verif/properties.jsonl by executing the
// code of /repo symbolically and asking an SMT solver.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

var (
	verif   = flag.String("verif", "/verif", "directory of the framework")
	repo    = flag.String("repo", "/repo", "directory of the code under test")
	tier    = flag.String("tier", "quick", "quick or thorough")
	prop    = flag.String("prop", "", "property to decide")
	only    = flag.String("harness", "", "run only this harness (development)")
	params  = flag.String("params", "", "run only these parameters (development)")
	workers = flag.Int("j", runtime.NumCPU(), "parallel jobs")
	verbose = flag.Bool("v", false, "verbose")
	all     = flag.Bool("all", false, "go on after a violation")
	budget  = flag.Int("budget", 0, "seconds for the whole check (0: by tier)")
	replay  = flag.String("replay", "", "replay a recorded counterexample")
	dump    = flag.String("dump", "", "print the SSA of a function")
	setup   = flag.Bool("setup", false, "prepare build products and stop")
)

func main() {
	flag.Parse()
	if t := os.Getenv("VERIF_TIER"); t != "" && !flagSet("tier") {
		*tier = t
	}
	w := &world{verif: *verif, repo: *repo, build: filepath.Join(*verif, ".build")}
	if err := os.MkdirAll(w.build, 0o755); err != nil {
		fatal(err)
	}
	if err := w.prepare(); err != nil {
		fatal(err)
	}
	if *replay != "" {
		os.Exit(w.replayFile(*replay))
	}
	if err := w.load(); err != nil {
		fatal(err)
	}
	if *dump != "" {
		w.dumpFn(*dump)
		return
	}
	if *setup {
		if _, err := w.native(false); err != nil {
			fatal(err)
		}
		return
	}
	if *prop == "" && *only == "" {
		fatal(fmt.Errorf("no property given"))
	}
	os.Exit(w.check(strings.ToUpper(*prop)))
}

func flagSet(n string) (s bool) {
	flag.Visit(func(f *flag.Flag) { s = s || f.Name == n })
	return
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gosym:", err)
	os.Exit(3)
}
