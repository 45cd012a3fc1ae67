package stubs

import (
	"flag"
	"os"

	"dukptverif/sym"
)

// ---- the process the command line tool runs in

var printed string

var cliRuns int

//sym:global os.Stdout
var Stdout = new(os.File)

//sym:global os.Stderr
var Stderr = new(os.File)

//sym:global flag.CommandLine
var CommandLine = newCommandLine()

func newCommandLine() *flag.FlagSet {
	f := flag.NewFlagSet("dukptcli", flag.ExitOnError)
	f.Usage = func() { flag.Usage() }
	return f
}

// RunCLI is one run of the command line tool.
//
//sym:replace dukptverif/sym.CLI
func RunCLI(args ...string) (string, int) {
	if cliRuns++; cliRuns > 1 {
		sym.Unsupported("second run of the command line tool on a path")
	}
	os.Args = append([]string{"dukptcli"}, args...)
	printed = ""
	panicked := false
	code := sym.CatchExit(func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		sym.CallMain("github.com/moov-io/dukpt/cmd/dukptcli")
	})
	switch {
	case panicked:
		code = 2
	case code == -1:
		code = 0
	}
	return printed, code
}

//sym:replace os.Exit
func Exit(code int) { sym.Exit(code) }

func emit(f *os.File, s string) {
	if f == Stdout {
		printed += s
	}
}

//sym:replace (*os.File).Write
func FileWrite(f *os.File, b []byte) (int, error) {
	if f != Stdout && f != Stderr {
		sym.Unsupported("writing to a file")
	}
	emit(f, string(b))
	return len(b), nil
}

//sym:replace (*os.File).WriteString
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

//sym:replace fmt.Printf
func Printf(f string, args ...any) (int, error) {
	return FileWrite(os.Stdout, []byte(format(f, args, nil)))
}

//sym:replace fmt.Print
func Print(args ...any) (int, error) { return FileWrite(os.Stdout, []byte(sprint(args, false))) }

//sym:replace fmt.Println
func Println(args ...any) (int, error) { return FileWrite(os.Stdout, []byte(sprint(args, true))) }

// The list of flags goes to standard error.
//
//sym:replace (*flag.FlagSet).PrintDefaults
func PrintDefaults(f *flag.FlagSet) {}
