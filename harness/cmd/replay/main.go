// Command replay runs harnesses natively on concrete inputs: requests on
// stdin (JSON lines), results on stdout.
package main

import (
	"bufio"
	"crypto/rand"
	"encoding/json"
	"os"

	"dukptverif/sym"
)

type request struct {
	Harness string            `json:"harness"`
	Param   int               `json:"param"`
	Inputs  map[string]string `json:"inputs"`
	Repeat  int               `json:"repeat"`
}

func main() {
	rand.Reader = sym.RandReader{}
	out := json.NewEncoder(os.NewFile(3, "results"))
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	for {
		var q request
		if dec.Decode(&q) != nil {
			return
		}
		f := registry[q.Harness]
		var r sym.Result
		if f == nil {
			r.Panic = "no such harness"
		} else {
			for i := 0; i == 0 || i < q.Repeat; i++ {
				r = sym.Replay(f, q.Param, q.Inputs)
				if len(r.Fails) > 0 || r.Panic != "" {
					break
				}
			}
		}
		out.Encode(r)
	}
}
