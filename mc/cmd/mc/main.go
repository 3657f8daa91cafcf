// Command mc decides the properties of the parser by exhaustive exploration of bounded spaces of programs.
package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	"verifmc/eng"
	"verifmc/impl"
	"verifmc/ref"
)

var checks []eng.Check

func register(id string, run func(*eng.Run), assumptions ...string) {
	checks = append(checks, eng.Check{ID: id, Run: run, Assumptions: append(assumptions,
		"reference model of the language written from grammar.y and the README",
		"inputs outside the enumerated alphabets and bounds are not covered")})
}

func main() {
	if os.Getenv("MC_ALONE") != "" { // the answer of a process that sees one text only
		src, err := io.ReadAll(os.Stdin)
		if err != nil {
			os.Exit(3)
		}
		fmt.Print(whole(string(src)))
		return
	}
	if spec := os.Getenv("MC_HUGE"); spec != "" {
		hugeChild(spec)
		return
	}
	eng.Main(checks)
}

// conform drives one program through the implementation and the model and compares verdict and tree.
func conform(w *eng.W, src string) (impl.Out, ref.Result, bool) {
	w.Input(src)
	_, le, want := ref.ParseText(src)
	if le != nil && strings.TrimSpace(src) == "" { // only blanks, some of them exotic: an empty module or an error
		got := impl.Parse(src)
		if got.Panic != "" {
			w.Fail("%s", got.Panic)
		}
		return got, want, false
	}
	got := impl.Parse(src)
	w.Trace()
	if got.Panic != "" {
		w.Fail("%s", got.Panic)
		return got, want, false
	}
	ok := le == nil && want.OK()
	if ok != (got.Err == nil) {
		w.Fail("accepted by the model: %v (%v, rules %v); answer of the parser: %v", ok, le, want.Rules, got.Err)
		return got, want, false
	}
	if !ok {
		w.Outcome("rejected")
		return got, want, false
	}
	w.Outcome("accepted")
	if a, b := want.Module.String(), got.Tree().String(); a != b {
		w.Fail("%s", diff(a, b))
		return got, want, false
	}
	return got, want, true
}

func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	i = strings.LastIndexByte(want[:i], '(')
	if i < 0 {
		i = 0
	}
	cut := func(s string) string {
		if i > len(s) {
			return ""
		}
		return s[i:min(len(s), i+400)]
	}
	full := ""
	if len(want) < 3000 {
		full = "\nwant: " + want + "\ngot:  " + got
	}
	return "trees differ\nwant ..." + cut(want) + "\ngot  ..." + cut(got) + full
}

// trees checks conformance on every program of a space.
func trees(r *eng.Run, name string, gen func(*eng.Ch) string) {
	eng.Explore(r, name, gen, func(w *eng.W, src string) {
		if w.Visit(src) {
			conform(w, src)
		}
	})
}
