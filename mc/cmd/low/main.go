// Command low decides the property of the fast lower-casing function; it is built with the address sanitizer.
package main

// #include <stddef.h>
// size_t __sanitizer_get_current_allocated_bytes(void);
import "C"

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"

	"verifmc/eng"
	"verifmc/ref"
)

func low(w *eng.W, s string) {
	w.Input(s)
	w.Trace()
	w.State(1)
	got := fast_tolower.FastToLower(s)
	want := ref.Lower(s)
	if got != want {
		w.Fail("%q becomes %q, want %q", s, got, want)
	}
	if got == s {
		w.Outcome("unchanged")
	} else {
		w.Outcome("lowered")
	}
}

// freed checks that the function gives back the memory it takes: a thousand calls leave less than a byte each.
func freed(w *eng.W, s string) {
	w.Input(s)
	w.Trace()
	w.State(1)
	const calls = 1000
	var grown int64
	for try := 0; try < 3; try++ { // a new thread of the Go runtime also takes memory, but not every time
		before := C.__sanitizer_get_current_allocated_bytes()
		for i := 0; i < calls; i++ {
			fast_tolower.FastToLower(s)
		}
		if grown = int64(C.__sanitizer_get_current_allocated_bytes()) - int64(before); grown < calls {
			w.Outcome("freed")
			return
		}
	}
	w.Fail("%d calls with %q leave %d bytes allocated", calls, s, grown)
}

func chars() []string {
	l := []string{"A", "Z", "a", "@", "[", "`", "{", "0", "_", " ", "\n", "А", "Я", "а", "п", "р", "я", "Ё", "ё", "Ђ", "ѐ", "Џ", "É", "ß", "İ", "Ω", "‐", "中", "😀", "\x7f", "\u0080", "\u07ff", "\u0800", "\uffff"}
	return append(l, "\xd0", "\xd1", "\x90", "\x80", "\xbf", "\xc3", "\xe2", "\xe2\x84", "\xf0", "\xf0\x9f", "\xf0\x9f\x98", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf8")
}

func main() {
	eng.Main([]eng.Check{{ID: "C21", Assumptions: []string{"reference: the mapping of A-Z, А-Я and Ё written down by hand; texts without NUL"}, Run: func(r *eng.Run) {
		eng.Explore(r, "code points", func(c *eng.Ch) rune { return rune(c.Pick(0x1100))<<8 | rune(c.Pick(256)) }, func(w *eng.W, p rune) {
			if p == 0 || !utf8.ValidRune(p) {
				return
			}
			s := string(p)
			low(w, s)
			low(w, "Ж"+s+"Z")
		})
		eng.Explore(r, "bytes", func(c *eng.Ch) string {
			n := c.Pick(r.Bound(4, 4))
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(1 + c.Pick(255))
			}
			return string(b)
		}, low)
		al := chars()
		eng.Explore(r, "characters", func(c *eng.Ch) string {
			n := c.Pick(r.Bound(4, 5))
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(al[c.Pick(len(al))])
			}
			return b.String()
		}, low)
		eng.Explore(r, "lengths", func(c *eng.Ch) string {
			return strings.Repeat(al[c.Pick(len(al))], c.Pick(r.Bound(300, 5000))) + al[c.Pick(len(al))]
		}, low)
		eng.Explore(r, "long texts", func(c *eng.Ch) string {
			n := 1 << (9 + c.Pick(r.Bound(9, 12)))
			return strings.Repeat(al[c.Pick(len(al))], n+c.Pick(3)-1) + []string{"", "Q", "Я", "\xd0"}[c.Pick(4)]
		}, low)
		eng.Explore(r, "words", func(c *eng.Ch) string {
			return []string{"", " ", "ы"}[c.Pick(3)] + words[c.Pick(len(words))] + []string{"", " ", "Q"}[c.Pick(3)]
		}, low)
		r.Workers = 1
		eng.Explore(r, "memory given back", func(c *eng.Ch) string {
			return []string{"", "a", "Ж"}[c.Pick(3)] + al[c.Pick(len(al))] + strings.Repeat("w", []int{0, 1, 20, 300}[c.Pick(4)])
		}, freed)
		eng.Raw(r, "two calls at once", func(mk func(int) *eng.W, payload string) {
			w := mk(0)
			w.Enter("inner")
			defer w.Leave()
			bin := os.Getenv("MC_INNER")
			if bin == "" {
				w.Incomplete()
				w.Outcome("no build with points in the C code")
				return
			}
			args := []string{"-limit", "60s"}
			if !r.Quick() {
				args = []string{"-thorough", "-limit", "20m"}
			}
			out, err := exec.Command(bin, args...).CombinedOutput()
			var calls, points, schedules, waits int
			var complete bool
			if n, _ := fmt.Sscanf(string(out), "calls=%d points=%d schedules=%d waits=%d complete=%v", &calls, &points, &schedules, &waits, &complete); n != 5 || err != nil {
				w.Fail("%v: %s", err, out)
				return
			}
			w.State(points)
			w.Transition(schedules)
			if !complete {
				w.Incomplete()
			}
			w.Outcome(strings.TrimSpace(string(out)))
		})
	}}})
}

var words = func() []string {
	var l []string
	for _, k := range ref.Keywords {
		l = append(l, k, ref.Upper(k), strings.ToTitle(k))
	}
	for _, d := range ref.Directives {
		l = append(l, d, ref.Upper(d))
	}
	return l
}()
