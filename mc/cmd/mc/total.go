package main

import (
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
	"verifmc/ref"
)

// total: any text gets a verdict, and whatever tree there is can be printed, walked and turned into JSON.
func total(w *eng.W, src string) {
	w.Input(src)
	a := ast.NewAST(src)
	var err error
	w.Trace()
	if msg := impl.Protect(func() { err = a.Parse() }); msg != "" {
		w.Fail("Parse: %s", msg)
		return
	}
	if err == nil {
		w.Outcome("accepted")
	} else {
		w.Outcome("rejected")
		if err.Error() == "" {
			w.Fail("an error without a message")
			return
		}
	}
	list := append([]ast.PrintConf{{Margin: -3}}, confs...)
	if strings.Count(src, "Цикл")+strings.Count(src, "Если")+strings.Count(src, "Попытка") > 250 {
		list = confs[3:] // the margins of deep blocks take most of the time
	}
	for _, c := range list {
		if msg := impl.Protect(func() { a.Print(c) }); msg != "" {
			w.Fail("Print(%+v) after the answer %v: %s", c, err, msg)
			return
		}
	}
	if msg := impl.Protect(func() {
		if b, e := a.JSON(); e != nil || len(b) == 0 {
			panic(fmt.Sprintf("JSON gives %q, %v", b, e))
		}
	}); msg != "" {
		w.Fail("JSON after the answer %v: %s", err, msg)
		return
	}
	n := 0
	if msg := impl.Protect(func() {
		a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) {
			if s == nil || parent == nil {
				panic("nil pointer handed to the callback")
			}
			if n++; n < 50 {
				a.PrintStatement(*s)
			}
		})
	}); msg != "" {
		w.Fail("Walk and PrintStatement after the answer %v: %s", err, msg)
		return
	}
	if a.SrsCode() != src {
		w.Fail("the source text of the tree has changed")
	}
}

var wild = []string{"а", "x", "Ё", "1", ".", `"`, "'", "|", "\n", " ", "/", "=", "(", ")", "~", "&", "#", "-", "<", ";", ",", "?", "\x00", "\xff", "\xd0", "\ufeff", "\u00a0", "\u2028", "😀", "\r", "_", "@"}

var wildHosts = []string{"%", "а = %;", "Процедура п() % КонецПроцедуры", `а("%", '%')`, "Если а Тогда %", "&%", "а.%(", "~% :", "Процедура %(а = %", "а(); //%\nб();", "\"с\n|%\""}

func init() {
	register("C01", func(r *eng.Run) {
		fillHost := func(h, s string) string { return strings.ReplaceAll(h, "%", s) }
		visitAll(r, "characters", charStrings(r.Bound(4, 5), wild), total)
		visitAll(r, "characters in a text", func(c *eng.Ch) string {
			return fillHost(eng.One(c, wildHosts), charStrings(r.Bound(2, 3), wild)(c))
		}, total)
		visitAll(r, "bytes", func(c *eng.Ch) string {
			h := wildHosts[c.Pick(r.Bound(4, len(wildHosts)))]
			s := string([]byte{byte(c.Pick(256))})
			if c.Bool() {
				s += string([]byte{byte(c.Pick(256))})
			}
			return fillHost(h, s)
		}, total)
		visitAll(r, "all token sequences", func(c *eng.Ch) string {
			n := r.Bound(3, 3)
			var l []string
			for i := 0; i < n; i++ {
				k := c.Pick(len(alphabet) + 1)
				if k == 0 {
					break
				}
				l = append(l, alphabet[k-1])
			}
			return strings.Join(l, " ")
		}, total)
		tokenTree(r, "token sequences", alphabet, oneSpace, r.Bound(3, 5), func(w *eng.W, t text) { total(w, t.src) })
		tokenGraph(r, "configurations", alphabet, oneSpace, r.Bound(4, 7), 99, 1, 1<<20, func(w *eng.W, t text) { total(w, t.src) })
		tokenTree(r, "statement contexts", ctxAlphabet, oneSpace, r.Bound(4, 5), func(w *eng.W, t text) { total(w, t.src) })
		edits(r, "edited sentences", gen.Sentences, 1, oneSpace, func(w *eng.W, t text) { total(w, t.src) })
		edits(r, "edited programs", gen.Programs, 1, oneSpace, func(w *eng.W, t text) { total(w, t.src) })
		if !r.Quick() {
			edits(r, "twice edited sentences", short(8), 2, oneSpace, func(w *eng.W, t text) { total(w, t.src) })
		}
		visitAll(r, "cut texts", func(c *eng.Ch) string {
			s := eng.One(c, append(append([]string{}, gen.Programs...), gen.Sentences...))
			return s[:c.Pick(len(s)+1)]
		}, total)
		visitAll(r, "damaged texts", func(c *eng.Ch) string {
			s := eng.One(c, append(append([]string{}, gen.Programs...), gen.Sentences...))
			i := c.Pick(len(s) + 1)
			j := min(len(s), i+c.Pick(2))
			return s[:i] + eng.One(c, wild) + s[j:]
		}, total)
		dense := r.Bound(20, 130)
		long := []int{50, 128, 257, 513, 1025}
		if !r.Quick() {
			long = append(long, 2049, 4097, 10001)
		}
		cut := func(f func(string) string) func(w *eng.W, s string) {
			return func(w *eng.W, s string) { total(w, f(s)) }
		}
		sizes(r, "lengths", dense, long, gen.Lengths, total)
		sizes(r, "lengths within", r.Bound(3, 40), []int{17, 65, 129}, gen.Inside, total)
		sizes(r, "long tokens", dense, long, gen.LongTokens, total)
		eng.Over(r, "numbers of any length", upto(r.Bound(700, 3000)), func(w *eng.W, n int) {
			for _, f := range []string{"р = %;", "р = -%", "р = %.%;", "р = 0.%1", "Процедура п(а = %) КонецПроцедуры", "р = '%'", "р = 0%1", "%", "~м%:"} {
				for _, d := range []string{"0", "1", "9"} {
					w.State(1)
					total(w, strings.ReplaceAll(f, "%", strings.Repeat(d, n)))
				}
			}
		})
		sizes(r, "depths", dense, long, gen.Depths, total)
		half := func(s string) string { // the text stops halfway
			toks, _ := ref.Lex(s)
			if len(toks) == 0 {
				return s
			}
			return s[:toks[len(toks)/2].End]
		}
		sizes(r, "cut lengths", dense, long, gen.Lengths, cut(half))
		sizes(r, "cut depths", dense, long, gen.Depths, cut(half))
		hugeSpace(r, "colossal texts", flat, "Walk Print JSON")
		hugeSpace(r, "colossal depths", deep, "Walk")
		hugeSpace(r, "colossal depths printed", pick(deep, million, "brackets"), "Print")
		hugeSpace(r, "colossal depths as JSON", pick(deep, million, "brackets", "sums", "calls", "Если", "members", "items", "indexes"), "JSON")
	}, "the stack of the process is limited to 512 MB")
}
