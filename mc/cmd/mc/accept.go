package main

import (
	"regexp"
	"strconv"
	"strings"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
	"verifmc/ref"
)

// sameVerdict: the parser accepts exactly what the model accepts, and then builds the same tree.
func sameVerdict(w *eng.W, t text) {
	w.Input(t.src)
	got := impl.Parse(t.src)
	w.Trace()
	if got.Panic != "" {
		w.Fail("%s", got.Panic)
		return
	}
	ok := t.res.OK()
	if ok != (got.Err == nil) {
		w.Fail("accepted by the model: %v (offending token %d, rules %v); answer of the parser: %v", ok, t.res.Syntax, t.res.Rules, got.Err)
		return
	}
	switch {
	case ok:
		w.Outcome("accepted")
		if a, b := t.res.Module.String(), got.Tree().String(); a != b {
			w.Fail("%s", diff(a, b))
		}
	case t.res.Syntax < 0:
		w.Outcome("rule " + t.res.Rules[0].Name)
	case t.res.Syntax == len(t.toks):
		w.Outcome("premature end")
	default:
		w.Outcome("unexpected token")
	}
}

// completed also closes every construct that the text leaves open: rules show in whole programs only.
func completed(w *eng.W, t text) {
	sameVerdict(w, t)
	if src := closing(t); src != t.src {
		sameVerdict(w, look(src, false))
	}
}

// closing gives a text with everything closed that it leaves open.
func closing(t text) string {
	if t.res.Syntax != len(t.toks) {
		return t.src
	}
	var open []string
	for i, k := range t.toks {
		switch k.Kind {
		case ref.KIf:
			open = append(open, " КонецЕсли;")
		case ref.KFor, ref.KWhile:
			open = append(open, " КонецЦикла;")
		case ref.KTry:
			open = append(open, " Исключение КонецПопытки;")
		case ref.KCatch:
			open[len(open)-1] = " КонецПопытки;"
		case ref.KProc:
			open = append(open, " КонецПроцедуры")
		case ref.KFunc:
			open = append(open, " КонецФункции")
		case ref.KEndIf, ref.KEndLoop, ref.KEndTry, ref.KEndProc, ref.KEndFunc:
			if len(open) > 0 && i > 0 {
				open = open[:len(open)-1]
			}
		}
	}
	src := t.src
	for i := len(open) - 1; i >= 0; i-- {
		src += open[i]
	}
	return src
}

var posRe = regexp.MustCompile(`line: (-?\d+), column: (-?\d+) \(unexpected literal: ("(?:[^"\\]|\\.)*")\)`)

// errorPlace: a syntax error names the first token that cannot continue the text.
func errorPlace(w *eng.W, t text) {
	if t.res.Syntax < 0 || len(t.toks) == 0 {
		return
	}
	w.Input(t.src)
	got := impl.Parse(t.src)
	w.Trace()
	if got.Panic != "" {
		w.Fail("%s", got.Panic)
		return
	}
	if got.Err == nil {
		w.Fail("accepted, the model finds an unexpected token %d", t.res.Syntax)
		return
	}
	k := t.res.Syntax
	if k == len(t.toks) {
		k--
		w.Outcome("at the end")
	} else {
		w.Outcome("at a token")
	}
	line, col := ref.LineCol(t.src, t.toks[k].Start)
	m := posRe.FindStringSubmatch(got.Err.Error())
	if m == nil {
		w.Fail("no position in %q", got.Err.Error())
		return
	}
	gl, _ := strconv.Atoi(m[1])
	gc, _ := strconv.Atoi(m[2])
	lit, _ := strconv.Unquote(m[3])
	if gl != line || gc != col || lit != t.toks[k].Lit {
		w.Fail("error at line %d column %d literal %q expected, got %q", line, col, t.toks[k].Lit, got.Err.Error())
	}
}

var oneSpace = []string{" "}

// chunks of statements for the context rules
var ctxAlphabet = []string{"Пока а Цикл", "Для а = 1 По 2 Цикл", "Для Каждого а Из б Цикл", "КонецЦикла;", "Попытка", "Исключение", "КонецПопытки;",
	"Если а Тогда", "ИначеЕсли б Тогда", "Иначе", "КонецЕсли;", "Прервать;", "Продолжить;", "ВызватьИсключение;", `ВызватьИсключение "с";`, "Возврат;", "Возврат 1;",
	"Процедура п()", "Функция ф()", "КонецПроцедуры", "КонецФункции", "а();"}

var layoutAlphabet = []string{"Перем а;", "Перем б Экспорт;", "Перем а, б;", "Перем в, в;", "&НаКлиенте", "&НаСервере", "Процедура п()", "Функция ф() Экспорт",
	"КонецПроцедуры", "КонецФункции", "а();", "~м", ":", ";", "б = 1", "Если а Тогда", "КонецЕсли"}

// rulesAt puts the statements that need a context at the places of deep or long structures.
func rulesAt(r *eng.Run, name string, ns []int) {
	type job struct{ f, s, n int }
	var jobs []job
	for _, n := range ns {
		for f := range gen.RuleFrames {
			for s := range gen.RuleStmts {
				jobs = append(jobs, job{f, s, n})
			}
		}
	}
	eng.Over(r, name, jobs, func(w *eng.W, j job) {
		for b := 0; b < gen.RuleBodies; b++ {
			for p := 0; p < gen.RulePlaces; p++ {
				w.State(1)
				texts(sameVerdict)(w, gen.RuleAt(j.f, j.s, b, p, j.n))
			}
		}
	})
}

// repeatedNames enumerates declarations of variables with names that repeat in every way.
func repeatedNames(n int) func(*eng.Ch) string {
	names := []string{"а", "б", "вг"}
	return func(c *eng.Ch) string {
		list := func() string {
			t := eng.One(c, names)
			for i := c.Pick(n); i > 0; i-- {
				t += ", " + eng.One(c, names)
			}
			return "Перем " + t
		}
		lines := func(k int) string {
			t := ""
			for i := c.Pick(k + 1); i > 0; i-- {
				t += list() + "; "
			}
			return t
		}
		switch c.Pick(4) {
		case 0:
			return lines(2) + eng.One(c, []string{"", "&НаСервере "}) + list() + eng.One(c, []string{";", " Экспорт;"})
		case 1:
			return "Процедура п(" + eng.One(c, []string{"", "а", "а, б"}) + ") " + lines(2) + "КонецПроцедуры"
		case 2:
			return lines(1) + "Функция а() " + lines(1) + "КонецФункции " + "Процедура п() " + lines(1) + "КонецПроцедуры"
		default:
			return "Функция а() " + lines(1) + "КонецФункции Функция " + eng.One(c, names) + "(" + eng.One(c, names) + ") " + lines(1) + "КонецФункции"
		}
	}
}

// ruleDecls puts statements that need a context in and around declarations with every kind of header.
func ruleDecls(n int) func(*eng.Ch) string {
	stmts := []string{"", "б();", "Возврат 1;", "Возврат;", "ВызватьИсключение;", "Прервать;", "Пока а Цикл Продолжить; КонецЦикла;", "Попытка Исключение ВызватьИсключение; КонецПопытки;", "Если а Тогда Возврат 1 КонецЕсли"}
	return func(c *eng.Ch) string {
		t := ""
		for i := c.Pick(2); i >= 0; i-- {
			t += eng.One(c, []string{"", "&НаКлиенте "})
			k := eng.One(c, []string{"Процедура", "Функция"})
			t += k + " п(" + eng.One(c, []string{"", "а", "Знач а = -1, б"}) + ")" + eng.One(c, []string{"", " Экспорт"}) + " " + eng.One(c, []string{"", "Перем л;", "Перем л, м; Перем н;"}[:2+n/2]) + " "
			if i == 0 || n > 1 {
				t += eng.One(c, stmts)
			} else {
				t += eng.One(c, stmts[:3])
			}
			t += " Конец" + map[string]string{"Процедура": "Процедуры", "Функция": "Функции"}[k] + " "
		}
		return t + eng.One(c, stmts)
	}
}

func ledEdits(c *eng.Ch) string {
	return eng.One(c, gen.Leads) + " " + edit{mutate(c, spell(eng.One(c, gen.Sentences[:20]))), oneSpace}.text()
}

var seps13 = []string{" ", "\n", "  ", "\t", " // ж\n", "\n\n ", "\r\n"}

// what may stand before an error: characters of several bytes or columns, lines of every kind
var pieces13 = []string{"", " ", "\n", "\t", "\r", "\r\n", "\n\n\n", "\t \t", "// к\n", "// 😀 \"\r\n", "\n#О 1\n", "\n#О\r\n//к\n", "р = \"😀\";", "р = \"с\n|д\";", "р = \"с\n // к\n\t|д\n|\";\n", "р = \"\t\";", "р = \"\r\";", "р = \"с\r\n|д\r\n|е\";",
	"р = \"\"\"\";", "р = '2024\n|0101';", "р = '2024.01.01';", "р = 1.5;", "Ёж();", "а.Если = 1;\n", "~м:", "\u2028", "Если а Тогда\n\tб();\nКонецЕсли;", "Попытка\r\nИсключение\r\nКонецПопытки;", ";", "\u0085", "\n\n// к // к\n\n"}

var fillers13 = []string{"", " ", "\n", "\t", "\r\n", " // 😀\n", "\n#О\n", "\r", "\n\n\t", "//\n//\n ", " \r \n"}

var faults13 = []string{"Если;", "а = ;", "а = \"б\" 1;", "а = \"б\n|в\" 1;", "а = '20240101' 1", "КонецЕсли", "Если а Тогда б();", "ф(1, 2", "ф(1 2)", "а = 1.5 1.5;", "а.;", "Процедура п(а, б в) КонецПроцедуры", "Перем а Перем б;", "а = (б;", "~м 1", "&НаКлиенте а();", "Для а = 1 Цикл", "а = Новый ;", "а. Если 1;", "Попытка", "а = ?(1, 2);", "Возврат 1 2;", "\"с\n|д\"", "а <> = б"}

func init() {
	register("C02", func(r *eng.Run) {
		tokenTree(r, "token sequences", alphabet, oneSpace, r.Bound(4, 5), sameVerdict)
		edits(r, "edited sentences", gen.Sentences, 1, oneSpace, sameVerdict)
		edits(r, "edited programs", gen.Programs, 1, oneSpace, sameVerdict)
		visitAll(r, "phrases in sentences", phraseEdits(gen.Sentences, r.Bound(2, 4)), texts(sameVerdict))
		edits(r, "twice edited sentences", short(r.Bound(5, 12)), 2, oneSpace, sameVerdict)
		tokenGraph(r, "configurations", alphabet, oneSpace, r.Bound(5, 7), 99, 1, 1<<20, sameVerdict)
		tokenGraph(r, "shallow configurations", alphabet, oneSpace, r.Bound(12, 40), r.Bound(5, 6), 1, 1<<20, sameVerdict)
		for _, s := range variations(r) {
			visitAll(r, s.name, s.gen, texts(sameVerdict))
		}
		for _, s := range []space{{"words in expressions", gen.Words(gen.ExprWordHosts)}, {"words in statements", gen.Words(gen.StmtWordHosts)}, {"words in declarations", gen.Words(gen.DeclWordHosts)}, {"literals in places", gen.InHosts(gen.LiteralHosts, gen.Literals)}, {"two names made one", sameNames()}, {"values of jumps", gen.Returns(1)}, {"jumps", gen.Jumps(3)}} {
			visitAll(r, s.name, s.gen, texts(sameVerdict))
		}
		visitAll(r, "edited sentences behind a lead", ledEdits, texts(sameVerdict))
		damaged(r, "damaged lengths", around(r.Bound(6, 40), r.Bound(256, 1024)), gen.Lengths, sameVerdict)
		damaged(r, "damaged depths", around(r.Bound(6, 40), r.Bound(256, 512)), gen.Depths, sameVerdict)
	})
	register("C06", func(r *eng.Run) {
		tokenTree(r, "statement contexts", ctxAlphabet, oneSpace, r.Bound(5, 6), completed)
		tokenGraph(r, "context configurations", ctxAlphabet, oneSpace, r.Bound(6, 7), 99, 2, 1<<20, completed)
		rules := []string{"break", "continue", "retval", "rethrow", "return", "throw", "assign"}
		trees(r, "statements out of context", gen.Stmts{Budget: r.Bound(4, 5), Leaves: rules[:4], Nests: gen.AllNests, Free: true, Seps: 1}.Blocks())
		trees(r, "statements of every kind out of context", gen.Stmts{Budget: 3, Leaves: rules, Nests: gen.AllNests, Free: true, Seps: 3}.Blocks())
		trees(r, "rules in nested constructs", gen.Rules(r.Bound(4, 5), []string{"Прервать;", "Продолжить;", "ВызватьИсключение;", "Возврат 1;", "Возврат;", `ВызватьИсключение "а";`}))
		visitAll(r, "rules and declarations", ruleDecls(r.Bound(1, 2)), texts(sameVerdict))
		visitAll(r, "values of jumps", gen.Returns(r.Bound(2, 3)), texts(sameVerdict))
		visitAll(r, "jumps in a row", gen.Jumps(r.Bound(4, 5)), texts(sameVerdict))
		rulesAt(r, "rules at any depth", around(r.Bound(40, 130), 1024))
		for _, s := range variations(r) {
			visitAll(r, s.name, s.gen, texts(sameVerdict))
		}
	})
	register("C07", func(r *eng.Run) {
		tokenTree(r, "module layouts", layoutAlphabet, oneSpace, r.Bound(5, 6), completed)
		tokenGraph(r, "layout configurations", layoutAlphabet, oneSpace, r.Bound(9, 12), 99, 2, 1<<20, completed)
		sizes(r, "layouts of any size", r.Bound(130, 300), around(0, 1024)[1:], gen.Layouts, texts(sameVerdict))
		visitAll(r, "repeated names", repeatedNames(r.Bound(3, 4)), texts(sameVerdict))
		visitAll(r, "two declarations", gen.Decls(2), texts(sameVerdict))
		for _, s := range variations(r) {
			visitAll(r, s.name, s.gen, texts(sameVerdict))
		}
	})
	register("C13", func(r *eng.Run) {
		tokenTree(r, "token sequences", alphabet, seps13, r.Bound(4, 5), errorPlace)
		edits(r, "edited sentences", gen.Sentences, 1, seps13, errorPlace)
		edits(r, "edited programs", gen.Programs, 1, seps13, errorPlace)
		visitAll(r, "phrases in sentences", phraseEdits(gen.Sentences, r.Bound(1, 3)), texts(errorPlace))
		visitAll(r, "blanks behind a text that ends too early", func(c *eng.Ch) string {
			l := spell(eng.One(c, append(append([]string{}, gen.Sentences...), faults13...)))
			return strings.Join(l[:c.Pick(len(l)+1)], " ") + eng.One(c, fillers13) + eng.One(c, fillers13) + eng.One(c, []string{"", "//", "#", "// к"})
		}, texts(errorPlace))
		edits(r, "twice edited sentences", short(r.Bound(5, 10)), 2, seps13, errorPlace)
		tokenGraph(r, "configurations", alphabet, seps13, r.Bound(5, 7), 99, 1, 1<<20, errorPlace)
		visitAll(r, "layout before an error", func(c *eng.Ch) string {
			t := ""
			for i := 0; i < r.Bound(2, 3); i++ {
				t += eng.One(c, pieces13)
			}
			return t + eng.One(c, faults13)
		}, texts(errorPlace))
		visitAll(r, "layout around an error", func(c *eng.Ch) string {
			return eng.One(c, pieces13) + eng.One(c, []string{"", "а = б +", "Если а Тогда", "ф(1,", "Процедура п("}) + eng.One(c, fillers13) + eng.One(c, alphabet) + eng.One(c, fillers13) + eng.One(c, []string{"", ")", "КонецЕсли", "\"с\n|д\"", "а"})
		}, texts(errorPlace))
		visitAll(r, "one gap in a text with an error", func(c *eng.Ch) string {
			l := spell(eng.One(c, faults13))
			k := c.Pick(len(l) + 1)
			return strings.Join(l[:k], " ") + eng.One(c, fillers13) + eng.One(c, fillers13) + strings.Join(l[k:], " ")
		}, texts(errorPlace))
		visitAll(r, "edited sentences behind a lead", ledEdits, texts(errorPlace))
		for _, s := range variations(r) {
			visitAll(r, s.name, s.gen, texts(errorPlace))
		}
		eng.Over(r, "any character before an error", characters(r.Bound(61, 7)), func(w *eng.W, x rune) {
			for _, h := range []string{"// %\nа б", "а(\"%\") б", "а(\"%\n|%%\", % б", "#О %\nа(;", "а('2024%0101') )", "а%б(); )", "//%%\tЕсли\n//%\n а = ;", "а(\n%) ="} {
				w.State(1)
				texts(errorPlace)(w, strings.ReplaceAll(h, "%", string(x)))
			}
		})
		damaged(r, "damaged lengths", around(r.Bound(6, 40), 256), gen.Lengths, errorPlace)
		damaged(r, "damaged depths", around(r.Bound(6, 40), 256), gen.Depths, errorPlace)
		sizes(r, "long tokens", r.Bound(60, 300), around(0, r.Bound(1<<11, 1<<13))[1:], gen.LongTokens, func(w *eng.W, s string) { texts(errorPlace)(w, s) })
		eng.Over(r, "far places", append(around(r.Bound(300, 1000), 1<<r.Bound(14, 17)), 65535, 65536, 65537, 100000), func(w *eng.W, n int) {
			for _, f := range []string{"%\nЕсли;", "//%\nа = ;", "а = 1;%Если;", "р = \"%\" );", "а(); /*", "#%\nа(;", "а%(;", "р = \"а% ж\" 1", "// к%\tЕсли;"} {
				for _, x := range []string{"\n", " ", "ж", "\r\n", "\t", "\n|", "😀", "\n//к", ";"} {
					if s := strings.Replace(f, "%", strings.Repeat(x, n), 1); s != f {
						w.State(1)
						texts(errorPlace)(w, s)
					}
				}
			}
		})
	})
}
