package main

import (
	"strconv"
	"strings"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
	"verifmc/ref"
)

// what the answer for a broken rule says; a mark stands for one rule only
var ruleSays = map[string]string{"jump": "inside a loop", "throw": "handling an exception", "return": "cannot return a value", "dup-global": "already been defined", "dup-local": "already been defined",
	"var-after-func": "beginning of the module", "colon": "semicolon (;) is expected"}

// reason: a text whose tokens form sentences but break rules is answered with one of the rules it breaks, the word
// or name that breaks it and a place in that statement.
func reason(w *eng.W, t text) {
	if t.res.Syntax >= 0 || len(t.res.Rules) == 0 {
		w.Outcome("no rule broken")
		return
	}
	w.Input(t.src)
	got := impl.Parse(t.src)
	w.Trace()
	if got.Panic != "" || got.Err == nil {
		w.Fail("accepted, the model finds %v %s", t.res.Rules, got.Panic)
		return
	}
	e := got.Err.Error()
	m := posRe.FindStringSubmatch(e)
	if m == nil {
		w.Fail("no position in %q", e)
		return
	}
	gl, _ := strconv.Atoi(m[1])
	gc, _ := strconv.Atoi(m[2])
	lit, _ := strconv.Unquote(m[3])
	head := e[:strings.Index(e, m[0])]
	for i := len(t.res.Rules) - 1; i >= 0; i-- {
		k := t.res.Rules[i]
		if !strings.Contains(head, ruleSays[k.Name]) || k.Word != "" && !strings.Contains(head, strconv.Quote(k.Word)) {
			continue
		}
		end := k.End
		if end == 0 {
			end = len(t.toks)
		}
		for j := k.Tok; j <= end && j < len(t.toks); j++ {
			line, col := ref.LineCol(t.src, t.toks[j].Start)
			if line == gl && col == gc && lit == t.toks[j].Lit {
				w.Outcome("rule " + k.Name)
				return
			}
		}
	}
	w.Fail("the broken rules are %v, the answer is %q", t.res.Rules, e)
}

// ruled turns a text check into one that also closes what the text leaves open.
func ruled(w *eng.W, t text) {
	reason(w, t)
	if src := closing(t); src != t.src {
		reason(w, look(src, false))
	}
}

func init() {
	register("C26", func(r *eng.Run) {
		tokenTree(r, "statement contexts", ctxAlphabet, oneSpace, r.Bound(5, 6), ruled)
		tokenTree(r, "module layouts", layoutAlphabet, oneSpace, r.Bound(5, 6), ruled)
		tokenGraph(r, "context configurations", ctxAlphabet, oneSpace, r.Bound(5, 7), 99, 2, 1<<20, ruled)
		rules := []string{"Прервать;", "Продолжить;", "ВызватьИсключение;", "Возврат 1;", "ПРЕРВАТЬ;", "возврат (1, 2)", "вызватьИсключение", "Возврат ?(а, 1, б.в())\n", "прерватЬ : "}
		visitAll(r, "rules in nested constructs", gen.Rules(r.Bound(3, 4), rules), texts(reason))
		visitAll(r, "rules and declarations", ruleDecls(1), texts(reason))
		visitAll(r, "values of jumps", gen.Returns(r.Bound(2, 3)), texts(reason))
		visitAll(r, "layout around a broken rule", func(c *eng.Ch) string {
			return eng.One(c, pieces13) + eng.One(c, append([]string{"Перем а, а;", "Процедура п() Перем б; Перем г, б; КонецПроцедуры", "Процедура п() КонецПроцедуры &НаКлиенте Перем в;", "а() : б();", "Перем Ё_1; Перем я, Ё_1 Экспорт;"}, rules...)) + eng.One(c, append(pieces13, "а(", "а();", "Если а Тогда КонецЕсли"))
		}, texts(reason))
		visitAll(r, "one gap in a text with a broken rule", func(c *eng.Ch) string {
			l := spell(eng.One(c, []string{"Если а Тогда Прервать; КонецЕсли", "а(); Продолжить", "ВызватьИсключение; а();", "Процедура п() Возврат -1.5; КонецПроцедуры", "Возврат \"с\"", "Перем а; Перем б, а;", "Функция ф() Перем а; Перем б, а; КонецФункции", "Процедура п() КонецПроцедуры Перем а, б;", "а() : б()"}))
			k := c.Pick(len(l) + 1)
			return strings.Join(l[:k], " ") + eng.One(c, fillers13) + eng.One(c, pieces13) + strings.Join(l[k:], " ")
		}, texts(reason))
		visitAll(r, "repeated names", repeatedNames(r.Bound(3, 4)), texts(reason))
		eng.Over(r, "any character before a broken rule", characters(r.Bound(61, 7)), func(w *eng.W, x rune) {
			for _, h := range []string{"// %\nПрервать;", "а(\"%\n|%\"); Возврат 1;", "#О %\n ВызватьИсключение;", "а('2024%0101') : б()", "//%\nПерем а%; //%\nПерем а%; Перем б, а%;"} {
				w.State(1)
				t := strings.ReplaceAll(h, "%", string(x))
				if _, le := ref.Lex(t); le == nil {
					reason(w, look(t, false))
				}
			}
		})
		eng.Over(r, "long names", append(around(r.Bound(700, 3000), 1024)[1:], 4096, 65535, 65536, 65537), func(w *eng.W, n int) {
			for _, x := range []string{"ю", "Ю", "x", "_1"} {
				a := "а" + strings.Repeat(x, n-1)
				for _, h := range []string{"Перем %, %;", "Перем а; Перем % Экспорт; Перем %;", "Процедура %() Перем %; Перем б, %; КонецПроцедуры", "Процедура п() КонецПроцедуры Перем %, б;", "%() : %()", "%(%); Прервать;", "Функция %(%) Перем %; КонецФункции Возврат %;"} {
					w.State(1)
					reason(w, look(strings.ReplaceAll(h, "%", a), false))
				}
			}
		})
		for _, s := range variations(r) {
			visitAll(r, s.name, s.gen, texts(reason))
		}
		sizes(r, "layouts of any size", r.Bound(40, 130), around(0, 512)[1:], gen.Layouts, texts(reason))
	})
}
