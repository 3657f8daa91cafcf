package main

import (
	"math/big"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
	"verifmc/ref"
)

// characters of the language: every class the lexer distinguishes, plus characters that belong to none
var chars = []string{"а", "Я", "x", "_", "0", "7", ".", "\"", "'", " ", "\n", "\r", "\t", "/", "#", "|", "&", "~",
	"(", ")", "[", "]", ";", ":", "=", "<", ">", "-", "+", ",", "*", "?", "%", "!", "\x80", "\xd0", "😀", "№", "\x00", "и", "Ё", "ñ", "²", "\ufeff", "\u00a0", "{", "٢", "２", "\u0301", "ʼ"}

func charStrings(n int, alpha []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			k := c.Pick(len(alpha) + 1)
			if k == 0 {
				break
			}
			b.WriteString(alpha[k-1])
		}
		return b.String()
	}
}

type source struct{ s string }

func (s source) SrsCode() string { return s.s }

// kind numbers of the implementation
var implKind = func() map[ref.Kind]int {
	m := map[ref.Kind]int{ref.Num: ast.Number, ref.Str: ast.String, ref.Date: ast.Date, ref.Dir: ast.Directive, ref.Label: ast.GoToLabel,
		ref.Eq: ast.EQUAL, ref.Ne: ast.NeEQ, ref.Le: ast.LE, ref.Ge: ast.GE,
		ref.Lt: '<', ref.Gt: '>', ref.Plus: '+', ref.Minus: '-', ref.Mul: '*', ref.Div: '/', ref.Mod: '%', ref.LPar: '(', ref.RPar: ')',
		ref.LBr: '[', ref.RBr: ']', ref.Comma: ',', ref.Semi: ';', ref.Colon: ':', ref.Dot: '.', ref.Quest: '?'}
	for i, k := range []int{ast.Procedure, ast.Var, ast.GoTo, ast.EndProcedure, ast.ValueParam, ast.If, ast.Then, ast.ElseIf, ast.Else,
		ast.EndIf, ast.For, ast.Each, ast.In, ast.To, ast.Loop, ast.EndLoop, ast.Break, ast.Continue, ast.Try, ast.New, ast.Catch, ast.While,
		ast.EndTry, ast.Function, ast.EndFunction, ast.Return, ast.Throw, ast.And, ast.OR, ast.True, ast.False, ast.Undefind, ast.Not,
		ast.Export, ast.Execute} {
		m[ref.KProc+ref.Kind(i)] = k
	}
	var t ast.Token
	m[ref.Ident], _ = t.Next(source{"имя"})
	return m
}()

// tiles: the tokens follow one another and cover the text up to blanks and comments.
func tiles(w *eng.W, src string) {
	w.Input(src)
	want, le := ref.Lex(src)
	w.Trace()
	msg := impl.Protect(func() {
		var t ast.Token
		s := source{src}
		for i := 0; ; i++ {
			k, err := t.Next(s)
			if i == len(want) {
				if le != nil {
					if err == nil {
						w.Fail("token %d: malformed text %q is read as token %d", i, src[le.At:], k)
					}
					w.Outcome("malformed")
					return
				}
				if err != nil || k != ast.EOF {
					w.Fail("token %d: end of text expected, got %d, %v", i, k, err)
				}
				for j := 0; j < 2; j++ {
					if k, err = t.Next(s); k != ast.EOF || err != nil {
						w.Fail("token %d, %v after the end of text", k, err)
					}
				}
				w.Outcome("tokens " + strconv.Itoa(min(len(want), 4)))
				return
			}
			if err != nil {
				w.Fail("token %d: %q expected, got error %v", i, src[want[i].Start:want[i].End], err)
				return
			}
			if i > 1 && want[i-1].Kind == ref.Dot && want[i-2].Kind == ref.Dot && want[i].Kind == ref.Ident {
				w.Outcome("word after two dots") // in no program; whether it is a keyword is left open
				want[i].Kind = ref.KNot
				k = implKind[ref.KNot]
			}
			if k != implKind[want[i].Kind] {
				w.Fail("token %d: %q (kind %d) expected, got kind %d", i, src[want[i].Start:want[i].End], implKind[want[i].Kind], k)
				return
			}
			next := len(src)
			if i+1 < len(want) {
				next = want[i+1].Start
			} else if le != nil {
				next = le.At
			}
			p := t.GetPosition()
			l1, c1 := ref.LineCol(src, want[i].End)
			l2, c2 := ref.LineCol(src, next)
			if p.Line < l1 || p.Line > l2 || p.Line == l1 && p.Column < c1+1 || p.Line == l2 && p.Column > c2+1 {
				w.Fail("token %d %q: position %v is outside [%d:%d, %d:%d]", i, src[want[i].Start:want[i].End], p, l1, c1+1, l2, c2+1)
				return
			}
		}
	})
	if msg != "" {
		w.Fail("%s", msg)
	}
}

func visitAll(r *eng.Run, name string, g func(*eng.Ch) string, check func(*eng.W, string)) {
	eng.Explore(r, name, g, func(w *eng.W, s string) {
		if w.Visit(s) {
			check(w, s)
		}
	})
}

func conform1(w *eng.W, s string) { conform(w, s) }

// cased lists the runes that have another case or letter shape.
func cased(wide bool) []rune {
	var l []rune
	for r := rune(128); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		f := unicode.SimpleFold(r)
		if f != r || unicode.ToLower(r) != r || unicode.ToUpper(r) != r {
			if wide || cyr(r) || cyr(f) || cyr(unicode.SimpleFold(f)) || cyr(unicode.ToLower(r)) || cyr(unicode.ToUpper(r)) {
				l = append(l, r)
			}
		}
	}
	return append(l, []rune("aceopxyuAEKMHOPCTXBy01_ḿ")...)
}

func cyr(r rune) bool { return r >= 0x400 && r < 0x530 }

// keywordHost are programs that use every keyword; the keyword is replaced by another spelling of it.
var keywordHost = map[string]string{
	"процедура": "процедура а() конецпроцедуры", "конецпроцедуры": "процедура а() конецпроцедуры",
	"перем": "перем а;", "перейти": "перейти ~а", "знач": "процедура а(знач б) конецпроцедуры",
	"если": "если а тогда б() конецесли", "тогда": "если а тогда б() конецесли",
	"иначеесли": "если а тогда б() иначеесли в тогда г() конецесли", "иначе": "если а тогда б() иначе г() конецесли",
	"конецесли": "если а тогда б() конецесли", "для": "для а = 1 по 2 цикл конеццикла", "каждого": "для каждого а из б цикл конеццикла",
	"из": "для каждого а из б цикл конеццикла", "по": "для а = 1 по 2 цикл конеццикла", "цикл": "пока а цикл конеццикла",
	"конеццикла": "пока а цикл конеццикла", "прервать": "пока а цикл прервать конеццикла", "продолжить": "пока а цикл продолжить конеццикла",
	"попытка": "попытка а() исключение конецпопытки", "новый": "а = новый б", "исключение": "попытка а() исключение конецпопытки",
	"пока": "пока а цикл конеццикла", "конецпопытки": "попытка а() исключение конецпопытки",
	"функция": "функция а() возврат 1 конецфункции", "конецфункции": "функция а() возврат 1 конецфункции",
	"возврат": "функция а() возврат 1 конецфункции", "вызватьисключение": "вызватьисключение а",
	"и": "а = б и в", "или": "а = б или в", "истина": "а = истина", "ложь": "а = ложь", "неопределено": "а = неопределено",
	"не": "а = не б", "экспорт": "перем а экспорт;", "выполнить": "выполнить(а)",
}

// replaceWord replaces the whole word w of a program.
func replaceWord(src, w, by string) string {
	toks, _ := ref.Lex(src)
	var b strings.Builder
	p := 0
	for _, t := range toks {
		if src[t.Start:t.End] == w {
			b.WriteString(src[p:t.Start] + by)
			p = t.End
		}
	}
	return b.String() + src[p:]
}

// cases enumerates spellings of a word: all of them for a short word, else all with few or regular changes.
func cases(c *eng.Ch, w string, full int) string {
	rs := []rune(w)
	up := []rune(ref.Upper(w))
	n := len(rs)
	if n <= full {
		for i := range rs {
			if c.Bool() {
				rs[i] = up[i]
			}
		}
		return string(rs)
	}
	base := c.Pick(4)
	for i := range rs {
		if base == 1 || base == 2 && i%2 == 0 || base == 3 && i%2 == 1 {
			rs[i] = up[i]
		}
	}
	for k := 0; k < 2; k++ {
		i := c.Pick(n + 1)
		if i < n {
			if rs[i] == up[i] {
				rs[i] = []rune(w)[i]
			} else {
				rs[i] = up[i]
			}
		}
	}
	return string(rs)
}

var dirHosts = []string{"% процедура а() конецпроцедуры", "% перем а;", "перем б; % функция а() возврат 1 конецфункции"}

// sameAs: both spellings give the same program up to the case of names that the tree keeps.
func sameAs(w *eng.W, base, variant string) {
	_, _, ok := conform(w, variant)
	if !ok {
		return
	}
	b := impl.Parse(base)
	v := impl.Parse(variant)
	if b.Err != nil || v.Err != nil {
		w.Fail("%q: %v; %q: %v", base, b.Err, variant, v.Err)
		return
	}
	if x, y := ref.Lower(b.Tree().String()), ref.Lower(v.Tree().String()); x != y {
		w.Fail("another spelling changes the program: %s", diff(x, y))
	}
}

var trivia = []string{"", " ", "\n", "\r\n", "\t", "  \n\t ", "//\n", "// к\n", " // а = 1; \"\n", "\n#Область О\n", "#Если Сервер Тогда\n", "#\n", "//к\n//л\n", "//к\n#О\n", "#О\n//к\n",
	"#О\n#П\n", "#О\n\n//к\n \n#П\n//л\r\n\t", "//к\n\n\n//л\n\n", "///\n", "//к//л\n", "\r", "// '\n", "// |\n", "//к\r\n", "#О // к\n", "//😀\x80\n",
	"// к\rб();\n", "#О\rб();\n", "//\r\r\n", "\r//\r\n", "// к\u2028л\n", "//к\n \r#О\n\r//л\n", "\n\r", "\n\n\n\n", "// \\\n", "//*\n", "#О \"\n", "#\n#\n#\n"}

// gaps explores, for each base, one gap between tokens (or two) filled with blanks and comments of every form.
func gaps(r *eng.Run, name string, bases []string, two bool, check func(*eng.W, [2]string)) {
	toks := make([][]string, len(bases))
	for i := range bases {
		toks[i] = spell(bases[i])
	}
	eng.Explore(r, name, func(c *eng.Ch) [2]string {
		k := c.Pick(len(bases))
		l := toks[k]
		i := c.Pick(len(l) + 1)
		ti := eng.One(c, trivia)
		j, tj := -1, ""
		if two {
			j = i + 1 + c.Pick(len(l)+1-i)
			if j <= len(l) {
				tj = eng.One(c, trivia)
			}
		}
		var b strings.Builder
		for x := 0; x <= len(l); x++ {
			switch {
			case x == i:
				b.WriteString(ti)
			case x == j:
				b.WriteString(tj)
			case x > 0 && x < len(l):
				b.WriteString(" ")
			}
			if x < len(l) {
				b.WriteString(l[x])
			}
		}
		return [2]string{strings.Join(l, " "), b.String()}
	}, func(w *eng.W, v [2]string) {
		if w.Visit(v[1]) {
			check(w, v)
		}
	})
}

// fill gives the same program with one and the same filler in every gap.
func fill(l []string, t string) string { return t + strings.Join(l, t) + t }

func sameTokens(a, b string) bool {
	x, e1 := ref.Lex(a)
	y, e2 := ref.Lex(b)
	if e1 != nil || e2 != nil || len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].Kind != y[i].Kind || x[i].Lit != y[i].Lit {
			return false
		}
	}
	return true
}

// layoutFree: a different layout of the same tokens gives the same tree.
func layoutFree(w *eng.W, v [2]string) {
	w.Input(v[1])
	if !sameTokens(v[0], v[1]) { // the filler glued two tokens together
		w.Outcome("glued")
		conform(w, v[1])
		return
	}
	if _, _, ok := conform(w, v[1]); !ok {
		return
	}
	a, b := impl.Parse(v[0]), impl.Parse(v[1])
	if x, y := a.Tree().String(), b.Tree().String(); x != y {
		w.Fail("layout changes the tree: %s", diff(x, y))
	}
}

var strParts = []string{"а", "x", " ", `""`, "'", "\n|", "\n \t|", "\n//к\n|", "\n // \"к\n\t// л\n  |", "//", ";", "|", "\t", "#", "\r\n|", "😀", `\`, "&", "~", "%s", "\n||", "ё", "0", "\n#О\n|", "\n//к\n #О\n|", "\n", "\n// |\n"}
var strHosts = []string{"р = \"%\";", "ф(\"%\", 1)", "Процедура п(а = \"%\") КонецПроцедуры", "Выполнить \"%\"", "а[\"%\"] = \"%\" + б; в()", "ВызватьИсключение \"%\"", "р = \"%\" \"%\";", "р = \"%\"\n\"%\" + 1", "\"%\"", "Если а = \"%\" Тогда КонецЕсли"}

// longContents gives string literals of any length, whatever they begin and end with.
func longContents(ns []int, hosts ...string) func(*eng.Ch) string {
	parts := append([]string{"", "\v", "\u00a0", "  ", "\t\t"}, strParts...)
	return func(c *eng.Ch) string {
		h := eng.One(c, hosts)
		n := eng.One(c, ns)
		a, z := eng.One(c, parts), eng.One(c, parts)
		f := eng.One(c, []string{"ж", "x", "ж ", "x\t", `""`})
		return strings.ReplaceAll(h, "%", a+strings.Repeat(f, n)+z)
	}
}

func init() {
	register("C08", func(r *eng.Run) {
		eng.Explore(r, "keyword spellings", func(c *eng.Ch) [2]string {
			k := eng.One(c, ref.Keywords)
			h := keywordHost[k]
			return [2]string{h, replaceWord(h, k, cases(c, k, r.Bound(13, 17)))}
		}, func(w *eng.W, v [2]string) {
			if w.Visit(v[1]) {
				sameAs(w, v[0], v[1])
			}
		})
		eng.Explore(r, "directive spellings", func(c *eng.Ch) [2]string {
			h := eng.One(c, dirHosts)
			d := eng.One(c, ref.Directives)
			return [2]string{strings.Replace(h, "%", d, 1), strings.Replace(h, "%", cases(c, d, r.Bound(12, 15)), 1)}
		}, func(w *eng.W, v [2]string) {
			if w.Visit(v[1]) {
				sameAs(w, v[0], v[1])
			}
		})
		alike := cased(!r.Quick())
		words := append(append([]string{}, ref.Keywords...), "&наклиенте", "&насервере")
		visitAll(r, "near keywords", func(c *eng.Ch) string {
			k := eng.One(c, words)
			rs := []rune(k)
			i := 0
			switch c.Pick(4) {
			case 0: // a letter of another alphabet or shape
				i = c.Pick(len(rs))
				rs[i] = eng.One(c, alike)
			case 1: // a letter less
				i = c.Pick(len(rs))
				rs = append(rs[:i:i], rs[i+1:]...)
			case 2: // a letter more
				i = c.Pick(len(rs) + 1)
				x := eng.One(c, []rune("аяёЁx_17e"))
				rs = append(append(append([]rune{}, rs[:i]...), x), rs[i:]...)
			case 3: // two letters swapped
				i = c.Pick(len(rs))
				if i+1 < len(rs) {
					rs[i], rs[i+1] = rs[i+1], rs[i]
				}
			}
			x := string(rs)
			if strings.HasPrefix(k, "&") {
				return x + " перем а;"
			}
			return eng.One(c, []string{x + " = 1;", "а = " + x + ";", x + "(); б = " + x + "." + x, "процедура " + x + "(" + x + ") перем " + x + "; конецпроцедуры"})
		}, conform1)
		ends := []string{"_", "1", "0", "а", "ё", "x", "X", "Ь", "\u0301", "\u00ad", "\u200d", "²", "№", "$", "-"}
		visitAll(r, "words around keywords", func(c *eng.Ch) string {
			x := eng.One(c, words)
			for i := 0; i < 3; i++ {
				k := c.Pick(2*len(ends) + 1)
				switch {
				case k == 0:
					i = 3
				case k <= len(ends):
					x += ends[k-1]
				default:
					if strings.HasPrefix(x, "&") {
						x = "&" + ends[k-1-len(ends)] + x[1:]
					} else {
						x = ends[k-1-len(ends)] + x
					}
				}
			}
			if strings.HasPrefix(x, "&") {
				return x + " перем а;"
			}
			return eng.One(c, []string{x + " = 1;", "а = " + x + ";"})
		}, conform1)
		eng.Over(r, "keywords lengthened", upto(r.Bound(40, 300)), func(w *eng.W, n int) {
			for _, k := range words {
				rs := []rune(k)
				for _, x := range []string{"_", "0", "а", "x", string(rs[len(rs)-1]), string(rs[1:])} {
					t := k + strings.Repeat(x, n) + " = 1;"
					if k[0] == '&' {
						t = k + strings.Repeat(x, n) + " перем а;"
					}
					w.State(1)
					conform(w, t)
				}
			}
		})
		var letters []rune
		for x := rune(0); x <= unicode.MaxRune; x++ {
			if x >= 0xd800 && x < 0xe000 {
				continue
			}
			if unicode.IsLetter(x) || x < 0x3000 || x%257 == 0 {
				letters = append(letters, x)
			}
		}
		eng.Over(r, "characters", letters, func(w *eng.W, x rune) {
			w.State(1)
			conform(w, string(x)+" = 1;")
			conform(w, "а"+string(x)+"б = 1;")
		})
		modes := []func(i int, s string) string{
			func(i int, s string) string { return ref.Upper(s) },
			func(i int, s string) string { return ref.Lower(s) },
			func(i int, s string) string {
				rs := []rune(ref.Lower(s))
				return ref.Upper(string(rs[:1])) + string(rs[1:])
			},
			func(i int, s string) string {
				rs := []rune(ref.Lower(s))
				return string(rs[:len(rs)-1]) + ref.Upper(string(rs[len(rs)-1:]))
			},
			func(i int, s string) string {
				if i%2 == 0 {
					return ref.Upper(s)
				}
				return ref.Lower(s)
			},
		}
		eng.Explore(r, "every word of a program", func(c *eng.Ch) [2]string {
			s := eng.One(c, append(append(append([]string{}, gen.Sentences...), gen.Programs...), gen.Large))
			m := modes[c.Pick(len(modes))]
			l := spell(s)
			from, to := 0, len(l)
			if len(l) > 0 && len(l) < 60 { // or a run of words only
				from = c.Pick(len(l))
				to = from + 1 + c.Pick(len(l)-from)
			}
			v := append([]string(nil), l...)
			for i := from; i < to; i++ {
				if k, _ := ref.Lex(l[i]); len(k) == 1 && (k[0].Kind >= ref.KProc || k[0].Kind == ref.Dir) {
					v[i] = m(i, l[i])
				}
			}
			return [2]string{strings.Join(l, " "), strings.Join(v, " ")}
		}, func(w *eng.W, v [2]string) {
			if w.Visit(v[1]) {
				if _, _, ok := conform(w, v[0]); ok {
					sameAs(w, v[0], v[1])
				}
			}
		})
		names := []string{"Если1", "_Если", "Ёлка", "ёж", "ИИ", "ИлиНе", "НеИ", "Истинно", "ложьь", "Процедур", "Ёи", "Новыйй", "ПоИз", "цикл_", "е", "Нет", "Дляя", "if", "then", "procedure", "var", "not", "and", "or", "true", "new", "export", "ИзЦикл", "выполнит", "вычислить", "Массив", "Структура"}
		visitAll(r, "words in expressions", gen.Words(gen.ExprWordHosts), conform1)
		visitAll(r, "words in statements", gen.Words(gen.StmtWordHosts), conform1)
		visitAll(r, "words in declarations", gen.Words(gen.DeclWordHosts), conform1)
		visitAll(r, "names", func(c *eng.Ch) string {
			x := eng.One(c, names)
			if c.Bool() {
				x = ref.Upper(x)
			}
			return strings.ReplaceAll(eng.One(c, []string{"% = 1;", "% ();", "а = %.%(%);", "Процедура %(%, Знач % = 1) Перем %; КонецПроцедуры", "~%: Перейти ~%", "Для Каждого % Из % Цикл КонецЦикла", "Новый %"}), "%", x)
		}, conform1)
	})
	register("C09", func(r *eng.Run) {
		gaps(r, "one gap in sentences", gen.Sentences, false, layoutFree)
		gaps(r, "one gap in programs", gen.Programs, false, layoutFree)
		gaps(r, "two gaps in sentences", short(r.Bound(11, 60)), true, layoutFree)
		bases := append(append([]string{}, gen.Sentences...), gen.Programs...)
		eng.Explore(r, "every gap", func(c *eng.Ch) [2]string {
			l := spell(eng.One(c, bases))
			a, b := eng.One(c, trivia), eng.One(c, trivia)
			if len(l) == 0 {
				return [2]string{"", a + b}
			}
			return [2]string{strings.Join(l, " "), fill(l, a+b)}
		}, func(w *eng.W, v [2]string) {
			if w.Visit(v[1]) {
				layoutFree(w, v)
			}
		})
		pads := []string{" ", "\n", "\r\n", "\t", "// к\n", "//\n", "#О\n", "//к\n#О\n", "#О\n\n//к\n", "//к\n \n"}
		longOnes := [][2]string{{"//", "\n"}, {"// к", "\r\n"}, {"#", "\n"}, {"#О ", "\n//к\n"}}
		eng.Over(r, "gaps of any size", around(r.Bound(40, 300), 1<<r.Bound(13, 17)), func(w *eng.W, n int) {
			for _, b := range []string{"а = 1 ; б ( ) ;", "Если а Тогда б ( 1 , \"с\" ) ; КонецЕсли", "Процедура п ( а = 1 ) Перем л ; КонецПроцедуры", "а . б = 'д' ;"} {
				b = strings.Replace(b, "'д'", "'20240101'", 1)
				l := strings.Fields(b)
				for _, at := range []int{0, 1, 2, len(l) - 1, len(l)} {
					put := func(x string) {
						w.State(1)
						layoutFree(w, [2]string{b, strings.Join(l[:at], " ") + " " + x + strings.Join(l[at:], " ")})
					}
					for _, x := range pads {
						if n > 2000 && len(x) > 2 && n&(n-1) != 0 {
							continue
						}
						put(strings.Repeat(x, n))
					}
					for _, x := range longOnes {
						for _, y := range []string{"к", "/", " ", "\"", "😀"} {
							put(x[0] + strings.Repeat(y, n) + x[1])
						}
					}
				}
			}
		})
		for _, s := range []space{exprSpaces(r)[0], exprSpaces(r)[1], stmtSpaces(r)[0], declSpaces(r)[2], {"programs", programs}, {"edited sentences", editedSentences}} {
			visitAll(r, s.name+" without blanks", s.gen, tightFree)
		}
		visitAll(r, "words of preprocessor lines", preprocessor(r.Bound(2, 3)), conform1)
		eng.Over(r, "characters that may look blank", characters(r.Bound(257, 61)), func(w *eng.W, x rune) {
			for _, h := range []string{"а();%б();", "%а = 1;", "а =%1", "а(1%, 2);", "а(); %", "а();\n%\nб();", "/%/ к", "//%\nа();", "// к%а", "#%О\nа();", "#О%а();", "#О\n%б();", "а();%//к", "а();%#О"} {
				w.State(1)
				conform(w, strings.Replace(h, "%", string(x), 1))
			}
		})
		visitAll(r, "beginnings of comments", gen.CommentHeads(r.Bound(2, 3), chars), conform1)
		visitAll(r, "longer beginnings of comments", gen.CommentHeads(r.Bound(4, 5), []string{"/", "&", "#", "*", "|", "\"", " ", "а", "!", "\r"}), conform1)
		lines := []string{"#Область О", "// к", "", "  ", "#КонецОбласти", "//", "\t// \"", "#Если Не Сервер Тогда", "а();", "б = \"в\" // г", "#КонецЕсли // к", " д() /2;"}
		visitAll(r, "lines", func(c *eng.Ch) string {
			var b strings.Builder
			eol := eng.One(c, []string{"\n", "\r\n"})
			for i := 0; i < r.Bound(4, 5); i++ {
				k := c.Pick(len(lines) + 1)
				if k == 0 {
					break
				}
				b.WriteString(lines[k-1] + eol)
			}
			s := b.String()
			if c.Bool() {
				s = strings.TrimSuffix(s, eol)
			}
			return s
		}, conform1)
	})
	register("C10", func(r *eng.Run) {
		hosts := []string{"а.% = б", "а = б.%", "а.%()", "а = б.%(1).в", "а = б.%[1]", "а.%.% = 1", "а.б.%.в()", "Если а.% Тогда б() КонецЕсли", "а = б.% И в.%", "а = Не б.%", "Для Каждого а Из б.% Цикл КонецЦикла",
			"Пока а.%() Цикл б() КонецЦикла", "Функция а() Возврат б.% КонецФункции", "а(б.%, в)", "а[б.%].% = 1", "а = ?(б.%, в.%, г)", "а() .% = 1", "а = 1.5; б.% = 2", "а = б.% ; Если в Тогда г() КонецЕсли", "Выполнить(а.%)", "а = Новый Б(в.%)"}
		dots := []string{"", " ", "\n", "// к\n", "\n#О\n//к\n", "\t\r\n "}
		eng.Explore(r, "member names", func(c *eng.Ch) string {
			h := eng.One(c, hosts)
			k := eng.One(c, ref.Keywords)
			switch c.Pick(4) {
			case 1:
				k = ref.Upper(k)
			case 2:
				k = ref.Upper(k[:2]) + k[2:]
			case 3:
				k = k[:len(k)-2] + ref.Upper(k[len(k)-2:])
			}
			k2 := k
			if c.Bool() {
				k2 = eng.One(c, ref.Keywords)
			}
			h = strings.Replace(h, "%", k, 1)
			h = strings.ReplaceAll(h, "%", k2)
			return strings.ReplaceAll(h, ".", "."+eng.One(c, dots))
		}, func(w *eng.W, s string) {
			if w.Visit(s) {
				conform(w, s)
				tightFree(w, s+";")
			}
		})
		// the same words at places where they stay keywords
		visitAll(r, "keywords elsewhere", func(c *eng.Ch) string {
			k := eng.One(c, ref.Keywords)
			return strings.ReplaceAll(eng.One(c, []string{"% = 1", "а.б % = 1", "а = %", "а.б() %", "а. б.в % г", "а = б.в; %", "а[1.] %", "а = 1. %", "а(.%)", "%.%", "а.%.б %", "Процедура %() КонецПроцедуры", "а = Новый %", "Для Каждого % Из б Цикл КонецЦикла",
				"а.5 %", "а.%; %", "а.% %"}), "%", k)
		}, conform1)
		for _, s := range variations(r) {
			trees(r, s.name, s.gen)
		}
		// a keyword in its own meaning right after every kind of operand or separator
		visitAll(r, "keywords behind operands", func(c *eng.Ch) string {
			o := eng.One(c, gen.OperandTexts)
			b := eng.One(c, dots)
			return strings.ReplaceAll(strings.ReplaceAll(eng.One(c, []string{"а = %@И б;", "Если %@Тогда б(); КонецЕсли;", "Пока %@Цикл КонецЦикла;", "Для а = %@По %@Цикл КонецЦикла;", "Для Каждого а Из %@Цикл КонецЦикла", "Функция ф() Возврат %@КонецФункции", "Если а Тогда б = %@ИначеЕсли в Тогда г = %@Иначе д = %@КонецЕсли",
				"Попытка а = %@Исключение б = %@КонецПопытки;", "а = %@Или %@", "а = %;@Если б Тогда КонецЕсли", "Процедура п(а = %@, Знач б) Экспорт КонецПроцедуры", "а = %@.Если", "а = б[%@].Не", "ф(%@, Не а)"}), "%", o), "@", b+" ")
		}, conform1)
		eng.Over(r, "gaps of any size around a dot", around(r.Bound(20, 70), r.Bound(512, 8192)), func(w *eng.W, n int) {
			for _, x := range []string{" ", "\n", "\r\n", "\t", "//\n", "// Если\n", "#О\n", "\n\n//к\n"} {
				g := strings.Repeat(x, n)
				for _, k := range []string{"Если", "И", "Не", "Истина", "КонецЕсли", "Новый", "б"} {
					for _, h := range []string{"а.@% = 1;", "а@.% = 1;", "р = а.б@.@%(1) И в;", "Если а.@%@Тогда в.% = 1 КонецЕсли;", "р = а.@%@%", "р = а @% б", "%@.%"} {
						w.State(1)
						conform(w, strings.ReplaceAll(strings.ReplaceAll(h, "%", k), "@", g))
					}
				}
			}
		})
		visitAll(r, "chains of member names", func(c *eng.Ch) string {
			t := "а"
			for i := 0; i < r.Bound(3, 4); i++ {
				t += eng.One(c, []string{".", " . ", ".\n// к\n"}) + eng.One(c, []string{"Если", "И", "б", "НЕ", "Процедура"}) + eng.One(c, []string{"", "[1]", "(Истина)", "(а.Не)"})
			}
			return eng.One(c, []string{t + ";", "р = " + t + " И " + t + ";", "Если " + t + " Тогда КонецЕсли"})
		}, conform1)
	})
	register("C11", func(r *eng.Run) {
		str := func(n int) func(*eng.Ch) string {
			return func(c *eng.Ch) string {
				h := eng.One(c, strHosts)
				return strings.ReplaceAll(h, "%", charStrings(n, strParts)(c))
			}
		}
		visitAll(r, "contents in contexts", str(r.Bound(3, 4)), conform1)
		visitAll(r, "contents", func(c *eng.Ch) string { return "р = \"" + charStrings(r.Bound(4, 5), strParts)(c) + "\"" }, conform1)
		visitAll(r, "adjacent literals", func(c *eng.Ch) string {
			t := "р = "
			for i := 0; i < 3; i++ {
				if i > 0 {
					t += eng.One(c, []string{" ", "\n", "", "\t\r\n", " // к\n", "\n\n  "})
				}
				t += `"` + charStrings(1, strParts)(c) + `"`
			}
			return t + eng.One(c, []string{"", ";", " + 1", "\n", "\n;"})
		}, conform1)
		visitAll(r, "raw text after a quote", func(c *eng.Ch) string { return "р = \"" + charStrings(r.Bound(3, 4), chars)(c) + "\";" }, conform1)
		var runes []rune
		for x := rune(1); x <= unicode.MaxRune; x++ {
			if (x < 0xd800 || x > 0xdfff) && x != '\n' && x != '"' && (x < 0x3000 || x%61 == 0) {
				runes = append(runes, x)
			}
		}
		eng.Over(r, "characters", runes, func(w *eng.W, x rune) {
			w.State(1)
			conform(w, "р = \"а"+string(x)+"б"+string(x)+"\";")
		})
		visitAll(r, "ends of long contents", longContents(around(2, r.Bound(1<<11, 1<<13)), "р = \"%\";"), conform1)
		eng.Over(r, "lengths", upto(r.Bound(600, 3000)), func(w *eng.W, n int) {
			w.State(1)
			conform(w, "р = \""+strings.Repeat("ж", n)+"\"; ф(\""+strings.Repeat(`""`, n)+"\")")
			conform(w, "р = \"1"+strings.Repeat("\n\t|x", n)+"\";")
		})
	})
	register("C12", func(r *eng.Run) {
		visitAll(r, "numbers", func(c *eng.Ch) string {
			s := charStrings(r.Bound(6, 7), []string{"0", "1", "5", "9", "."})(c)
			return hostNum(c, s)
		}, func(w *eng.W, s string) { number(w, s) })
		visitAll(r, "long numbers", func(c *eng.Ch) string {
			d := eng.One(c, []string{"1", "9", "0", "5", "123456789", "10", "00"})
			n := c.Pick(r.Bound(60, 320))
			f := c.Pick(r.Bound(12, 40))
			s := strings.Repeat(d, n)
			if f > 0 {
				s += "." + strings.Repeat(eng.One(c, []string{"1", "5", "9", "0"}), f-1)
			}
			return hostNum(c, s)
		}, func(w *eng.W, s string) { number(w, s) })
		visitAll(r, "long fractions", func(c *eng.Ch) string {
			s := eng.One(c, []string{"0", "1", "12", "9007199254740993", "123456789012345678901"}) + "." + strings.Repeat("0", c.Pick(r.Bound(40, 400)))
			return hostNum(c, s+strings.Repeat(eng.One(c, []string{"1", "5", "9", "12"}), c.Pick(r.Bound(26, 60))))
		}, func(w *eng.W, s string) { number(w, s) })
		eng.Over(r, "integers", upto(r.Bound(100000, 3000000)), func(w *eng.W, n int) {
			w.State(1)
			number(w, "р = "+strconv.Itoa(n)+";")
			if n < 5000 || n%97 == 0 {
				for _, h := range numHosts {
					number(w, strings.ReplaceAll(h, "%", strconv.Itoa(n)))
				}
			}
		})
		visitAll(r, "number neighbours", func(c *eng.Ch) string {
			return "р = " + eng.One(c, []string{"1", "1.", "1.5", "0", "1..2", "1.2.3", "12"}) + charStrings(2, chars)(c)
		}, conform1)
		years := []string{"0000", "0001", "0004", "0099", "0100", "0400", "1582", "1752", "1899", "1900", "1970", "1999", "2000", "2001", "2023", "2024", "2038", "2100", "2400", "9999"}
		visitAll(r, "days", func(c *eng.Ch) string {
			return "р = '" + eng.One(c, years) + two(c.Pick(20)) + two(c.Pick(40)) + eng.One(c, []string{"", "0000", "000000", "2359", "235959"}) + "';"
		}, conform1)
		visitAll(r, "times", func(c *eng.Ch) string {
			d := eng.One(c, []string{"20240229", "00010101", "19991231"})
			k := c.Pick(3)
			switch k {
			case 0:
				return "р = '" + d + two(c.Pick(30)) + two(c.Pick(70)) + "';"
			case 1:
				return "р = '" + d + two(c.Pick(30)) + two(c.Pick(70)) + eng.One(c, []string{"00", "01", "30", "59", "60", "99"}) + "';"
			default:
				return "р = '" + d + eng.One(c, []string{"00", "12", "23", "24"}) + eng.One(c, []string{"00", "59", "60"}) + two(c.Pick(70)) + "';"
			}
		}, conform1)
		visitAll(r, "digit counts", func(c *eng.Ch) string {
			d := eng.One(c, []string{"0", "1", "2", "12", "01", "20240229101112", "9", "10"})
			return hostDate(c, strings.Repeat(d, c.Pick(22)))
		}, conform1)
		visitAll(r, "date separators", func(c *eng.Ch) string {
			sep := []string{"", "٢", ".", "-", " ", ":", "а", "\n|", "\n//к\n|", "\"", "T", "/", "😀", "\n"}
			t := "р = '" + eng.One(c, sep) + "2024"
			for _, p := range []string{"02", "29", "10"} {
				t += eng.One(c, sep) + p
			}
			return t + eng.One(c, sep) + "11" + eng.One(c, []string{"", "12", " 12 ", "1", "'", "';", "' \"с\""}) + "'"
		}, conform1)
		visitAll(r, "text in a date", func(c *eng.Ch) string { return "р = '" + charStrings(r.Bound(3, 4), chars)(c) + "20240101';" }, conform1)
	})
	register("C22", func(r *eng.Run) {
		visitAll(r, "characters", charStrings(r.Bound(3, 4), chars), tiles)
		small := []string{"а", "1", ".", "\"", "'", " ", "\n", "/", "#", "|", "&", "~", "=", "<", ">", ";", "и"}
		visitAll(r, "more characters", charStrings(r.Bound(5, 6), small), tiles)
		gaps(r, "one gap in sentences", gen.Sentences, false, func(w *eng.W, v [2]string) { tiles(w, v[1]) })
		gaps(r, "one gap in programs", gen.Programs, false, func(w *eng.W, v [2]string) { tiles(w, v[1]) })
		visitAll(r, "words", func(c *eng.Ch) string {
			return eng.One(c, alphabet) + eng.One(c, trivia) + eng.One(c, alphabet) + eng.One(c, []string{"", " ", "\n// к\n"}) + eng.One(c, []string{"", "а", "Если", "1", "\"", "."})
		}, tiles)
		eng.Over(r, "prefixes of a large module", prefixes(gen.Large, r.Bound(400, 40)), func(w *eng.W, s string) { w.State(1); tiles(w, s) })
		slide(r, "a program slid over any place", tiles)
		sizes(r, "long tokens", r.Bound(20, 100), around(0, r.Bound(1<<12, 1<<16))[1:], gen.LongTokens, tiles)
		sizes(r, "lengths", r.Bound(20, 100), around(0, r.Bound(1<<8, 1<<10))[1:], gen.Lengths, tiles)
		eng.Over(r, "far places", append(around(r.Bound(40, 300), 1<<r.Bound(10, 13)), 65535, 65536), func(w *eng.W, n int) {
			for _, f := range []string{"%\nЕсли; а", "//%\nа = .5", "а = 1;%Если;", "р = \"%\" ); \"", "а(); !%", "#%\nа(;", "а%(1.5;", "р = \"а% ж\" 1", "// к%\t~м: &НаКлиенте"} {
				for _, x := range []string{"\n", " ", "ж", "\r\n", "\t", "\n|", "😀", "\n//к", ";", "#\n"} {
					if x == ";" && n > 5000 { // every token counts its lines anew
						continue
					}
					w.State(1)
					tiles(w, strings.Replace(f, "%", strings.Repeat(x, n), 1))
				}
			}
		})
		visitAll(r, "beginnings of comments", gen.CommentHeads(2, chars), tiles)
		visitAll(r, "four tokens", func(c *eng.Ch) string {
			lits := []string{`""`, `"а"`, `"а""б"`, "'20240101'", "1", "+", "-", "=", ",", ".", "(", "[", "/", "<", ">", "и", "~м", "&НаКлиенте", ";", "?", "\"а\n|б\""}
			gap := eng.One(c, []string{"", " ", "\n", "//к\n"}[:r.Bound(2, 4)])
			t := ""
			for i := 0; i < 4; i++ {
				if i > 0 {
					t += gap
				}
				t += eng.One(c, lits)
			}
			return t
		}, tiles)
		visitAll(r, "names in programs", func(c *eng.Ch) string {
			h := eng.One(c, []string{"~%: Перейти ~%;", "% = 1;", "а.% = б.%();", "Процедура %(Знач %) Перем б%; КонецПроцедуры", "Для Каждого % Из %.% Цикл %(); КонецЦикла;", "р = Новый %(%[%]);"})
			return strings.ReplaceAll(h, "%", charStrings(r.Bound(4, 5), []string{"а", "Я", "1", "0", "_", "z", "Ё", "И"})(c))
		}, conform1)
	})
	register("C25", func(r *eng.Run) {
		bad := []string{"!", "@", "\"", "'", "&", "&Бла ", "1а", "1.2.3", "'2024'", "''", "'а'", "\x80", "$", "{", "}", "\\", "^", "`", "№", "😀", "\x00", "\ufeff", "\u00a0", "\"\n\"", "\"а\nб\"", "|", "²", "&наклиент ", "&НаСервереБезКонтекст", "'20241301'", "'20240230'", "'202402291'", "\xd0", "~~", "0x1", "\f", "\v", "\u0085", "\u2003", "\u2028", "\u200b", "/*", "*/", "/ /", "\"\n#О\n|\"", "\"\r|\""}
		bases := append(append([]string{}, gen.Sentences...), gen.Programs...)
		visitAll(r, "malformed text anywhere", func(c *eng.Ch) string {
			s := eng.One(c, bases)
			k := c.Pick(len([]rune(s)) + 1)
			rs := []rune(s)
			return string(rs[:k]) + eng.One(c, bad) + string(rs[k:])
		}, conform1)
		visitAll(r, "malformed text between tokens", func(c *eng.Ch) string {
			l := spell(eng.One(c, gen.Sentences))
			k := c.Pick(len(l) + 1)
			return strings.Join(l[:k], " ") + " " + eng.One(c, bad) + " " + strings.Join(l[k:], " ")
		}, conform1)
		visitAll(r, "cut text", func(c *eng.Ch) string {
			s := eng.One(c, bases)
			return s[:c.Pick(len(s)+1)] + eng.One(c, []string{"", "\"", "'", "!", ";"})
		}, conform1)
		visitAll(r, "character strings", charStrings(r.Bound(3, 4), chars), conform1)
		small := []string{"а", "1", ".", "\"", "'", " ", "\n", "/", "#", "|", "&", "~", "=", "(", ")", ";", "и", "!"}
		visitAll(r, "longer character strings", charStrings(r.Bound(4, 6), small), conform1)
		var runes []rune
		for x := rune(0); x <= unicode.MaxRune; x++ {
			if (x < 0xd800 || x > 0xdfff) && (x < 0x3000 || x%rune(r.Bound(61, 7)) == 0 || unicode.IsSpace(x)) {
				runes = append(runes, x)
			}
		}
		eng.Over(r, "characters between tokens", runes, func(w *eng.W, x rune) {
			for _, h := range []string{"%", "а = 1;%", "а %= 1;", "%а();", "а(1)%", "а.%б();", "Если а%Тогда КонецЕсли;", "&%НаКлиенте Перем а;", "~%а:"} {
				w.State(1)
				conform(w, strings.Replace(h, "%", string(x), 1))
			}
		})
		eng.Over(r, "malformed text at far places", around(r.Bound(20, 100), 1<<r.Bound(13, 16)), func(w *eng.W, n int) {
			for _, x := range []string{";", "а();", "\n", " ", "//к\n", "#О\n", "а = \"ж\";", "р = \"" + strings.Repeat("ж", n) + "\";"} {
				pad := x
				if len(x) < 20 {
					pad = strings.Repeat(x, n)
				}
				for _, b := range bad {
					w.State(2)
					conform(w, pad+b)
					conform(w, "б = 1;"+pad+" в = "+b+" 1;"+x)
				}
			}
		})
		visitAll(r, "two malformed places", func(c *eng.Ch) string {
			return "а = 1; " + eng.One(c, bad) + eng.One(c, []string{"", " ", "\n", "; ", " а ", ") "}) + eng.One(c, bad) + eng.One(c, []string{"", " ; б();", "\n", " // к"})
		}, conform1)
	})
}

// characters: every character of the first planes of scripts, every blank, mark and format character, and each
// step-th of the others.
func characters(step int) []rune {
	var l []rune
	for x := rune(0); x <= unicode.MaxRune; x++ {
		if x >= 0xd800 && x <= 0xdfff {
			continue
		}
		if x < 0x3000 || int(x)%step == 0 || unicode.IsSpace(x) || x < 0x10000 && unicode.In(x, unicode.Mn, unicode.Cf, unicode.Zs) {
			l = append(l, x)
		}
	}
	return l
}

func two(n int) string {
	if n < 10 {
		return "0" + strconv.Itoa(n)
	}
	return strconv.Itoa(n)
}

func upto(n int) []int {
	l := make([]int, n+1)
	for i := range l {
		l[i] = i
	}
	return l
}

func prefixes(s string, step int) []string {
	var l []string
	for i := 0; i < len(s); i += step {
		j := i
		for j < len(s) && !utf8.RuneStart(s[j]) {
			j++
		}
		from := max(0, strings.LastIndexByte(s[:max(0, j-3000)], '\n'))
		l = append(l, s[from:j])
	}
	return append(l, s)
}

// places where a number may stand
var numHosts = []string{"Процедура п(а = %, Знач б = -%, Знач в = %) КонецПроцедуры", "ф(%, -%, , %)", "а[%] = б[-%];", "Если % < а И -% > б Тогда КонецЕсли", "р = ?(%, -%, %);", "Функция ф() Возврат -% КонецФункции", "Для а = % По -% Цикл КонецЦикла", "а.б(%)[%].в = Новый М(-%, %)", "ВызватьИсключение -%", "р = Не %;", "р = -(%) - % * -%;"}

func hostNum(c *eng.Ch, s string) string {
	return strings.Replace(eng.One(c, []string{"р = %;", "р = -%;", "Процедура п(а = -%) КонецПроцедуры", "Функция ф(Знач а = -%, Знач б = %) Экспорт КонецФункции"}), "%", s, 1)
}

func hostDate(c *eng.Ch, s string) string {
	return strings.Replace(eng.One(c, []string{"р = '%';", "Процедура п(а = '%') КонецПроцедуры", "р = '%' + \"с\""}), "%", s, 1)
}

// number: the value in the tree is the double nearest to the written decimal.
func number(w *eng.W, s string) {
	_, _, ok := conform(w, s)
	if !ok {
		return
	}
	toks, _ := ref.Lex(s)
	for _, t := range toks {
		if t.Kind == ref.Num {
			q, good := new(big.Rat).SetString(strings.TrimSuffix(t.Lit, "."))
			if !good {
				w.Fail("number %q accepted", t.Lit)
				return
			}
			if f, _ := q.Float64(); f != t.Num {
				w.Fail("number %q is read as %v", t.Lit, t.Num)
			}
		}
	}
}
