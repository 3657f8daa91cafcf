package main

import (
	"strings"

	"verifmc/eng"
	"verifmc/ref"
)

// phrases are the parts of programs, to be put where they do not belong.
var phrases = []string{"( а )", "( а , 1 )", "( )", "а , б", "а б", ", а", "а ,", ", Новый М", "Новый М ( 1 )", "Новый ( а )", "[ 1 ]", "[ ]", ". а", ". а ( )", "Экспорт", "Знач а", "= 1", "= - 1", "= а", "= Новый М", ", а = 1",
	"Перем а ;", "Перем а", "Перем а Экспорт ;", "&НаКлиенте", "&НаКлиенте Перем а ;", "Процедура п ( ) КонецПроцедуры", "Функция ф ( ) КонецФункции", "Не", "Не а", "- а", "+ а", "И а", "< а", "<> а", "? ( а , б , в )", "~м", "~м :", "Перейти ~м", "Выполнить а", "Выполнить 1", `"с"`, "'20240101'", "1", "- 1",
	"Если а Тогда", "Если а Тогда КонецЕсли", "ИначеЕсли а Тогда", "Иначе", "Иначе а ( ) ;", "КонецЕсли ;", "Для а = 1 По 2 Цикл", "Для Каждого а Из б Цикл", "По 2", "Из а", "Цикл", "Пока а Цикл КонецЦикла", "КонецЦикла ;", "Попытка", "Попытка Исключение КонецПопытки", "Исключение", "КонецПопытки ;",
	"Прервать ;", "Возврат", "Возврат 1 ;", "ВызватьИсключение", "ВызватьИсключение а ;", ";", ": ", "; ;", "Истина", "Неопределено"}

// phraseEdits puts a phrase into a base, in the place of up to so many tokens, or repeats a part of the base.
func phraseEdits(bases []string, most int) func(*eng.Ch) string {
	var toks [][]string
	for _, b := range bases {
		if l := spell(b); len(l) > 0 {
			toks = append(toks, l)
		}
	}
	return func(c *eng.Ch) string {
		l := toks[c.Pick(len(toks))]
		i := c.Pick(len(l) + 1)
		if c.Pick(2) == 0 {
			j := i + c.Pick(min(most, len(l)-i)+1)
			return strings.Join(splice(l, i, j, eng.One(c, phrases)), " ")
		}
		j := i + c.Pick(min(7, len(l)-i)+1) // repeat a part, right behind it or in another place
		part := strings.Join(l[i:j], " ")
		at := j
		if len(l) < 24 && c.Bool() {
			at = c.Pick(len(l) + 1)
		}
		return strings.Join(splice(l, at, at, eng.One(c, []string{"", ",", ";", "."}), part), " ")
	}
}

func wordish(b byte) bool {
	return b >= 0x80 || b == '_' || b == '.' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// tight writes tokens with no more blanks than needed to keep them apart.
func tight(l []string) string {
	var b strings.Builder
	for i, t := range l {
		if i > 0 {
			p, n := l[i-1], t
			x, y := p[len(p)-1], n[0]
			pair := string(x) + string(y)
			if wordish(x) && wordish(y) && !(x == '.' && (len(p) == 1 && (y < '0' || y > '9'))) && !(y == '.' && (p[0] < '0' || p[0] > '9')) ||
				strings.Contains(`|""|<>|<=|>=|//|`, "|"+pair+"|") || x == '~' {
				b.WriteByte(' ')
			}
		}
		b.WriteString(t)
	}
	return b.String()
}

// tightFree: the text without any blanks that are not needed means the same.
func tightFree(w *eng.W, src string) {
	toks, le := ref.Lex(src)
	if le != nil || len(toks) == 0 {
		w.Outcome("not tokens")
		return
	}
	l := make([]string, len(toks))
	for i, t := range toks {
		l[i] = src[t.Start:t.End]
	}
	layoutFree(w, [2]string{strings.Join(l, " "), tight(l)})
}

// preprocessor gives # lines (and comments) of words that mean something elsewhere.
func preprocessor(n int) func(*eng.Ch) string {
	words := []string{"Если", "Не", "Клиент", "Или", "И", "Тогда", "ИначеЕсли", "Иначе", "КонецЕсли", "Область", "КонецОбласти", "Вставка", "КонецВставки", "Удаление", "КонецУдаления", "О", "(", ")", "\\", "|", "//", "\"", "'", ";", "#", "!", "_"}
	return func(c *eng.Ch) string {
		line := eng.One(c, []string{"#", "# ", "//", "// "}[:2+n/3*2])
		for i := 0; i < n; i++ {
			k := c.Pick(len(words) + 1)
			if k == 0 {
				break
			}
			if i > 0 {
				line += " "
			}
			line += words[k-1]
		}
		line += eng.One(c, []string{"\n", "\r\n", " \n"})
		return strings.ReplaceAll(eng.One(c, []string{"%а();\nб();\n", "а();\n%б();\n//в\nг();", "Если а\n%Тогда\nб();\n%\nв() КонецЕсли"}), "%", line)
	}
}

// leftovers: what a broken text leaves behind must not reach the next one.
func leftovers(n int) func(*eng.Ch) string {
	open := []string{"", "а = ", "а .", "Если а Тогда ", "Процедура п (", "Пока а Цикл Попытка Исключение ", "Функция ф ( ) Перем л ; ", "ф ( 1 ,", "&НаКлиенте Перем а ; "}
	return func(c *eng.Ch) string {
		t := eng.One(c, open)
		for i := 0; i < n; i++ {
			t += eng.One(c, alphabet) + " "
		}
		return t + eng.One(c, []string{"", "\"", "@", "1."}[:n+2])
	}
}

var probes = []string{"Если а Тогда КонецЕсли", "Перем а;", "а = 1", ".", `"с"`, "Процедура п() Возврат КонецПроцедуры", "Возврат 1", "Прервать", "ВызватьИсключение", "Не а", "&НаСервере Процедура п(а, б) КонецПроцедуры", "а(,)", "Если а Тогда Иначе КонецЕсли; Попытка Исключение КонецПопытки", ") а", "'20240101'", "1.", "", " ", "Перем а, б; Функция а() Перем б; КонецФункции"}
