package main

import (
	"strings"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

// alike makes all names of a text one name, and all its numbers one number: what stands on two sides
// of anything then has the same content.
func alike(f func(*eng.Ch) string) func(*eng.Ch) string {
	return func(c *eng.Ch) string { return alikeText(f(c)) }
}

func alikeText(s string) string {
	toks, err := ref.Lex(s)
	if err != nil {
		return s
	}
	var b strings.Builder
	p := 0
	for _, t := range toks {
		by := ""
		switch t.Kind {
		case ref.Ident:
			by = "а"
		case ref.Num:
			by = "1"
		default:
			continue
		}
		b.WriteString(s[p:t.Start])
		b.WriteString(by)
		p = t.End
	}
	return b.String() + s[p:]
}

// alikeSpaces are expressions and statements in which all operands are the same.
func alikeSpaces(r *eng.Run) []space {
	return []space{
		{"same operands: operand next to operator", alike(gen.Operands([]string{"а = %s;"}, true))},
		{"same operands: operator sequences 2", alike(gen.Flat(2, gen.Ops, gen.Prefixes[:4]))},
		{"same operands: operator sequences 3", alike(gen.Flat(3, gen.OpLevels, []string{""}))},
		{"same operands: bracketed sequences", alike(gen.Grouped(2, gen.OpLevels, []string{"", "-"}, []string{"", "-", "Не "}))},
		{"same operands: pairs", alike(gen.OperandPairs([]string{"", "-", "Не "}[:r.Bound(1, 3)]))},
		{"same operands: nested expressions", alike(gen.ExprTree(r.Bound(2, 3)))},
		{"same operands: access chains", alike(gen.Chains(r.Bound(3, 5)))},
		{"same operands: argument lists", alike(gen.ArgLists(r.Bound(4, 6)))},
		{"same operands: blocks", alike(gen.Stmts{Budget: 3, Leaves: gen.AllLeaves, Nests: gen.AllNests, Seps: 1}.Blocks())},
		{"literals under signs", signedLiterals(r.Bound(2, 3))},
	}
}

// signedLiterals: the least and the plainest values under every sign and bracket, alone and beside an operator.
func signedLiterals(depth int) func(*eng.Ch) string {
	vals := []string{"0", "0.0", "1", "000", "\"\"", "\"а\"", "Истина", "Ложь", "Неопределено", "'00010101'", "'20240101'", "б", "ф()", "ф(0)", "б.в", "б[0]", "?(0, 0, 0)", "Новый Б"}
	wraps := []string{"-%", "+%", "Не %", "(%)"}
	hosts := []string{"а = %;", "а = % + 0;", "а = 0 - %;", "а = 0 * %;", "а = 0 = %;", "а = Ложь И %;", "ф(%);", "Возврат %;", "а = ?(%, %, %);", "а = б[%];", "Процедура п(в = %) КонецПроцедуры"}
	return func(c *eng.Ch) string {
		t := "%"
		for i := 0; i < depth+1; i++ {
			k := c.Pick(len(wraps) + 1)
			if k == 0 {
				break
			}
			t = strings.Replace(t, "%", wraps[k-1], 1)
		}
		return strings.ReplaceAll(eng.One(c, hosts), "%", strings.Replace(t, "%", eng.One(c, vals), 1))
	}
}

// oddEnds: a row of n like statements whose first or last one, or both, are of another kind, behind any declarations.
func oddEnds(ns []int) func(*eng.Ch) string {
	leads := []string{"", "Перем й;", "Процедура ц() КонецПроцедуры", "Перем й; Процедура ц() у(); КонецПроцедуры Функция к() КонецФункции", "Процедура ц() Экспорт\n|\nКонецПроцедуры", "е = 1; Если н Тогда\n|\nИначе г() КонецЕсли;", "Попытка\n|\nИсключение ш() КонецПопытки;"}
	odd := []string{"", ";", "~м:", "~м:;", "Если а Тогда КонецЕсли;", "Пока а Цикл КонецЦикла;", "Для Каждого а Из б Цикл КонецЦикла;", "Попытка Исключение КонецПопытки;", "ф();", "а.ф();", "а.б = 1;", "Возврат;", "Продолжить;", "Прервать;", "Перейти ~м;", "ВызватьИсключение;", "ВызватьИсключение \"а\";", "ДобавитьОбработчик а.б, в;", "Выполнить(а);"}
	rows := []string{"а = 1;\n", "ф(1);\n", "~м:\n", "Если а Тогда б() КонецЕсли;\n"}
	return func(c *eng.Ch) string {
		n := eng.One(c, ns)
		row := strings.Repeat(eng.One(c, rows), n)
		k := eng.One(c, leads)
		at := c.Pick(2*len(odd) - 1)
		body := row
		if at < len(odd) {
			body = odd[at] + "\n" + row
		} else {
			body = row + odd[at-len(odd)+1]
		}
		if strings.Contains(k, "|") {
			return strings.Replace(k, "|", body, 1)
		}
		return k + "\n" + body
	}
}
