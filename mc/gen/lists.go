package gen

import (
	"strings"

	"verifmc/eng"
)

// Values that only few places expect: lists in brackets, with parts left out, labels and jumps.
var listItems = []string{"", "а", "-1", "(б, в)", "~м", "Перейти ~м", "Не а", "а = б", "()", `"с"`}

func (g *G) list(n int) string {
	k := g.Pick(n + 1)
	l := make([]string, k+1)
	for i := range l {
		l[i] = g.of(listItems)
	}
	return "(" + strings.Join(l, ", ") + ")"
}

// Lists enumerates lists, labels and jumps as values, under signs and next to operators, in every place of a value.
func Lists(n int, contexts []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		ctx := g.of(contexts)
		e := g.of([]string{"", "-", "Не ", "--", "-Не "})
		switch k := g.Pick(5); k {
		case 0:
			e += g.list(n)
		case 1:
			e += "(" + g.list(0) + ")"
		default:
			e += []string{"~м", "Перейти ~м", "(~м)"}[k-2]
		}
		switch g.Pick(3) {
		case 1:
			e += " " + g.of([]string{"=", "И", "*"}) + " " + g.of([]string{"а", "(б, )", "~н"})
		case 2:
			e = g.of([]string{"а", "-(б, 1)", "Не ~н"}) + " " + g.of([]string{"=", "И", "*"}) + " " + e
		}
		return strings.ReplaceAll(ctx, "%s", e)
	}
}

// Bare enumerates expressions that stand as statements, where a comparison may be taken for an assignment.
func Bare(n int) func(*eng.Ch) string {
	sides := []string{"а", "а.б", "а[1]", "ф()", "а.ф(1).в", "1", `"с"`, "-а", "Не а", "(а)", "((а.б))", "(-а)", "(а, б)", "?(а, б, в)", "Новый О(1)", "(а = б)", "(а < б)", "~м", "(Не а[0])", "Выполнить(а)"}
	return func(c *eng.Ch) string {
		g := New(c)
		e := g.of(sides)
		for i := g.Pick(n + 1); i > 0; i-- {
			e += " " + g.of([]string{"=", "<>", "<", "+", "И"}) + " " + g.of(sides)
		}
		shape := g.of([]string{"%", "(%)", "((%))", "-(%)", "Не (%)", "Не %", "(%) = в", "((%), а)"})
		e = strings.Replace(shape, "%", e, 1)
		return strings.Replace(g.of([]string{"%;", "Если а Тогда % КонецЕсли", "Процедура п() б(); %; в(); КонецПроцедуры"}), "%", e, 1)
	}
}
