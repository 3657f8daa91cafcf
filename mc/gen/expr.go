// Package gen holds the bounded spaces of programs: generators that turn choices into source text.
package gen

import (
	"strconv"
	"strings"

	"verifmc/eng"
)

// G is a generator state: choices plus a counter that gives every leaf its own name.
type G struct {
	*eng.Ch
	n int
}

func New(c *eng.Ch) *G { return &G{Ch: c} }

var stems = []string{"а", "Б", "ж_", "Имя", "x", "Я"}

// Id gives a fresh name.
func (g *G) Id() string {
	g.n++
	return stems[g.n%len(stems)] + strconv.Itoa(g.n)
}

// Num gives a fresh number.
func (g *G) Num() string {
	g.n++
	return strconv.Itoa(100 + g.n)
}

func (g *G) of(l []string) string { return l[g.Pick(len(l))] }

var Ops = []string{"+", "-", "*", "/", "%", "=", "<>", "<", ">", "<=", ">=", "И", "ИЛИ"}

// one operator of each binding level
var OpLevels = []string{"ИЛИ", "И", "<>", "<=", ">=", "=", ">", "+", "*"}

// OperandKinds are all forms an operand can take.
var OperandKinds = []struct {
	Name string
	Make func(g *G) string
}{
	{"id", func(g *G) string { return g.Id() }},
	{"num", func(g *G) string { return g.Num() }},
	{"frac", func(g *G) string { return g.Num() + ".25" }},
	{"str", func(g *G) string { return `"с` + g.Id() + `"` }},
	{"true", func(g *G) string { return "Истина" }},
	{"false", func(g *G) string { return "Ложь" }},
	{"undef", func(g *G) string { return "Неопределено" }},
	{"date", func(g *G) string { g.n++; return "'20240" + strconv.Itoa(1+g.n%9) + "11'" }},
	{"call0", func(g *G) string { return g.Id() + "()" }},
	{"call1", func(g *G) string { return g.Id() + "(" + g.Id() + ")" }},
	{"callgaps", func(g *G) string { return g.Id() + "(, " + g.Id() + ",)" }},
	{"callneg", func(g *G) string { return g.Id() + "(-" + g.Id() + ", Не " + g.Id() + ")" }},
	{"index", func(g *G) string { return g.Id() + "[" + g.Id() + "]" }},
	{"index2", func(g *G) string { return g.Id() + "[" + g.Num() + "][" + g.Id() + "]" }},
	{"callindex", func(g *G) string { return g.Id() + "(" + g.Num() + ")[" + g.Id() + "]" }},
	{"dot", func(g *G) string { return g.Id() + "." + g.Id() }},
	{"dotcall", func(g *G) string { return g.Id() + "." + g.Id() + "(" + g.Id() + ")" }},
	{"dot3", func(g *G) string { return g.Id() + "." + g.Id() + "()." + g.Id() }},
	{"dotindex", func(g *G) string { return g.Id() + "." + g.Id() + "[" + g.Id() + "]" }},
	{"indexdot", func(g *G) string { return g.Id() + "[" + g.Num() + "]." + g.Id() }},
	{"new", func(g *G) string { return "Новый " + g.Id() }},
	{"newargs", func(g *G) string { return "Новый " + g.Id() + "(" + g.Id() + ", " + g.Num() + ")" }},
	{"newname", func(g *G) string { return "Новый (" + g.Id() + ")" }},
	{"tern", func(g *G) string { return "?(" + g.Id() + ", " + g.Id() + ", " + g.Num() + ")" }},
	{"paren", func(g *G) string { return "(" + g.Id() + ")" }},
	{"parenop", func(g *G) string { return "(" + g.Id() + " + " + g.Num() + ")" }},
	{"parenor", func(g *G) string { return "(" + g.Id() + " ИЛИ " + g.Id() + ")" }},
	{"parennot", func(g *G) string { return "(Не " + g.Id() + ")" }},
	{"parenneg", func(g *G) string { return "(-" + g.Id() + ")" }},
	{"paren2", func(g *G) string { return "((" + g.Id() + "))" }},
	{"exec", func(g *G) string { return "Выполнить(" + g.Id() + ")" }},
	{"execstr", func(g *G) string { return `Выполнить "` + g.Id() + `"` }},
}

var Prefixes = []string{"", "-", "+", "Не ", "Не -", "-Не ", "--", "Не Не ", "-+", "+-", "Не +", "- -", "---", "Не Не Не "}

// ExprContexts are all places where an expression may stand; %s is the expression.
var ExprContexts = []string{
	"а = %s;",
	"%s;",
	"ф(%s);",
	"ф(б, %s);",
	"ф(%s, б);",
	"о.ф(%s);",
	"о.м.ф(1, %s, 2);",
	"а[%s] = 1;",
	"о.а[%s] = 1;",
	"а = м[%s];",
	"Если %s Тогда а(); КонецЕсли;",
	"Если а Тогда ИначеЕсли %s Тогда б(); КонецЕсли;",
	"Для а = %s По 5 Цикл КонецЦикла;",
	"Для а = 1 По %s Цикл б(); КонецЦикла;",
	"Для %s По 5 Цикл КонецЦикла;",
	"Пока %s Цикл б(); КонецЦикла;",
	"Для Каждого а Из ф(%s) Цикл б(); КонецЦикла;",
	"ВызватьИсключение %s;",
	"ВызватьИсключение(%s);",
	"Функция ф() Возврат %s; КонецФункции",
	"Функция ф() Возврат(%s); КонецФункции",
	"а = ?(%s, 1, 2);",
	"а = ?(1, %s, 2);",
	"а = ?(1, 2, %s);",
	"а = Новый О(%s);",
	"а = Новый (б, %s);",
	"Выполнить(%s);",
	"а = (%s);",
	"а = ((%s));",
	"а = -(%s);",
	"а = Не (%s);",
	"а.б[%s].в(1);",
	"Процедура п() а = %s; КонецПроцедуры",
	"Попытка а = %s; Исключение б = %s; КонецПопытки;",
}

// Operands enumerates every operand form under every prefix, alone or next to an operator, in every context.
func Operands(contexts []string, pair bool) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		ctx := g.of(contexts)
		k := OperandKinds[g.Pick(len(OperandKinds))].Make
		p := g.of(Prefixes)
		e := p + k(g)
		if pair {
			switch g.Pick(3) {
			case 1:
				e = e + " " + g.of(Ops) + " " + g.Id()
			case 2:
				e = g.Id() + " " + g.of(Ops) + " " + e
			}
		}
		return strings.ReplaceAll(ctx, "%s", e)
	}
}

// OperandPairs enumerates two operands of any form around every operator.
func OperandPairs(prefixes []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		a := g.of(prefixes) + OperandKinds[g.Pick(len(OperandKinds))].Make(g)
		op := g.of(Ops)
		b := g.of(prefixes) + OperandKinds[g.Pick(len(OperandKinds))].Make(g)
		return "а = " + a + " " + op + " " + b + ";"
	}
}

// Flat enumerates operator sequences of length n with prefixes on the operands.
func Flat(n int, ops, prefixes []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		var b strings.Builder
		b.WriteString("р = ")
		for i := 0; i <= n; i++ {
			if i > 0 {
				b.WriteString(" " + g.of(ops) + " ")
			}
			b.WriteString(g.of(prefixes))
			if i%2 == 0 {
				b.WriteString(g.Id())
			} else {
				b.WriteString(g.Num())
			}
		}
		b.WriteString(";")
		return b.String()
	}
}

// Grouped enumerates operator sequences with every way to put one pair of brackets, also prefixed.
func Grouped(n int, ops, prefixes, brackets []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		from := g.Pick(n + 1)
		to := from + g.Pick(n+1-from)
		pre := g.of(brackets)
		var b strings.Builder
		b.WriteString("р = ")
		for i := 0; i <= n; i++ {
			if i > 0 {
				b.WriteString(" " + g.of(ops) + " ")
			}
			if i == from {
				b.WriteString(pre + "(")
			}
			b.WriteString(g.of(prefixes))
			b.WriteString(g.Id())
			if i == to {
				b.WriteString(")")
			}
		}
		b.WriteString(";")
		return b.String()
	}
}

// ExprTree enumerates nested expressions of at most budget inner nodes.
func ExprTree(budget int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		left := budget
		return "р = " + g.tree(&left) + ";"
	}
}

func (g *G) tree(left *int) string {
	if *left == 0 {
		return g.Id()
	}
	k := g.Pick(15)
	if k == 0 {
		return g.Id()
	}
	*left--
	switch k {
	case 1:
		return "-" + g.tree(left)
	case 2:
		return "Не " + g.tree(left)
	case 3:
		return "(" + g.tree(left) + ")"
	case 4:
		return g.tree(left) + " + " + g.tree(left)
	case 5:
		return g.tree(left) + " * " + g.tree(left)
	case 6:
		return g.tree(left) + " = " + g.tree(left)
	case 7:
		return g.tree(left) + " И " + g.tree(left)
	case 8:
		return g.tree(left) + " ИЛИ " + g.tree(left)
	case 9:
		return g.Id() + "(" + g.tree(left) + ")"
	case 10:
		return g.Id() + "(" + g.tree(left) + ", " + g.tree(left) + ")"
	case 11:
		return g.Id() + "[" + g.tree(left) + "]"
	case 12:
		return g.Id() + "." + g.Id() + "(" + g.tree(left) + ")"
	case 13:
		return "?(" + g.tree(left) + ", " + g.tree(left) + ", " + g.tree(left) + ")"
	default:
		return "Новый " + g.Id() + "(" + g.tree(left) + ")"
	}
}

// Chains enumerates access chains: links, arguments and index expressions in any order.
func Chains(n int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		e := g.Id()
		canCall := true
		for i := 0; i < n; i++ {
			k := 0
			if canCall {
				k = g.Pick(6)
			} else {
				k = g.Pick(3)
			}
			switch k {
			case 0:
				i = n
			case 1:
				e += "." + g.Id()
				canCall = true
			case 2:
				e += "[" + g.of([]string{g.Id(), "-" + g.Num(), g.Id() + " + " + g.Id()}) + "]"
				canCall = false
			case 3:
				e += "()"
				canCall = false
			case 4:
				e += "(" + g.Id() + ")"
				canCall = false
			case 5:
				e += "(" + g.Id() + ", , " + g.Num() + ")"
				canCall = false
			}
		}
		switch g.Pick(5) {
		case 0:
			return "р = " + e + ";"
		case 1:
			return e + " = " + g.Id() + ";"
		case 2:
			return e + ";"
		case 3:
			return "Для Каждого " + g.Id() + " Из " + e + " Цикл КонецЦикла;"
		default:
			return "р = -" + e + " + Не " + e + ";"
		}
	}
}

// ArgLists enumerates argument lists with omitted arguments.
func ArgLists(n int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		var l []string
		for k := g.Pick(n) + 1; k > 0; k-- {
			switch g.Pick(5) {
			case 0:
				l = append(l, "")
			case 1:
				l = append(l, g.Id())
			case 2:
				l = append(l, "-"+g.Num())
			case 3:
				l = append(l, g.Id()+"("+g.Id()+",)")
			case 4:
				l = append(l, g.Id()+" > "+g.Num())
			}
		}
		a := strings.Join(l, ", ")
		switch g.Pick(6) {
		case 0:
			return "ф(" + a + ");"
		case 1:
			return "р = о.ф(" + a + ");"
		case 2:
			return "р = Новый О(" + a + ");"
		case 3:
			return "р = Новый (" + a + ");"
		case 4:
			return "ВызватьИсключение(" + a + ");"
		default:
			return "р = о.ф(" + a + ").м(" + a + ")[1];"
		}
	}
}

// Signed enumerates bracketed sequences of literals, names and calls with signs inside and before the brackets.
func Signed(n int) func(*eng.Ch) string {
	kinds := []func(g *G) string{(*G).Num, (*G).Id, func(g *G) string { return g.Id() + "(" + g.Num() + ")" }, func(g *G) string { return `"с"` }, func(g *G) string { return g.Id() + "[1]" }}
	return func(c *eng.Ch) string {
		g := New(c)
		from := g.Pick(n + 1)
		to := from + g.Pick(n+1-from)
		pre := g.of([]string{"", "-", "Не ", "- -"})
		var b strings.Builder
		b.WriteString("р = ")
		for i := 0; i <= n; i++ {
			if i > 0 {
				b.WriteString(" " + g.of([]string{"+", "*", "-", "=", "И"}) + " ")
			}
			if i == from {
				b.WriteString(pre + "(")
			}
			b.WriteString(g.of([]string{"", "-", "Не "}))
			b.WriteString(kinds[g.Pick(len(kinds))](g))
			if i == to {
				b.WriteString(")")
			}
		}
		b.WriteString(";")
		return b.String()
	}
}
