package gen

import (
	"fmt"
	"strings"

	"verifmc/eng"
)

var Dirs = []string{"", "&НаКлиенте", "&НаСервере", "&НаСервереБезКонтекста", "&НаКлиентеНаСервереБезКонтекста", "&НаКлиентеНаСервере", "&наКлиенте", "&НАСЕРВЕРЕ", "&насервереБезКонтекста"}

var Defaults = []string{"", "=1", " = -1", ` = "с"`, "= Истина", "=Ложь", "= Неопределено", "= '20240229'", "= -ф", "= +5", "= 1.5", "= -(б + 1)", `= ""`, "= '00010101'", "= ~м"}

func (g *G) params(max int, defs []string) string {
	var l []string
	for n := g.Pick(max + 1); n > 0; n-- {
		v := ""
		if g.Bool() {
			v = "Знач "
		}
		l = append(l, v+g.Id()+g.of(defs))
	}
	return strings.Join(l, ", ")
}

func kindOf(g *G) (string, string) {
	if g.Bool() {
		return "Функция ", "КонецФункции\n"
	}
	return "Процедура ", "КонецПроцедуры\n"
}

// Params enumerates parameter lists of one procedure or function.
func Params(max int, defs []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		k, e := kindOf(g)
		return k + g.Id() + "(" + g.params(max, defs) + ")" + g.of([]string{"", " Экспорт"}) + "\n" + e
	}
}

// Headers enumerates directive, kind, export, locals and body of one declaration next to another one.
func Headers() func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		t := ""
		pre := g.Pick(4)
		switch pre {
		case 1:
			t = "Перем " + g.Id() + ";\n"
		case 2:
			t = "&НаКлиенте\nФункция " + g.Id() + "(" + g.Id() + ") Экспорт Перем " + g.Id() + "; Возврат 1; КонецФункции\n"
		case 3:
			t = "Процедура " + g.Id() + "() КонецПроцедуры\n"
		}
		d := g.of(Dirs)
		k, e := kindOf(g)
		t += d + "\n" + k + g.Id() + "(" + g.of([]string{"", g.Id(), "Знач " + g.Id() + ", " + g.Id() + " = 1"}) + ")" + g.of([]string{"", " Экспорт"}) + "\n"
		t += g.locals(2, 2)
		t += g.of([]string{"", g.Id() + " = " + g.Num() + ";\n", ";"})
		t += e
		switch g.Pick(4) {
		case 1:
			t += g.Id() + "();\n"
		case 2:
			k, e := kindOf(g)
			t += k + g.Id() + "()\n" + g.Id() + "();\n" + e
		case 3:
			k, e := kindOf(g)
			t += "&НаСервере\n" + k + g.Id() + "() Экспорт\n Перем " + g.Id() + ";\n" + e + ";"
		}
		return t
	}
}

func (g *G) locals(lines, names int) string {
	t := ""
	for n := g.Pick(lines + 1); n > 0; n-- {
		var l []string
		for k := g.Pick(names) + 1; k > 0; k-- {
			l = append(l, g.Id())
		}
		t += "Перем " + strings.Join(l, ", ") + ";\n"
	}
	return t
}

// Locals enumerates groupings of local variables.
func Locals(lines, names int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		k, e := kindOf(g)
		return k + g.Id() + "(" + g.of([]string{"", g.Id()}) + ")\n" + g.locals(lines, names) + g.of([]string{"", g.Id() + "();\n"}) + e + g.of([]string{"", "Процедура " + g.Id() + "()\n Перем " + g.Id() + ";\nКонецПроцедуры\n"})
	}
}

// Modules enumerates sequences of declarations followed by statements.
func Modules(n int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		t := ""
		funcs := false
		for i := 0; i < n; i++ {
			k := 0
			if funcs {
				k = g.Pick(5)
			} else {
				k = g.Pick(9)
			}
			switch k {
			case 0:
				i = n
			case 1:
				t += "Процедура " + g.Id() + "()\nКонецПроцедуры\n"
			case 2:
				t += "Функция " + g.Id() + "(" + g.Id() + ") Экспорт\nВозврат " + g.Id() + ";\nКонецФункции\n"
			case 3:
				t += "&НаСервере\nПроцедура " + g.Id() + "(Знач " + g.Id() + " = 2)\n" + g.Id() + "();\nКонецПроцедуры\n"
			case 4:
				t += "&НаКлиенте\nФункция " + g.Id() + "()\nПерем " + g.Id() + ", " + g.Id() + ";\nКонецФункции\n"
			case 5:
				t += "Перем " + g.Id() + ";\n"
			case 6:
				t += "Перем " + g.Id() + " Экспорт;\n"
			case 7:
				t += "&НаКлиенте\nПерем " + g.Id() + ", " + g.Id() + ";\n"
			case 8:
				t += "&НаСервере\nПерем " + g.Id() + ", " + g.Id() + ", " + g.Id() + " Экспорт;\n"
			}
			funcs = funcs || k >= 1 && k <= 4
		}
		for k := g.Pick(4); k > 0; k-- {
			t += g.of([]string{g.Id() + " = " + g.Num() + ";\n", g.Id() + "();\n", "Если " + g.Id() + " Тогда " + g.Id() + "(); КонецЕсли;\n"})
		}
		return t
	}
}

// Globals enumerates module variable declarations.
func Globals(lines, names int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		t := ""
		for n := g.Pick(lines) + 1; n > 0; n-- {
			t += g.of(Dirs) + "\nПерем "
			var l []string
			for k := g.Pick(names) + 1; k > 0; k-- {
				l = append(l, g.Id())
			}
			t += strings.Join(l, ", ") + g.of([]string{";\n", " Экспорт;\n"})
		}
		return t + g.of([]string{"", g.Id() + "();"})
	}
}

// BigHeaders are declarations of any number of parameters, local variables and statements, with every mark.
func BigHeaders(ns []int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		d := g.of(append([]string{""}, "&НаКлиенте", "&насервере\n"))
		k, e := kindOf(g)
		t := d + " " + k + "Имя("
		p := g.of([]string{"п%d", "Знач п%d", "п%d = %d", "Знач п%d = \"%d\"", "п%d = Неопределено"})
		t += rep(eng.One(c, ns), func(i int) string {
			if strings.Count(p, "%d") == 2 {
				return fmt.Sprintf(p, i, i)
			}
			return fmt.Sprintf(p, i)
		}, ", ")
		t += ")" + g.of([]string{"", " Экспорт"}) + "\n"
		if n := eng.One(c, ns); n > 0 && n < 40 {
			if c.Bool() {
				t += "Перем " + rep(n, id, ", ") + ";\n"
			} else {
				t += rep(n, func(i int) string { return "Перем " + id(i) + ";" }, " ")
			}
		}
		t += g.of([]string{"", "а();"})
		return t + e
	}
}
