package gen

import (
	"fmt"
	"strings"

	"verifmc/eng"
)

// OperandTexts are spellings of an operand that leave the scanner and the parser in different situations.
var OperandTexts = []string{
	"1.5", "1.", "0.5", "007", "1000000000000", "а.б", "а.Если", "а. И", "а.\nНе", "а.// к\nИли", "м.Истина()", "м()[1].к", "м[1]", "м[-1].Для", "м(,1,)", "1.5 ", "-1", "-а", "- 1.5", "+1", "Не а", "(а)", "-(а)", "(-1)", "Не (а)",
	`"."`, `"а.б"`, `""""`, `""`, `"//"`, `"#"`, `"'"`, "\"с\n|д\"", "\"с\n // к\n |д\"", `"😀"`, "\"\t;\"", `"а" "б"`, "'20240101'", "'2024.01.01'", "'00010101'", "Истина", "ЛОЖЬ", "Неопределено",
	"Новый О", "Новый О(1)", "Новый (а)", "?(а, 1, 2)", "Выполнить(а)", "Ё", "и1", "_", "ИИ", "x", "СтоСорокСемьДлинныхИмёнПодряд_1234567890", "а // к\n", "а\n#О\n", "а.Процедура.Функция", "~м", "о.м(1)(2)", "а б", "а;", ",",
}

// Leads are pieces of text that may come before a program or a statement; each is complete in itself.
var Leads = []string{
	"", "а = 1.5;", "а = 1.;", "а.Если = б.И;", "а.И();", "а = \"😀\";", "а = \"с\n|д\";", "а = \"с\n// к\n\t|д\n|е\";", "// к \"\n", "#О \"\n", "~м:", "а = '2024.01.01';", "Если а Тогда КонецЕсли;", "Если а Тогда б(); ИначеЕсли в Тогда Иначе КонецЕсли;",
	"Пока а Цикл Прервать; КонецЦикла;", "Для а = 1 По 2 Цикл КонецЦикла;", "Для Каждого а Из б Цикл Продолжить; КонецЦикла;", "Попытка Исключение ВызватьИсключение; КонецПопытки;", "Попытка а(); Исключение КонецПопытки;",
	"а = -(б);", "а = Не б;", "а = -1;", "ф(,);", "ф(-а, Не б,);", "Выполнить(а);", "Перейти ~м;", ";", "а[1].б(2);", "а = Новый О;", "а = Новый (о);", "а = ?(1, 2, 3);", "а = \"\"\"\";", "\t", "\r", "\r\n", "ВызватьИсключение \"с\";", "Возврат;",
	"Перем г;", "&НаСервере Перем г1, г2 Экспорт;", "Процедура пп() Перем л; КонецПроцедуры", "Функция фф() Экспорт Возврат 1; КонецФункции", "&НаКлиенте Функция фф(п = -1, Знач в = \"с\") Перем л, м; Возврат п КонецФункции", "Процедура пп() Пока а Цикл Прервать КонецЦикла КонецПроцедуры",
}

// Led enumerates programs behind so many leads.
func Led(n int, bases []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		t := ""
		for i := 0; i < n; i++ {
			t += eng.One(c, Leads) + " "
		}
		return t + eng.One(c, bases)
	}
}

// Wrapped enumerates programs placed in a frame, behind a lead inside the frame.
func Wrapped(bases []string) func(*eng.Ch) string {
	frames := []string{
		"Процедура п() %s КонецПроцедуры", "Функция ф() %s КонецФункции", "Процедура п() %s КонецПроцедуры Функция ф() %s КонецФункции ", "Если а Тогда %s КонецЕсли;", "Если а Тогда ю(); Иначе %s КонецЕсли", "Если а Тогда ИначеЕсли б Тогда %s КонецЕсли;",
		"Если а Тогда %s ИначеЕсли б Тогда %s Иначе %s КонецЕсли;", "Пока а Цикл %s КонецЦикла", "Для а = 1 По 2 Цикл %s КонецЦикла;", "Для Каждого а Из б Цикл %s КонецЦикла", "Попытка %s Исключение КонецПопытки", "Попытка Исключение %s КонецПопытки;", "Попытка %s Исключение %s КонецПопытки; ю()",
		"&НаКлиенте Процедура п(а, Знач б = 2) Экспорт Перем л; %s КонецПроцедуры ю();",
	}
	return func(c *eng.Ch) string {
		f := eng.One(c, frames)
		return strings.ReplaceAll(f, "%s", eng.One(c, Leads)+" "+eng.One(c, bases))
	}
}

// Decls enumerates so many declarations that differ in every part, one after another.
func Decls(n int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		t := ""
		for i := 0; i < n; i++ {
			t += g.of([]string{"", "&НаКлиенте ", "&наСервере\n"})
			k, e := kindOf(g)
			t += k + g.Id() + "(" + g.of([]string{"", g.Id(), "Знач " + g.Id() + " = -2, " + g.Id(), g.Id() + " = \"с\""}) + ")" + g.of([]string{"", " Экспорт"}) + "\n"
			t += g.of([]string{"", "Перем " + g.Id() + ";\n", "Перем " + g.Id() + ", " + g.Id() + "; Перем " + g.Id() + ";\n"})
			t += g.of([]string{"", g.Id() + "();\n"}) + e
		}
		return t
	}
}

// RuleFrames are constructs for statements that need a context.
var RuleFrames = []struct{ Name, Pre, Post string }{
	{"while", "Пока а Цикл ", " КонецЦикла;"},
	{"for", "Для а = 1 По 2 Цикл ", " КонецЦикла;"},
	{"each", "Для Каждого а Из б Цикл ", " КонецЦикла;"},
	{"try", "Попытка ", " Исключение КонецПопытки;"},
	{"catch", "Попытка Исключение ", " КонецПопытки;"},
	{"if", "Если а Тогда ", " КонецЕсли;"},
	{"else", "Если а Тогда Иначе ", " КонецЕсли;"},
	{"elseif", "Если а Тогда ИначеЕсли б Тогда ", " КонецЕсли;"},
	{"loop and catch", "Пока а Цикл Попытка Исключение ", " КонецПопытки; КонецЦикла;"},
	{"if in loop", "Пока а Цикл Если б Тогда ", " КонецЕсли; КонецЦикла;"},
}

var RuleStmts = []string{"Прервать;", "Продолжить;", "ВызватьИсключение;", "Возврат 1;", "Возврат;"}

// RuleAt puts a rule statement at one of several places of n nested or consecutive constructs.
func RuleAt(frame, stmt, body, place, n int) string {
	f := RuleFrames[frame]
	s := RuleStmts[stmt]
	var t string
	switch place {
	case 0: // inside all
		t = strings.Repeat(f.Pre, n) + s + strings.Repeat(f.Post, n)
	case 1: // after the innermost one
		t = strings.Repeat(f.Pre, n) + "б();" + f.Post + s + strings.Repeat(f.Post, max(0, n-1))
		if n == 0 {
			t = s
		}
	case 2: // after all of them
		t = strings.Repeat(f.Pre, n) + "б();" + strings.Repeat(f.Post, n) + s
	case 3: // halfway out
		t = strings.Repeat(f.Pre, n) + "б();" + strings.Repeat(f.Post, n-n/2) + s + strings.Repeat(f.Post, n/2)
	case 4: // after n constructs in a row
		t = strings.Repeat(f.Pre+"б();"+f.Post, n) + s
	case 5: // in the last one of n
		t = strings.Repeat(f.Pre+"б();"+f.Post, n) + f.Pre + s + f.Post
	case 6: // in the same kind of construct, nested once, after n nested ones
		t = strings.Repeat(f.Pre, n) + strings.Repeat(f.Post, n) + f.Pre + s + f.Post + "б();"
	}
	switch body {
	case 1:
		t = "Процедура п() " + t + " КонецПроцедуры"
	case 2:
		t = "Функция п() " + t + " КонецФункции"
	case 3:
		t = "Функция п() Возврат 1; КонецФункции Процедура я() Пока а Цикл КонецЦикла КонецПроцедуры " + t
	}
	return t
}

// RulePlaces is the number of places RuleAt knows.
const RulePlaces, RuleBodies = 7, 4

// Layouts are module layouts of a size, with and without faults.
var Layouts = []Sweep{
	{"globals, first name again", func(n int) string { return globalsN(n) + "Перем и0;" }, 0},
	{"globals, middle name again", func(n int) string { return globalsN(n) + fmt.Sprintf("Перем и%d;", n/2) }, 0},
	{"globals, last name again", func(n int) string { return globalsN(n) + fmt.Sprintf("Перем и%d;", n-1) }, 0},
	{"globals, new name", func(n int) string { return globalsN(n) + fmt.Sprintf("Перем и%d; а();", n) }, 0},
	{"globals in a line, first name again", func(n int) string { return "Перем " + rep(n+1, id, ", ") + ", и0;" }, 0},
	{"globals in a line, last name again", func(n int) string {
		return "Перем " + rep(n+1, id, ", ") + fmt.Sprintf(", и%d Экспорт;", n)
	}, 0},
	{"globals in a line, then first", func(n int) string {
		return "Перем " + rep(n+1, id, ", ") + "; &НаКлиенте Перем я, и0;"
	}, 0},
	{"globals in a line, then another", func(n int) string {
		return "Перем " + rep(n+1, id, ", ") + "; &НаКлиенте Перем я, ю;"
	}, 0},
	{"locals, first name again", func(n int) string {
		return "Процедура п() " + globalsN(n) + "Перем и0; КонецПроцедуры"
	}, 0},
	{"locals, last name again", func(n int) string {
		return "Функция п() " + globalsN(n) + fmt.Sprintf("Перем и%d; КонецФункции", n-1)
	}, 0},
	{"locals, new name", func(n int) string {
		return "Функция п() " + globalsN(n) + fmt.Sprintf("Перем и%d; КонецФункции", n)
	}, 0},
	{"locals in a line, first name again", func(n int) string {
		return "Процедура п() Перем " + rep(n+1, id, ", ") + ", и0; КонецПроцедуры"
	}, 0},
	{"locals in a line, then middle", func(n int) string {
		return "Процедура п() Перем " + rep(n+1, id, ", ") + fmt.Sprintf("; Перем ю; Перем я, и%d; б(); КонецПроцедуры", n/2)
	}, 0},
	{"locals named as parameters", func(n int) string {
		return "Процедура п(" + rep(n, id, ", ") + ") Перем я; б(); КонецПроцедуры"
	}, 0},
	{"same locals in n procedures", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Процедура п%d() Перем а, б; КонецПроцедуры", i)
		}, " ")
	}, 0},
	{"same locals in n procedures, fault in the last", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Процедура п%d() Перем а, б; КонецПроцедуры", i)
		}, " ") + "Функция ф() Перем а, б; Перем б; КонецФункции"
	}, 0},
	{"fault in the first of n procedures", func(n int) string {
		return "Функция ф() Перем а, б; Перем б; КонецФункции " + rep(n, func(i int) string {
			return fmt.Sprintf("Процедура п%d() Перем а, б; КонецПроцедуры", i)
		}, " ")
	}, 0},
	{"locals named as globals", func(n int) string {
		return globalsN(n) + " Процедура п() " + globalsN(n) + " КонецПроцедуры"
	}, 0},
	{"globals after n procedures", func(n int) string { return procsN(n) + "Перем а;" }, 0},
	{"globals after n statements", func(n int) string { return rep(n, asg, "; ") + "; Перем а;" }, 0},
	{"procedure after n statements", func(n int) string {
		return rep(n, asg, "; ") + "; Процедура п() КонецПроцедуры"
	}, 0},
	{"function after n separators", func(n int) string { return strings.Repeat(";", n) + " Функция п() КонецФункции" }, 0},
	{"globals after n separators", func(n int) string { return strings.Repeat(";", n) + " Перем п;" }, 0},
	{"procedure after n procedures and statement", func(n int) string { return procsN(n) + "а(); Функция п() КонецФункции" }, 0},
	{"procedure after n globals", func(n int) string { return globalsN(n) + "Процедура п() КонецПроцедуры а();" }, 0},
	{"globals, n procedures, statements", func(n int) string { return globalsN(n) + procsN(n) + rep(n, asg, ";") }, 0},
	{"globals between n procedures", func(n int) string { return procsN(n) + "Перем а; " + procsN(n) }, 0},
	{"procedure after a block of n statements", func(n int) string {
		return "Если а Тогда " + rep(n, asg, "; ") + " КонецЕсли; Процедура п() КонецПроцедуры"
	}, 0},
	{"n labels then a procedure", func(n int) string {
		return rep(n, func(i int) string { return fmt.Sprintf("~м%d:", i) }, " ") + " Процедура п() КонецПроцедуры"
	}, 0},
	{"n procedures, separator, procedure", func(n int) string { return procsN(n) + "; Процедура я() КонецПроцедуры" }, 0},
}

func globalsN(n int) string {
	return rep(n, func(i int) string { return fmt.Sprintf("Перем и%d; ", i) }, "")
}

func procsN(n int) string {
	return rep(n, func(i int) string { return fmt.Sprintf("Процедура п%d() КонецПроцедуры ", i) }, "")
}

// StmtFrames and ExprFrames are repeated around StmtRows and ExprRows: a size inside a size.
var StmtFrames = []Sweep{
	frame("if", "Если а Тогда ", " КонецЕсли"), frame("else", "Если а Тогда я() Иначе ", " КонецЕсли"), frame("elseif", "Если а Тогда я() ИначеЕсли в Тогда ", " КонецЕсли; ю()"),
	frame("while", "Пока а Цикл ", " КонецЦикла"), frame("for", "й(); Для а = 1 По 2 Цикл ", " КонецЦикла;"), frame("foreach", "Для Каждого а Из б Цикл ", " КонецЦикла"), frame("try", "Попытка ", " Исключение ю() КонецПопытки"), frame("catch", "Попытка й() Исключение ", " КонецПопытки"),
}

var ExprFrames = []Sweep{
	frame("brackets", "(", ")"), frame("minus brackets", "-(", ")"), frame("call", "ф(", ")"), frame("second argument", "ф(1, ", ", )"), frame("index", "а[", "]"), frame("ternary", "?(1, ", ", 2)"), frame("new", "Новый О(", ")"), frame("sum right", "1 + (", ")"), frame("sum left", "(", ") * 2"), frame("not", "Не (", ")"),
}

func frame(name, pre, post string) Sweep {
	return Sweep{name, func(n int) string { return strings.Repeat(pre, n) + "%s" + strings.Repeat(post, n) }, 0}
}

var StmtRows = []Sweep{
	{"statements", func(n int) string { return rep(n, asg, "; ") }, 0},
	{"branches", func(n int) string {
		return "Если а Тогда б(); " + rep(n, func(i int) string { return fmt.Sprintf("ИначеЕсли у%d Тогда т%d();", i, i) }, " ") + " Иначе в(); КонецЕсли"
	}, 0},
	{"ifs", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Если у%d Тогда Иначе е%d(); КонецЕсли;", i, i)
		}, " ")
	}, 0},
	{"tries", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Попытка у%d(); Исключение е%d(); КонецПопытки;", i, i)
		}, " ")
	}, 0},
	{"loops", func(n int) string {
		return rep(n, func(i int) string { return fmt.Sprintf("Пока у%d Цикл е%d(); КонецЦикла;", i, i) }, " ")
	}, 0},
	{"separators", func(n int) string { return strings.Repeat(";", n) + "а()" + strings.Repeat(";", n) }, 0},
	{"arguments", func(n int) string { return "ф(" + rep(n, id, ", ") + ")" }, 0},
}

var ExprRows = []Sweep{
	{"sum", func(n int) string { return rep(n+1, id, " + ") }, 0},
	{"logic", func(n int) string { return rep(n+1, id, " И ") }, 0},
	{"chain", func(n int) string { return "о" + rep(n, func(i int) string { return fmt.Sprintf(".м(%d)", i) }, "") }, 0},
	{"indexes", func(n int) string { return "о" + rep(n, func(i int) string { return fmt.Sprintf("[%d]", i) }, "") }, 0},
	{"arguments", func(n int) string { return "ф(" + rep(n, id, ", ") + ")" }, 0},
	{"omitted", func(n int) string { return "ф(" + strings.Repeat(",", n) + "1)" }, 0},
	{"minuses", func(n int) string { return strings.Repeat("-", n) + "а" }, 0},
	{"string", func(n int) string { return `"` + strings.Repeat("ж", n) + `"` }, 0},
}
