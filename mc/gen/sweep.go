package gen

import (
	"fmt"
	"strings"
)

// Sweep is a family of programs indexed by a size.
type Sweep struct {
	Name string
	Make func(n int) string
	Max  int // largest size that is meaningful, 0 - any
}

func rep(n int, f func(i int) string, sep string) string {
	l := make([]string, n)
	for i := range l {
		l[i] = f(i)
	}
	return strings.Join(l, sep)
}

func id(i int) string  { return fmt.Sprintf("и%d", i) }
func asg(i int) string { return fmt.Sprintf("и%d = %d", i, i) }

// Lengths repeat one construct n times in a row.
var Lengths = []Sweep{
	{"module statements", func(n int) string { return rep(n, asg, ";\n") }, 0},
	{"proc statements", func(n int) string {
		return "Процедура п()\n" + rep(n, asg, ";\n") + "\nКонецПроцедуры"
	}, 0},
	{"func statements", func(n int) string {
		return "Функция п()\n" + rep(n, asg, ";\n") + ";\nВозврат 1;\nКонецФункции"
	}, 0},
	{"then statements", func(n int) string {
		return "Если а Тогда " + rep(n, asg, "; ") + " Иначе б(); КонецЕсли"
	}, 0},
	{"elseif statements", func(n int) string {
		return "Если а Тогда ИначеЕсли б Тогда " + rep(n, asg, "; ") + "; КонецЕсли"
	}, 0},
	{"else statements", func(n int) string {
		return "Если а Тогда я() Иначе " + rep(n, asg, "; ") + "; КонецЕсли"
	}, 0},
	{"while statements", func(n int) string { return "Пока а Цикл " + rep(n, asg, "; ") + "; КонецЦикла" }, 0},
	{"for statements", func(n int) string {
		return "Для а = 1 По 2 Цикл " + rep(n, asg, "; ") + "; КонецЦикла"
	}, 0},
	{"foreach statements", func(n int) string {
		return "Для Каждого а Из б Цикл " + rep(n, asg, "; ") + "; КонецЦикла"
	}, 0},
	{"try statements", func(n int) string {
		return "Попытка " + rep(n, asg, "; ") + "; Исключение я(); КонецПопытки"
	}, 0},
	{"catch statements", func(n int) string {
		return "Попытка я() Исключение " + rep(n, asg, "; ") + " КонецПопытки"
	}, 0},
	{"elseif branches", func(n int) string {
		return "Если а Тогда б(); " + rep(n, func(i int) string { return fmt.Sprintf("ИначеЕсли у%d Тогда т%d();", i, i) }, " ") + " Иначе в(); КонецЕсли"
	}, 0},
	{"elseif branches, no else", func(n int) string {
		return "Если а Тогда б(); " + rep(n, func(i int) string { return fmt.Sprintf("ИначеЕсли у%d Тогда т%d();", i, i) }, " ") + " КонецЕсли"
	}, 0},
	{"empty elseif branches", func(n int) string {
		return "Если а Тогда " + rep(n, func(i int) string { return fmt.Sprintf("ИначеЕсли у%d Тогда", i) }, " ") + " КонецЕсли; б()"
	}, 0},
	{"empty loops and tries", func(n int) string {
		return strings.Repeat("Пока а Цикл КонецЦикла; Для а = 1 По 2 Цикл КонецЦикла; Попытка Исключение КонецПопытки; Для Каждого а Из б Цикл КонецЦикла;", n)
	}, 0},
	{"calls", func(n int) string {
		return rep(n, func(i int) string { return fmt.Sprintf("ф%d(%d); а.м%d(, %d)", i, i, i, i) }, "; ")
	}, 0},
	{"expressions as statements", func(n int) string {
		return rep(n, func(i int) string { return fmt.Sprintf("%d; а.б%d; -в[%d]", i, i, i) }, "; ")
	}, 0},
	{"statements without values", func(n int) string {
		return "Процедура п() " + strings.Repeat("Возврат; ", n) + "Пока а Цикл " + strings.Repeat("Прервать; Продолжить; ВызватьИсключение; ", n) + "КонецЦикла; КонецПроцедуры"
	}, 0},
	{"gotos", func(n int) string { return "~м:;" + strings.Repeat("Перейти ~м;", n) }, 0},
	{"handlers", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("ДобавитьОбработчик а%d.б, в; УдалитьОбработчик а.б%d, в;", i, i)
		}, "\n")
	}, 0},
	{"executes", func(n int) string {
		return rep(n, func(i int) string { return fmt.Sprintf("Выполнить \"%d\"; Выполнить(а%d);", i, i) }, " ")
	}, 0},
	{"constructors", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("а%d = Новый О%d(%d); б = Новый(\"Т\", %d);", i, i, i, i)
		}, " ")
	}, 0},
	{"ternaries", func(n int) string {
		return "р = " + rep(n+1, func(i int) string { return fmt.Sprintf("?(а%d, %d, -%d)", i, i, i) }, " + ")
	}, 0},
	{"empty procedures", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Процедура п%d() КонецПроцедуры Функция ф%d() КонецФункции", i, i)
		}, "\n")
	}, 0},
	{"consecutive ifs", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Если у%d Тогда т%d(); Иначе е%d(); КонецЕсли;", i, i, i)
		}, "\n")
	}, 0},
	{"consecutive loops", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Пока у%d Цикл Прервать; КонецЦикла; Для я%d = 1 По 2 Цикл Продолжить; КонецЦикла;", i, i)
		}, "\n")
	}, 0},
	{"consecutive tries", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Попытка а%d(); Исключение ВызватьИсключение; КонецПопытки;", i)
		}, "\n")
	}, 0},
	{"labels", func(n int) string {
		return rep(n, func(i int) string { return fmt.Sprintf("~м%d: а%d();", i, i) }, "\n")
	}, 0},
	{"separators", func(n int) string { return "а()" + strings.Repeat(";", n) + "; б()" }, 0},
	{"leading separators", func(n int) string { return strings.Repeat(";", n) + "б()" }, 0},
	{"params", func(n int) string {
		return "Процедура п(" + rep(n, id, ", ") + ") КонецПроцедуры"
	}, 0},
	{"value params with defaults", func(n int) string {
		return "Функция п(" + rep(n, func(i int) string { return fmt.Sprintf("Знач п%d = %d", i, i) }, ", ") + ") Экспорт КонецФункции"
	}, 0},
	{"locals in one line", func(n int) string {
		return "Процедура п() Перем " + rep(n+1, id, ", ") + "; а(); КонецПроцедуры"
	}, 0},
	{"lines of locals", func(n int) string {
		return "Процедура п() " + rep(n, func(i int) string { return fmt.Sprintf("Перем л%d;", i) }, " ") + " а(); КонецПроцедуры"
	}, 0},
	{"globals in one line", func(n int) string {
		return "&НаКлиенте Перем " + rep(n+1, id, ", ") + " Экспорт; а();"
	}, 0},
	{"lines of globals", func(n int) string {
		return rep(n, func(i int) string { return fmt.Sprintf("Перем л%d Экспорт;", i) }, "\n")
	}, 0},
	{"procedures", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("Процедура п%d(а%d) Экспорт б%d(); КонецПроцедуры", i, i, i)
		}, "\n")
	}, 0},
	{"functions", func(n int) string {
		return rep(n, func(i int) string {
			return fmt.Sprintf("&НаСервере Функция п%d() Возврат %d; КонецФункции", i, i)
		}, "\n") + "\nа();"
	}, 0},
	{"call args", func(n int) string { return "ф(" + rep(n, id, ", ") + ")" }, 0},
	{"method args", func(n int) string {
		return "р = о.м(" + rep(n, func(i int) string { return fmt.Sprint(i) }, ",") + ")"
	}, 0},
	{"omitted args", func(n int) string { return "ф(а" + strings.Repeat(",", n) + "б)" }, 0},
	{"all args omitted", func(n int) string { return "ф(" + strings.Repeat(",", n) + ")" }, 0},
	{"constructor args", func(n int) string { return "р = Новый О(" + rep(n, id, ", ") + ")" }, 0},
	{"throw args", func(n int) string { return "ВызватьИсключение(" + rep(n+1, id, ", ") + ")" }, 0},
	{"sum", func(n int) string { return "р = " + rep(n+1, id, " + ") }, 0},
	{"difference", func(n int) string { return "р = " + rep(n+1, id, " - ") }, 0},
	{"product", func(n int) string { return "р = " + rep(n+1, id, " * ") }, 0},
	{"quotient", func(n int) string { return "р = " + rep(n+1, id, " / ") }, 0},
	{"and", func(n int) string { return "р = " + rep(n+1, id, " И ") }, 0},
	{"or", func(n int) string { return "Если " + rep(n+1, id, " ИЛИ ") + " Тогда КонецЕсли" }, 0},
	{"mixed operators", func(n int) string {
		t := "р = й"
		for i := 0; i < n; i++ {
			t += " " + Ops[i%len(Ops)] + " " + id(i)
		}
		return t
	}, 0},
	{"mixed logic", func(n int) string {
		t := "р = й"
		for i := 0; i < n; i++ {
			t += " " + []string{"И", "ИЛИ", "И Не", "="}[i%4] + " " + id(i)
		}
		return t
	}, 0},
	{"dots", func(n int) string { return "р = а" + rep(n, func(i int) string { return "." + id(i) }, "") }, 0},
	{"call chain", func(n int) string {
		return "а" + rep(n, func(i int) string { return fmt.Sprintf(".м%d(%d)", i, i) }, "")
	}, 0},
	{"chain of calls and links", func(n int) string {
		return "р = а" + rep(n, func(i int) string { return []string{".м(1)", ".с", "[5]", ".м()[1]"}[i%4] }, "")
	}, 0},
	{"calls without arguments", func(n int) string { return "р = а" + strings.Repeat(".м()", n) }, 0},
	{"calls, then a call without arguments", func(n int) string { return "а" + strings.Repeat(".метод(1)", n) + ".итог()" }, 0},
	{"calls, then a link", func(n int) string { return "р = ф()" + strings.Repeat(".м(а, )", n) + ".итог" }, 0},
	{"links, then a call without arguments", func(n int) string { return "ф(а" + strings.Repeat(".Справочники", n) + ".итог())" }, 0},
	{"links, then an index", func(n int) string { return "р = -а" + strings.Repeat(".с", n) + "[0]" }, 0},
	{"indexes, then a call", func(n int) string { return "а" + strings.Repeat("[я]", n) + ".м(-1)" }, 0},
	{"indexes", func(n int) string {
		return "а" + rep(n, func(i int) string { return fmt.Sprintf("[%d]", i) }, "") + " = 1"
	}, 0},
	{"identifier", func(n int) string { return "й" + strings.Repeat("Ж", n) + " = б" + strings.Repeat("z", n) }, 0},
	{"identifier with digits", func(n int) string { return "й" + strings.Repeat("1", n) + "_(1)" }, 0},
	{"procedure name", func(n int) string {
		return "Процедура й" + strings.Repeat("Я", n) + "(п" + strings.Repeat("q", n) + ") Перем л" + strings.Repeat("_", n) + "; КонецПроцедуры"
	}, 0},
	{"member name", func(n int) string {
		return "а.и" + strings.Repeat("Я", n) + " = б.п" + strings.Repeat("q", n) + "()"
	}, 0},
	{"label name", func(n int) string {
		return "~и" + strings.Repeat("Я", n) + ": Перейти ~и" + strings.Repeat("Я", n)
	}, 0},
	{"string", func(n int) string { return `р = "` + strings.Repeat("ж1 ", n) + `"` }, 0},
	{"ascii string", func(n int) string { return `ф("` + strings.Repeat("x", n) + `", 1)` }, 0},
	{"quotes in string", func(n int) string { return `р = "` + strings.Repeat(`""`, n) + `"` }, 0},
	{"string lines", func(n int) string {
		return `р = "а` + rep(n, func(i int) string { return fmt.Sprintf("\n | с%d", i) }, "") + `"`
	}, 0},
	{"commented string lines", func(n int) string {
		return `р = "а` + rep(n, func(i int) string { return fmt.Sprintf("\n // к\n | с%d", i) }, "") + `"`
	}, 0},
	{"adjacent strings", func(n int) string {
		return `р = ` + rep(n+1, func(i int) string { return fmt.Sprintf(`"с%d"`, i) }, " ")
	}, 0},
	{"integer digits", func(n int) string { return "р = 1" + strings.Repeat("0", n) }, 300},
	{"fraction digits", func(n int) string { return "р = 0.1" + strings.Repeat("3", n) }, 0},
	{"leading zeros", func(n int) string { return "р = " + strings.Repeat("0", n) + "7" }, 0},
	{"comment", func(n int) string { return "а(); // " + strings.Repeat("ж", n) + "\nб();" }, 0},
	{"comment lines", func(n int) string { return "а();\n" + strings.Repeat("// к\n", n) + "б();" }, 0},
	{"region lines", func(n int) string { return "а();\n" + strings.Repeat("#Область О\n", n) + "б();" }, 0},
	{"comment and region lines", func(n int) string { return "а();\n" + strings.Repeat("// к\n\n#Область О\n", n) + "б();" }, 0},
	{"blank lines", func(n int) string { return "а();" + strings.Repeat("\n", n) + "б();" }, 0},
	{"spaces", func(n int) string { return "а =" + strings.Repeat(" ", n) + "б;" + strings.Repeat("\t", n) }, 0},
	{"tuple", func(n int) string { return "р = (" + rep(n+1, id, ", ") + ")" }, 0},
	{"default digits", func(n int) string {
		return "Процедура п(а = 1" + strings.Repeat("2", n) + ") КонецПроцедуры"
	}, 300},
}

// Inside is Lengths put within other constructs, where that makes sense.
var Inside = func() (l []Sweep) {
	for _, f := range Lengths {
		if t := f.Make(2); strings.Contains(t, "Процедура") || strings.Contains(t, "Функция") || strings.Contains(t, "Перем ") {
			continue
		}
		for _, h := range [][2]string{{"Процедура п(а, Знач б = 1) Экспорт Перем в; ", "\nКонецПроцедуры"}, {"Пока а Цикл Если б Тогда ", "\nКонецЕсли; КонецЦикла"}, {"Функция п() Если а Тогда ИначеЕсли б Тогда Попытка Исключение ", "\nКонецПопытки; Иначе в(); КонецЕсли; КонецФункции"}} {
			l = append(l, Sweep{f.Name + " within " + h[0], func(n int) string { return h[0] + f.Make(n) + h[1] }, f.Max})
		}
	}
	return l
}()

// Depths nest one construct n times.
var Depths = []Sweep{
	nest("if", "Если а Тогда ", "б()", " КонецЕсли"),
	nest("else", "Если а Тогда я() Иначе ", "б()", " КонецЕсли"),
	nest("elseif", "Если а Тогда я() ИначеЕсли в Тогда ", "б()", " КонецЕсли"),
	nest("if with statements around", "я(); Если а Тогда ", "б()", "; ю(); КонецЕсли; ю()"),
	nest("while", "Пока а Цикл ", "Прервать", " КонецЦикла"),
	nest("for", "Для а = 1 По 2 Цикл ", "Продолжить", "; КонецЦикла"),
	nest("foreach", "Для Каждого а Из б Цикл ", "в()", "; КонецЦикла"),
	nest("try", "Попытка ", "в()", " Исключение ВызватьИсключение КонецПопытки"),
	nest("catch", "Попытка я() Исключение ", "ВызватьИсключение", " КонецПопытки"),
	nest("loop if try", "Пока а Цикл Если б Тогда Попытка ", "Прервать", " Исключение КонецПопытки КонецЕсли КонецЦикла"),
	nest("brackets", "(", "а", ")", "р = "),
	nest("brackets right", "(а + ", "б", ")", "р = "),
	nest("brackets left", "(", "б", " - а)", "р = "),
	nest("minus brackets", "-(", "а", ")", "р = "),
	nest("not brackets", "Не (", "а", ")", "р = "),
	nest("call", "ф(", "а", ")", "р = "),
	nest("call second", "ф(я, ", "а", ", ю)"),
	nest("method", "о.ф(", "а", ")", "р = "),
	nest("index", "а[", "1", "]", "р = "),
	nest("ternary first", "?(", "а", ", 1, 2)", "р = "),
	nest("ternary second", "?(1, ", "а", ", 2)", "р = "),
	nest("ternary third", "?(1, 2, ", "а", ")", "р = "),
	nest("new", "Новый О(", "а", ")", "р = "),
	nest("new by name", "Новый (", "а", ")", "р = "),
	nest("minus", "-", "а", "", "р = "),
	nest("minus number", "-", "5", "", "р = "),
	nest("plus", "+", "а", "", "р = "),
	nest("not", "Не ", "а", "", "р = "),
	nest("not call", "Не ", "а.б()", "", "р = "),
	nest("not minus", "Не -", "а", "", "р = "),
	nest("right growing", "а = б + в * (г И ", "д", ")", "р = "),
	nest("statements in procedure", "Если а Тогда Пока б Цикл ", "в()", "; КонецЦикла; КонецЕсли;", "Процедура п() ", " КонецПроцедуры"),
	nest("statements in function", "Попытка Для Каждого а Из б Цикл ", "Возврат 1", "; КонецЦикла; Исключение КонецПопытки;", "Функция п() ", " КонецФункции"),
}

func nest(name, pre, in, post string, frame ...string) Sweep {
	frame = append(frame, "", "")
	return Sweep{name, func(n int) string {
		return frame[0] + strings.Repeat(pre, n) + in + strings.Repeat(post, n) + frame[1]
	}, 0}
}
