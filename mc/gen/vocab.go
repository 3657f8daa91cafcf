package gen

import (
	"strings"

	"verifmc/eng"
)

// Vocabulary are the names real programs use: what the platform offers, words of other languages and of data formats.
var Vocabulary = strings.Fields(`
Сообщить Предупреждение Вопрос Вычислить ВычислитьВыражение Тип ТипЗнч ЗначениеЗаполнено Строка Число Дата Булево Формат ТекущаяДата ТекущаяДатаСеанса НачалоДня КонецДня Год Месяц День Час Минута Секунда
СтрДлина Лев Прав Сред Найти СтрНайти СокрЛП СокрЛ СокрП ВРег НРег ТРег Символ Символы КодСимвола ПустаяСтрока СтрЗаменить СтрЧислоСтрок СтрПолучитьСтроку СтрЧислоВхождений СтрШаблон СтрРазделить СтрСоединить НСтр
Цел Окр Мин Макс Log Log10 Sin Cos Tan Pow Sqrt Exp Массив ФиксированныйМассив Структура ФиксированнаяСтруктура Соответствие СписокЗначений ТаблицаЗначений ДеревоЗначений КлючИЗначение
Запрос ПостроительЗапроса Текст Выполнить1 Выбрать Следующий Выгрузить Количество Вставить Добавить Удалить Очистить Свойство Получить Установить Записать Прочитать Закрыть Открыть Показать
ЭтотОбъект ЭтаФорма Элементы Объект Ссылка Параметры Отказ СтандартнаяОбработка Команда Элемент Метаданные Справочники Документы Перечисления РегистрыСведений Константы ПланыОбмена Пользователи ПараметрыСеанса
ОписаниеОшибки ИнформацияОбОшибке ПодробноеПредставлениеОшибки КраткоеПредставлениеОшибки ОбработкаПрерыванияПользователя НачатьТранзакцию ЗафиксироватьТранзакцию ОтменитьТранзакцию ТранзакцияАктивна
УстановитьПривилегированныйРежим ПривилегированныйРежим ПолучитьФорму ОткрытьФорму ОповеститьОЗакрытии ОписаниеОповещения ПоказатьВопрос ПриОткрытии ПередЗаписью ПриЗаписи ОбработкаПроведения ОбработкаЗаполнения ПриСозданииНаСервере
ДобавитьОбработчик УдалитьОбработчик Асинх Ждать Await Async Обещание Ожидание Каждый Всем Конец Начало Шаг Вниз До Выход Продолжение Прервано Возврат1 Вернуть Исключения Ошибка Истинно Ложно Нет Да Null НЕОПРЕДЕЛЁН Неопределенность Пусто
Процедур Функции Переменная Переменные Перемен Метка Параметр Значение Знач1 Экспортировать Импорт Если1 Иначе1 Тогда1 Циклы Для1 Каждое Изъять Пода Покамест НеРавно ИЛИ1 Новая Новое Новые Выполнение ВыполнитьАлгоритм
If Then ElsIf ElseIf Else EndIf For Each In To Do EndDo Loop While Break Continue Goto Return Try Except EndTry Raise Procedure EndProcedure Function EndFunction Var Val Export New Not And Or True False Undefined Execute Eval AddHandler RemoveHandler
nil null NULL None undefined NaN Inf Infinity true false this self super class struct interface map func type var const let def import package return void int string bool float len cap append make panic select case switch default yield lambda
Name Body Params Type Statements Expression Left Right Operation Unit Call Param Object Item Directive GlobalVariables ExplicitVariables main init error EOF yyVAL yylex stmt token Token ast AST
Ё ё Ёж еж Е е й И1 и_ _и __ _1 а1 А а Я я z Z q IF iF И_И Не1 неНе э Ъ ъ_ Ы I l O о o с c С C х x Х X р p Р P №1`)

// WordHosts are the roles a name plays.
var ExprWordHosts = []string{"а = %;", "а = %(1);", "а = % (а) + б;", "%(%);", "% = % + 1;", "а = о.%;", "о.% = %;", "о.%(%);", "а = %[%];", "а = Новый %;", "а = Новый %(1, %);", "а = Новый(\"%\");", "а = -%;", "а = Не %;", "а = %.%.%();", "а = ?(%, %, %);", "Выполнить(\"%\");", "а = \"%\" + %;", "а = % И % ИЛИ Не %;", "а = (%);", "а = %();", "а = %(\"с\", 0, 1);", "а = %(%);", "а = % < -%;"}

var StmtWordHosts = []string{"%();", "%;", "%(\"с\")", "Если % Тогда %(); ИначеЕсли % Тогда %; Иначе % = 1; КонецЕсли;", "Для % = 1 По % Цикл % КонецЦикла", "Для Каждого % Из % Цикл %(%); КонецЦикла;", "Пока %() Цикл % = %; КонецЦикла;", "Попытка % Исключение %(); КонецПопытки", "~%: Перейти ~%;", "ВызватьИсключение %;", "ВызватьИсключение %(\"с\");", "Функция ф() Возврат %; КонецФункции", "Функция ф() Возврат %(1); КонецФункции", "Пока а Цикл %; Прервать; КонецЦикла", "Процедура п() %; Возврат; КонецПроцедуры"}

var DeclWordHosts = []string{"Процедура %() КонецПроцедуры", "Функция %(%) Экспорт Возврат % КонецФункции", "Процедура п(Знач % = 1, б = -%) КонецПроцедуры", "Процедура п(а = \"%\") Перем %; КонецПроцедуры", "Перем %;", "&НаКлиенте Перем а, % Экспорт; %();", "&НаСервере Функция %(% = %, Знач а) Экспорт Перем %; %(); КонецФункции"}

// Words puts every word of the vocabulary into every role.
func Words(hosts []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		h := eng.One(c, hosts)
		return strings.ReplaceAll(h, "%", eng.One(c, Vocabulary))
	}
}

// Literals are values whose content may matter to somebody.
var Literals = []string{`""`, `" "`, `"а"`, `"а "`, `" а"`, `"0"`, `"1"`, `"-1"`, `"Истина"`, `"Ложь"`, `"Неопределено"`, `"null"`, `"'20240101'"`, `"20240101"`, `""""`, `"%"`, `"%s"`, `"\n"`, `";"`, `"а;"`, `"а" "б"`, "\"а\n|б\"", "\"\n|\"", `"ВЫБРАТЬ 1"`, `"//"`, `"{""а"":1}"`, `"<a>&"`,
	"0", "1", "2", "00", "0.0", "1.0", "0.1", "0.5", "10", "100", "255", "1000", "65536", "4294967296", "9007199254740993", "1000000000000000000000", "0.000001", "0.0000001", "123456789.125", "-0", "-1",
	"'00010101'", "'00010101000000'", "'20240101'", "'20241231235959'", "'99991231'", "Истина", "Ложь", "Неопределено"}

// LiteralHosts are the places where one literal may stand.
var LiteralHosts = []string{"а = %;", "ф(%);", "ф(%, %);", "ф(,%)", "о.м(%, 1);", "а[%] = %;", "а = б[%];", "Если % Тогда КонецЕсли", "Если % = а Тогда КонецЕсли", "Если а <> % Тогда ф(); КонецЕсли", "Пока % Цикл ф() КонецЦикла", "Для а = % По % Цикл КонецЦикла", "ВызватьИсключение %;", "ВызватьИсключение(%, %);", "Функция ф() Возврат % КонецФункции", "Возврат;а = %", "Процедура п(а = %) КонецПроцедуры", "Процедура п(Знач а = %, б = %) КонецПроцедуры",
	"а = ?(%, %, %);", "а = Новый О(%);", "а = Новый(%);", "Выполнить %;", "Выполнить(%);", "а = (%);", "а = -%;", "а = Не %;", "а = б И %;", "а = % + б;", "%;", "(%);", "Для Каждого а Из ф(%) Цикл КонецЦикла", "Если а Тогда ИначеЕсли % Тогда КонецЕсли"}

func InHosts(hosts, texts []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string { return strings.ReplaceAll(eng.One(c, hosts), "%", eng.One(c, texts)) }
}

// LiteralPairs puts an operator between any two literals.
func LiteralPairs(ops []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		return "а = " + eng.One(c, Literals) + " " + eng.One(c, ops) + " " + eng.One(c, Literals) + ";"
	}
}

// Jumps enumerates so many simple statements in a row, where every one is allowed.
func Jumps(n int) func(*eng.Ch) string {
	l := []string{"а()", "б = 1", "Прервать", "Продолжить", "Возврат", "Возврат а", "ВызватьИсключение", "ВызватьИсключение а", "Перейти ~м", "~м:", "", "Выполнить(а)", "а.б"}
	return func(c *eng.Ch) string {
		t := ""
		for i := 0; i < n; i++ {
			t += eng.One(c, l) + ";\n"
		}
		return "Функция ф() Пока а Цикл Попытка Исключение\n" + t + "КонецПопытки КонецЦикла КонецФункции"
	}
}

// Returned are values for Возврат and ВызватьИсключение in every frame.
var Returned = []string{"Неопределено", "Истина", "Ложь", "0", "1", "-1", `""`, `"с"`, "'20240101'", "а", "-а", "Не а", "Не Истина", "а()", "о.м()", "о.с", "а[1]", "Новый О", "Новый О()", "?(а, 1, 2)", "(а)", "()", "(а, б)", "(Неопределено)", "а = б", "а + 1", "а И б", "Выполнить(а)", "ЭтотОбъект", "Null", "~м"}

func Returns(depth int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		s := eng.One(c, []string{"Возврат ", "ВызватьИсключение ", "Возврат; ", "ВызватьИсключение; ", "Прервать; ", "Продолжить; "}) + eng.One(c, Returned) + eng.One(c, []string{"", ";"})
		for i := 0; i < depth; i++ {
			k := c.Pick(len(RuleFrames) + 1)
			if k == 0 {
				break
			}
			s = RuleFrames[k-1].Pre + s + RuleFrames[k-1].Post
		}
		return strings.Replace(eng.One(c, []string{"%", "Процедура п() % КонецПроцедуры", "Функция ф() % КонецФункции", "Функция ф() КонецФункции Процедура п() % КонецПроцедуры ю();", "Функция ф() КонецФункции %"}), "%", s, 1)
	}
}

// NumberShapes are numbers of so many whole and broken digits.
func NumberShapes(whole, frac int, hosts []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		h := eng.One(c, hosts)
		d := eng.One(c, []string{"1234567890", "9999999999", "1000000000", "0000000001", "5", "2718281828"})
		n := c.Pick(whole) + 1
		s := strings.Repeat(d, n/len(d)+1)[:n]
		if f := c.Pick(frac + 1); f > 0 {
			e := eng.One(c, []string{"1234567890", "9999999999", "0000000001", "5"})
			s += "." + strings.Repeat(e, f/len(e)+1)[:f]
		}
		return strings.ReplaceAll(h, "%", s)
	}
}

// Slid puts a dense program behind so many bytes of something.
func Slid(n int, kind int) string {
	pad := func(unit string, pre, post string) string {
		k := n - len(pre) - len(post)
		if k < 0 {
			return strings.Repeat(" ", n)
		}
		return pre + strings.Repeat(unit, k/len(unit)) + strings.Repeat(" ", k%len(unit)) + post
	}
	switch kind {
	case 0:
		return pad(" ", "", "") + Dense
	case 1:
		return pad("ж", "//", "\n") + Dense
	case 2:
		return pad("а();\n", "", "") + Dense
	case 3:
		return pad("x", "р = \"", "\";") + Dense
	case 4:
		return pad("ж", "й", " = 1;") + Dense
	case 5:
		return pad("\n", "", "") + Dense
	default:
		return pad("ж", "р = \"", "") + "\n\t|" + Dense2
	}
}

const SlidKinds = 7

// Dense has every kind of token, with neighbours as close as they may stand.
const (
	Dense  = "Ёж_1=а<=б;в.Если=\"я\"\"ю\n\t//к\n|😀\"+1.25-'2024.01.31';//к\r\n#О\r\nЕсли(г<>д)И не ж Тогда~м:Перейти ~м;КонецЕсли;"
	Dense2 = "ю\"+1.25;р='20240131';а>=б//к\n"
)

// SameNames makes two names of a program the same.
func SameNames(bases [][]string, at [][]int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		k := c.Pick(len(bases))
		l := append([]string(nil), bases[k]...)
		i := c.Pick(len(at[k]))
		j := i + 1 + c.Pick(len(at[k])-i)
		if j < len(at[k]) {
			l[at[k][j]] = l[at[k][i]]
		}
		return strings.Join(l, " ")
	}
}

// CommentHeads are the beginnings of comments, region lines and strings.
func CommentHeads(n int, chars []string) func(*eng.Ch) string {
	hosts := []string{"%\nа();", "а();//%\nб();", "а = //%\nб;", "а();\n#%\nб();", "//%\r\n//к\nа()", "а() //%", "#О %\nа();", "а(//%\n);", "\"с\n//%\n|д\""}
	return func(c *eng.Ch) string {
		h := eng.One(c, hosts)
		var b strings.Builder
		if h[0] == '%' {
			b.WriteString("//")
		}
		for i := 0; i < n; i++ {
			k := c.Pick(len(chars) + 1)
			if k == 0 {
				break
			}
			b.WriteString(chars[k-1])
		}
		return strings.Replace(h, "%", b.String(), 1)
	}
}

// LongTokens are texts with a long token at the place of an error, or near it.
var LongTokens = func() (l []Sweep) {
	for _, h := range []string{"а = 1 %;", "а(%", "а = % %;", "% %", "Если % КонецЕсли", "а = б.% в", "Процедура % а", "а = (% ;", "а();\n\tб(%));", "&НаКлиенте %;", "~% а", "а = 1;\n% = ;"} {
		for _, f := range []func(n int) string{
			func(n int) string { return "й" + strings.Repeat("Ж", n) },
			func(n int) string { return "x" + strings.Repeat("z", n) },
			func(n int) string { return `"` + strings.Repeat("ж", n) + `"` },
			func(n int) string { return `"` + strings.Repeat("\n|", n) + `"` },
			func(n int) string { return "1" + strings.Repeat("0", min(n, 300)) },
			func(n int) string { return "0." + strings.Repeat("3", n) },
			func(n int) string { return "'2024" + strings.Repeat(".", n) + "0101'" },
			func(n int) string { return "а" + strings.Repeat(".б", n) },
		} {
			l = append(l, Sweep{h, func(n int) string { return strings.ReplaceAll(h, "%", f(n)) }, 0})
		}
	}
	return l
}()
