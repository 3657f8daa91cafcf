package gen

import (
	_ "embed"
	"strings"
)

//go:embed corpus/large.bsl
var Large string

//go:embed corpus/mixed1.bsl
var mixed1 string

//go:embed corpus/mixed2.bsl
var mixed2 string

// Programs are medium-sized programs that use every construct together.
var Programs = []string{mixed1, mixed2}

// Sentences use every production of the grammar at least once, each in a short program.
var Sentences = []string{
	"",
	";",
	"а = 1;",
	"а()",
	"а.б = в;",
	"а[1] = 2;",
	"а(1)[2].б(, 3);",
	"а = б + 1; в = г;",
	"Если а Тогда б(); ИначеЕсли в Тогда г(); Иначе д(); КонецЕсли;",
	"Если а Тогда КонецЕсли",
	"Если а = 1 Тогда б = 2 Иначе КонецЕсли; в()",
	"Если а Тогда ИначеЕсли б Тогда ИначеЕсли в Тогда г() КонецЕсли",
	"Для а = 1 По 2 Цикл Продолжить; КонецЦикла;",
	"Для Каждого а Из б Цикл в(); КонецЦикла;",
	"Для Каждого а Из б.в(1)[2] Цикл Прервать КонецЦикла",
	"Для Каждого а Из Новый М Цикл КонецЦикла",
	"Для Каждого а Из (Новый М(1)) Цикл КонецЦикла",
	"Для Каждого а Из ?(б, в, г) Цикл КонецЦикла",
	"Пока а > 1 Цикл Прервать; КонецЦикла;",
	"Пока а Цикл Если б Тогда Прервать КонецЕсли; КонецЦикла; в()",
	"Попытка а(); Исключение б(); ВызватьИсключение; КонецПопытки;",
	`Попытка Исключение ВызватьИсключение "а" КонецПопытки; ВызватьИсключение (б, 1)`,
	"Процедура а() КонецПроцедуры",
	"Процедура а(б, Знач в = 1) Экспорт Перем г, д; Перем е; ж(); Возврат; КонецПроцедуры",
	"Функция а() Возврат 1; КонецФункции",
	"&НаКлиенте Функция а(б = -1, в = Неопределено) Экспорт Перем г; Возврат г; КонецФункции",
	"&НаКлиенте Перем а, б Экспорт; Перем в; &НаСервере Процедура г() КонецПроцедуры д();",
	"Функция а() Возврат 1 КонецФункции Процедура б() Возврат КонецПроцедуры в = а()",
	"а = Не б И -в ИЛИ +г = 1;",
	"а = (б + в) * г - д / е % 2;",
	"а = б <> в; г = д <= е; ж = з >= и; к = л < м; н = о > п;",
	"а = ?(б, в, ?(г, 1, 2));",
	"а = Новый Б; в = Новый Г(1, , д); е = Новый (ж);",
	`а = "б" "в"; г = '20240101'; д = Истина; е = Ложь; ж = Неопределено`,
	"~а: Перейти ~а; ~б : в()",
	`Выполнить "а"; Выполнить а; Выполнить(а + "б").в`,
	"а.Если.Процедура = б.Истина().Не;",
	"а = б[в[г]][д.е];",
	"(а, б); ();",
	"Процедура а() Если б Тогда Возврат КонецЕсли; Пока в Цикл г() КонецЦикла КонецПроцедуры",
}

func init() {
	for i := range Sentences {
		Sentences[i] = strings.TrimSpace(Sentences[i])
	}
}

// Bad are texts that are not programs, each for another reason.
var Bad = []string{
	"а = ;",
	"Если а Тогда б(); КонецЦикла;",
	"Прервать;",
	"Пока а Цикл Продолжить; КонецЦикла; Прервать;",
	"Попытка Исключение ВызватьИсключение; КонецПопытки; ВызватьИсключение;",
	"Процедура а() Возврат 1; КонецПроцедуры",
	"Функция а() Перем б, б; КонецФункции",
	"Перем а; Перем а;",
	"а(); Перем б;",
	"а = \"б",
	"а = '2024",
	"а = 1.2.3;",
	"а = ф(1, (2;",
	"Процедура а(",
	"@",
}
