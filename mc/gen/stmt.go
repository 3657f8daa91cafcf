package gen

import (
	"fmt"
	"strings"

	"verifmc/eng"
)

// Style of separators between statements.
type sep struct{ lead, between, last string }

var seps = []sep{
	{"", ";\n", ";\n"},
	{"", ";\n", "\n"},
	{";\n", ";\n", ";\n"},
	{"", ";;\n", ";;\n"},
	{";;", "; ; \n", ";"},
}

// BlockCtx says what is allowed where.
type blockCtx struct {
	loop, catch, fn bool
	depth           int
}

type Stmts struct {
	Budget   int
	Leaves   []string // kinds of simple statements
	Nests    []string // kinds of compound statements
	Seps     int      // how many separator styles
	MaxDepth int
	Contexts []string
	Free     bool // statements that need a context stand anywhere
}

var AllLeaves = []string{"assign", "call", "expr", "return", "throw", "break", "continue", "goto", "label", "retval", "rethrow"}
var AllNests = []string{"if", "for", "each", "while", "try"}

// Program contexts: the module itself, a procedure, a function, both.
var BodyContexts = []string{"%s", "Процедура п()\n%sКонецПроцедуры\n", "Функция ф()\n%sКонецФункции\n"}

// Blocks enumerates programs of at most Budget statements.
func (s Stmts) Blocks() func(*eng.Ch) string {
	ctx := s.Contexts
	if ctx == nil {
		ctx = BodyContexts
	}
	return func(c *eng.Ch) string {
		g := New(c)
		k := g.Pick(len(ctx))
		st := seps[g.Pick(max(1, s.Seps))]
		left := s.Budget
		b := s.block(g, &left, st, blockCtx{fn: strings.Contains(ctx[k], "Функция")})
		return fmt.Sprintf(ctx[k], b)
	}
}

func (s Stmts) block(g *G, left *int, st sep, x blockCtx) string {
	var l []string
	for *left > 0 {
		nests := len(s.Nests)
		if s.MaxDepth > 0 && x.depth >= s.MaxDepth {
			nests = 0
		}
		k := g.Pick(1 + len(s.Leaves) + nests)
		if k == 0 {
			break
		}
		*left--
		if k <= len(s.Leaves) {
			l = append(l, leaf(g, s.Leaves[k-1], x, s.Free))
			continue
		}
		x := x
		x.depth++
		switch s.Nests[k-1-len(s.Leaves)] {
		case "if":
			t := "Если " + g.Id() + " Тогда\n" + s.block(g, left, st, x)
			for *left > 0 && g.Bool() {
				*left--
				t += "ИначеЕсли " + g.Id() + " Тогда\n" + s.block(g, left, st, x)
			}
			if g.Bool() {
				t += "Иначе\n" + s.block(g, left, st, x)
			}
			l = append(l, t+"КонецЕсли")
		case "for":
			h := "Для " + g.Id() + " = 1 По " + g.Id() + " Цикл\n"
			x.loop = true
			l = append(l, h+s.block(g, left, st, x)+"КонецЦикла")
		case "each":
			h := "Для Каждого " + g.Id() + " Из " + g.Id() + " Цикл\n"
			x.loop = true
			l = append(l, h+s.block(g, left, st, x)+"КонецЦикла")
		case "while":
			h := "Пока " + g.Id() + " Цикл\n"
			x.loop = true
			l = append(l, h+s.block(g, left, st, x)+"КонецЦикла")
		case "try":
			t := "Попытка\n" + s.block(g, left, st, x)
			x.catch = true
			l = append(l, t+"Исключение\n"+s.block(g, left, st, x)+"КонецПопытки")
		}
	}
	if len(l) == 0 {
		if st.lead != "" {
			return st.lead
		}
		return ""
	}
	return st.lead + strings.Join(l, st.between) + st.last
}

func leaf(g *G, k string, x blockCtx, free bool) string {
	if free {
		x = blockCtx{true, true, true, 0}
	}
	switch k {
	case "call":
		return g.Id() + "(" + g.Num() + ")"
	case "expr":
		return g.Id() + "." + g.Id() + " + " + g.Num()
	case "return":
		return "Возврат"
	case "retval":
		if x.fn {
			return "Возврат " + g.Id()
		}
		return g.Id() + "." + g.Id() + "()"
	case "throw":
		return `ВызватьИсключение "` + g.Id() + `"`
	case "rethrow":
		if x.catch {
			return "ВызватьИсключение"
		}
		return g.Id() + "[1] = " + g.Num()
	case "break":
		if x.loop {
			return "Прервать"
		}
	case "continue":
		if x.loop {
			return "Продолжить"
		}
	case "goto":
		return "Перейти ~" + g.Id()
	case "label":
		return "~" + g.Id() + ":" // the separator that follows is an empty statement
	}
	return g.Id() + " = " + g.Num()
}

// Separators enumerates, for short programs, every choice of separators before, between and after statements.
func Separators(n int) func(*eng.Ch) string {
	gaps := []string{";", ";;", "; ;\n", ";;;"}
	edges := []string{"", ";", ";;"}
	frames := []string{
		"%s", "Процедура п() %s КонецПроцедуры", "Функция ф() Перем л; %s КонецФункции",
		"Если а Тогда %s КонецЕсли", "Если а Тогда б() Иначе %s КонецЕсли", "Если а Тогда б(); ИначеЕсли в Тогда %s КонецЕсли;",
		"Пока а Цикл %s КонецЦикла", "Для а = 1 По 2 Цикл %s КонецЦикла;", "Для Каждого а Из б Цикл %s КонецЦикла;",
		"Попытка %s Исключение КонецПопытки", "Попытка Исключение %s КонецПопытки;", "Попытка б() Исключение %s КонецПопытки; в = 1",
		"я(); Если а Тогда %s КонецЕсли; ю()", "я(); Пока а Цикл %s КонецЦикла ; ю();",
		"Попытка я(); Исключение ю(); КонецПопытки; Если а Тогда %s ИначеЕсли б Тогда ъ(); Иначе ы(); КонецЕсли;",
	}
	return func(c *eng.Ch) string {
		g := New(c)
		f := g.of(frames)
		k := g.Pick(n + 1)
		t := g.of(edges)
		label := false
		for i := 0; i < k; i++ {
			if i > 0 {
				if label {
					t += g.of([]string{":", ";", ":;", ": :"})
				} else {
					t += g.of(gaps)
				}
			}
			label = false
			switch g.Pick(3) {
			case 0:
				t += " " + g.Id() + " = " + g.Num()
			case 1:
				t += " " + g.Id() + "()"
			case 2:
				t += " ~" + g.Id()
				label = true
			}
		}
		if k > 0 {
			t += g.of(edges)
		}
		return fmt.Sprintf(f, t)
	}
}

// Rules puts a statement that needs a context at one place of a chain of enclosing constructs: inside it or
// after any of the constructs.
func Rules(depth int, stmts []string) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		ctx := BodyContexts[g.Pick(3)]
		st := g.of(stmts) + "\n"
		n := g.Pick(depth + 1)
		at := g.Pick(n + 1) // the statement follows that many constructs
		var pre, post string
		for i := 0; i < n; i++ {
			k := slots[g.Pick(len(slots))]
			pre += g.fill(k.pre)
			q := g.fill(k.post)
			if n-i == at {
				q += st
			}
			post = q + post
		}
		in := ""
		if at == 0 {
			in = st
		}
		return fmt.Sprintf(ctx, pre+in+post)
	}
}

func (g *G) fill(s string) string {
	for strings.Contains(s, "%s") {
		s = strings.Replace(s, "%s", g.Id(), 1)
	}
	return s
}

type slot struct{ pre, post string }

var slots = []slot{
	{"Если %s Тогда\n", "КонецЕсли;\n"},
	{"Если %s Тогда %s(); Иначе\n", "КонецЕсли;\n"},
	{"Если %s Тогда %s(); ИначеЕсли %s Тогда\n", "КонецЕсли;\n"},
	{"Если %s Тогда %s(); ИначеЕсли %s Тогда\n", "Иначе %s(); КонецЕсли;\n"},
	{"Если %s Тогда\n", "ИначеЕсли %s Тогда %s(); ИначеЕсли %s Тогда %s(); Иначе %s(); КонецЕсли;\n"},
	{"Для %s = 1 По %s Цикл\n", "КонецЦикла;\n"},
	{"Для Каждого %s Из %s Цикл\n", "КонецЦикла;\n"},
	{"Пока %s Цикл\n", "КонецЦикла;\n"},
	{"Попытка\n", "Исключение %s(); КонецПопытки;\n"},
	{"Попытка %s(); Исключение\n", "КонецПопытки;\n"},
}

// Nesting enumerates chains of enclosing constructs: every sequence of block slots up to a depth, with
// a statement before, inside and after each block.
func Nesting(depth int) func(*eng.Ch) string {
	return func(c *eng.Ch) string {
		g := New(c)
		ctx := BodyContexts[g.Pick(3)]
		around := g.Pick(4)
		var pre, post string
		for i := 0; i < depth; i++ {
			k := g.Pick(len(slots) + 1)
			if k == 0 {
				break
			}
			s := slots[k-1]
			if around&1 != 0 {
				pre += g.Id() + " = " + g.Num() + ";\n"
			}
			pre += g.fill(s.pre)
			q := g.fill(s.post)
			if around&2 != 0 {
				q += g.Id() + "();\n"
			}
			post = q + post
		}
		return fmt.Sprintf(ctx, pre+g.Id()+" = "+g.Num()+";\n"+post)
	}
}
