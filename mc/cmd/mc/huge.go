package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/eng"
)

// A colossal text is examined in a process of its own: what it may exhaust ends that process only.
type huge struct {
	name  string
	n     int // repetitions
	text  func(n int) string
	count func(a *ast.AstNode) int // how many repetitions the tree holds; nil: no more than the verdict is compared
}

func body(a *ast.AstNode) int { return len(a.ModuleStatement.Body) }

func first[T any](a *ast.AstNode) (t T) {
	if body(a) > 0 {
		t, _ = a.ModuleStatement.Body[0].(T)
	}
	return
}

func value(a *ast.AstNode) ast.Statement {
	if e := first[ast.AssignmentStatement](a).Expr.Statements; len(e) == 1 {
		return e[0]
	}
	return nil
}

func numbered(n int, f string) string {
	b := &strings.Builder{}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(b, f, i)
	}
	return b.String()
}

func nest(open, between, end string) func(int) string {
	return func(n int) string { return strings.Repeat(open, n) + between + strings.Repeat(end, n) }
}

func nested(step func(ast.Statement) ast.Statement) func(*ast.AstNode) int {
	return func(a *ast.AstNode) int {
		n := 0
		for s := value(a); ; n++ {
			if s = step(s); s == nil {
				return n
			}
		}
	}
}

func only(l ast.Statements) ast.Statement {
	if len(l) == 1 {
		return l[0]
	}
	return nil
}

func blocks(step func(ast.Statement) ast.Statements) func(*ast.AstNode) int {
	return func(a *ast.AstNode) int {
		n := 0
		for l := ast.Statements(a.ModuleStatement.Body); len(l) == 1; n++ {
			l = step(l[0])
		}
		return n
	}
}

func repeat(s, unit, e string) func(int) string {
	return func(n int) string { return s + strings.Repeat(unit, n) + e }
}

const million = 1000000

var flat = []huge{
	{"comment lines", 30 * million, repeat("", "//\n", "а();"), body},
	{"# lines", 30 * million, repeat("", "#\n", "а();"), body},
	{"comment and # lines", 16 * million, repeat("а()", "\n//\n#", "\n"), body},
	{"comment lines in a string", 30 * million, repeat("р = \"а\n", "//\n", "|б\";"), body},
	{"line breaks", 60 * million, repeat("а()", "\n", ";"), body},
	{"characters of a comment", 60 * million, repeat("а(); //", "/", "\nб();"), nil},
	{"characters of a string", 20 * million, repeat("р = \"", "я", "\";"), func(a *ast.AstNode) int {
		s, _ := value(a).(string)
		return len(s) / 2
	}},
	{"lines of a string", 10 * million, repeat("р = \"", "\n|", "\";"), func(a *ast.AstNode) int {
		s, _ := value(a).(string)
		return strings.Count(s, "\n|")
	}},
	{"adjacent strings", 5 * million, repeat("р = ", "\"а\" ", ";"), func(a *ast.AstNode) int {
		s, _ := value(a).(string)
		return len(s) / 2
	}},
	{"letters of a name", 10 * million, repeat("", "ю", "();"), func(a *ast.AstNode) int { return len(first[ast.MethodStatement](a).Name) / 2 }},
	{"digits", 3 * million, repeat("р = 0.", "0", "1;"), nil},
	{"separators", 3 * million, repeat("а()", ";", "б()"), nil},
	{"statements", million, repeat("", "а();", ""), body},
	{"arguments", million, repeat("а(1", ", 1", ");"), func(a *ast.AstNode) int { return len(first[ast.MethodStatement](a).Param.Statements) - 1 }},
	{"omitted arguments", million, repeat("а(", ",", ");"), func(a *ast.AstNode) int { return len(first[ast.MethodStatement](a).Param.Statements) - 1 }},
	{"parameters", million / 2, func(n int) string {
		return "Процедура п(" + numbered(n, "а%d") + ") КонецПроцедуры"
	}, func(a *ast.AstNode) int {
		if p := first[*ast.FunctionOrProcedure](a); p != nil {
			return len(p.Params)
		}
		return 0
	}},
	{"locals", million / 2, func(n int) string {
		return "Процедура п() Перем " + numbered(n, "а%d") + "; КонецПроцедуры"
	}, func(a *ast.AstNode) int {
		if p := first[*ast.FunctionOrProcedure](a); p != nil {
			return len(p.ExplicitVariables)
		}
		return 0
	}},
	{"module variables", million / 2, func(n int) string { return "Перем " + numbered(n, "а%d") + ";" }, func(a *ast.AstNode) int { return len(a.ModuleStatement.GlobalVariables) }},
	{"procedures", million / 3, repeat("", "Процедура п() КонецПроцедуры\n", ""), body},
	{"branches", million / 2, repeat("Если а Тогда ", "ИначеЕсли а Тогда ", "КонецЕсли;"), func(a *ast.AstNode) int {
		if i := first[*ast.IfStatement](a); i != nil {
			return len(i.IfElseBlock)
		}
		return 0
	}},
}

var deep = []huge{
	{"brackets", million, nest("(", "1", ")"), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(ast.ExprStatements); ok {
			return only(e.Statements)
		}
		return nil
	})},
	{"signs", million, nest("-", "(1)", ""), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(ast.ExprStatements); ok {
			return only(e.Statements)
		}
		return nil
	})},
	{"sums", million, nest("1+", "1", ""), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(*ast.ExpStatement); ok {
			return e.Left
		}
		return nil
	})},
	{"calls", million / 2, nest("а(", "1", ")"), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(ast.MethodStatement); ok {
			return only(e.Param.Statements)
		}
		return nil
	})},
	{"indexes", million / 2, nest("а[", "1", "]"), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(ast.ItemStatement); ok {
			return e.Item
		}
		return nil
	})},
	{"objects", million / 2, nest("Новый а(", "1", ")"), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(ast.NewObjectStatement); ok {
			return only(e.Param.Statements)
		}
		return nil
	})},
	{"ternaries", million / 4, nest("?(1, 1, ", "1", ")"), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(ast.TernaryStatement); ok {
			return e.ElseBlock
		}
		return nil
	})},
	{"members", million, nest("", "а", ".б"), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(ast.CallChainStatement); ok {
			return e.Call
		}
		return nil
	})},
	{"items", million, nest("", "а", "[1]"), nested(func(s ast.Statement) ast.Statement {
		if e, ok := s.(ast.ItemStatement); ok {
			return e.Object
		}
		return nil
	})},
	{"Если", million / 3, nest("Если а Тогда ", "", "КонецЕсли;"), blocks(func(s ast.Statement) ast.Statements {
		if i, ok := s.(*ast.IfStatement); ok {
			return i.TrueBlock
		}
		return nil
	})},
	{"Пока", million / 3, nest("Пока а Цикл ", "", "КонецЦикла;"), blocks(func(s ast.Statement) ast.Statements {
		if i, ok := s.(*ast.LoopStatement); ok {
			return i.Body
		}
		return nil
	})},
	{"Попытка", million / 3, nest("Попытка ", "", "Исключение КонецПопытки;"), blocks(func(s ast.Statement) ast.Statements {
		if i, ok := s.(ast.TryStatement); ok {
			return i.Body
		}
		return nil
	})},
	{"handlers", million / 3, nest("Попытка Исключение ", "", "КонецПопытки;"), blocks(func(s ast.Statement) ast.Statements {
		if i, ok := s.(ast.TryStatement); ok {
			return i.Catch
		}
		return nil
	})},
}

func init() {
	for i := range deep {
		if f := deep[i].text; i < 9 { // expressions
			deep[i].text = func(n int) string { return "р = " + f(n) + ";" }
		}
	}
}

// hugeChild: one operation on one colossal text. The answer goes to stdout.
func hugeChild(spec string) {
	f := strings.Split(spec, "|")
	n, _ := strconv.Atoi(f[1])
	for _, h := range append(append([]huge{}, flat...), deep...) {
		if h.name != f[0] {
			continue
		}
		a := ast.NewAST(h.text(n))
		if err := a.Parse(); err != nil {
			fmt.Printf("ANSWER rejected: %.300s", err)
			return
		}
		if f[2] == "count" && h.count != nil {
			fmt.Printf("ANSWER %d", h.count(a))
			return
		}
		if strings.Contains(f[2], "Walk") {
			k := 0
			a.ModuleStatement.Walk(func(_ *ast.FunctionOrProcedure, _, _ *ast.Statement) { k++ })
			if k == 0 && body(a) > 0 {
				fmt.Print("ANSWER nothing walked")
				return
			}
		}
		if strings.Contains(f[2], "Print") && a.Print(ast.PrintConf{OneLine: true}) == "" {
			fmt.Print("ANSWER empty print")
			return
		}
		if strings.Contains(f[2], "JSON") {
			if b, err := a.JSON(); err != nil || len(b) == 0 {
				fmt.Printf("ANSWER JSON: %v", err)
				return
			}
		}
		fmt.Print("ANSWER ok")
		return
	}
	fmt.Print("ANSWER no such text")
}

var hugeSlots = make(chan int, 4)

func hugeRun(w *eng.W, h huge, n int, op string) (answer string) {
	hugeSlots <- 1
	defer func() { <-hugeSlots }()
	ctx, stop := context.WithTimeout(context.Background(), 300*time.Second)
	defer stop()
	cmd := exec.CommandContext(ctx, os.Args[0])
	cmd.Env = append(os.Environ(), fmt.Sprintf("MC_HUGE=%s|%d|%s", h.name, n, op), "GOTRACEBACK=none")
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	done := make(chan error, 1)
	go func() { done <- cmd.Run() }()
	for {
		select {
		case err := <-done:
			switch i := strings.LastIndex(out.String(), "ANSWER "); {
			case ctx.Err() != nil:
				return "does not end"
			case err != nil:
				return fmt.Sprintf("%v: %.300s", err, msg.String())
			case i < 0:
				return "no answer"
			default:
				return out.String()[i+len("ANSWER "):]
			}
		case <-time.After(10 * time.Second):
			w.Alive()
		}
	}
}

// hugeSpace: every colossal text under every operation.
func hugeSpace(r *eng.Run, name string, list []huge, ops ...string) {
	type item struct {
		h  huge
		op string
	}
	var items []item
	for _, h := range list {
		for _, op := range ops {
			items = append(items, item{h, op})
		}
	}
	eng.Over(r, name, items, func(w *eng.W, it item) {
		n := it.h.n
		key := fmt.Sprintf("%s of %d %s", it.op, n, it.h.name)
		w.Input(key)
		w.State(1)
		w.Trace()
		got := hugeRun(w, it.h, n, it.op)
		want := "ok"
		if it.op == "count" && it.h.count != nil {
			want = strconv.Itoa(n)
			switch it.h.name {
			case "comment lines", "# lines", "comment and # lines", "comment lines in a string", "line breaks":
				want = "1"
			}
		}
		if strings.Contains(got, "stack exceeds") {
			key += " overflows the stack"
		}
		if got != want {
			w.Finding(key, "want %s, got %s", want, got)
		}
	})
}

// pick takes some of the texts, with another size if n is not 0.
func pick(list []huge, n int, names ...string) (l []huge) {
	for _, h := range list {
		if slices.Contains(names, h.name) {
			if n > 0 {
				h.n = n
			}
			l = append(l, h)
		}
	}
	return
}
