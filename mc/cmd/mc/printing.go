package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
	"verifmc/ref"
)

var confs = []ast.PrintConf{{Margin: 0}, {Margin: 4}, {Margin: 1, OneLine: true}, {OneLine: true}}

func doPrint(w *eng.W, a *ast.AstNode, c ast.PrintConf) (s string, ok bool) {
	if msg := impl.Protect(func() { s = a.Print(c) }); msg != "" {
		w.Fail("Print(%+v): %s", c, msg)
		return "", false
	}
	return s, true
}

// comparison: the text of a comparison alone reads as an assignment.
func comparison(n *ref.Node) bool {
	if n.T != "bin" || n.V != "=" {
		return false
	}
	switch n.C[0].T {
	case "id", "call", "dot", "item":
		return true
	}
	return false
}

var drop = strings.NewReplacer("(", "", ")", "")

func noBrackets(s string) string { return drop.Replace(s) }

// parsed drives a program that the model accepts through the parser.
func parsed(w *eng.W, src string) (impl.Out, bool) {
	w.Input(src)
	_, le, want := ref.ParseText(src)
	if le != nil || !want.OK() {
		w.Outcome("not a program")
		return impl.Out{}, false
	}
	got := impl.Parse(src)
	w.Trace()
	if got.Panic != "" {
		w.Fail("%s", got.Panic)
		return got, false
	}
	if got.Err != nil {
		w.Fail("rejected: %v", got.Err)
		return got, false
	}
	return got, true
}

// roundTrip: the printed text of a program is a program with the same tree.
func roundTrip(w *eng.W, src string) {
	got, ok := parsed(w, src)
	if !ok {
		return
	}
	want := got.Tree().String()
	for _, c := range confs {
		p, ok := doPrint(w, got.A, c)
		if !ok {
			return
		}
		again := impl.Parse(p)
		if again.Panic != "" || again.Err != nil {
			w.Fail("printed with %+v:\n%s\nis not accepted: %v %s", c, p, again.Err, again.Panic)
			return
		}
		if x := again.Tree().String(); x != want {
			w.Fail("printed with %+v:\n%s\n%s", c, p, diff(want, x))
			return
		}
	}
	w.Outcome("round trip")
}

// stableText: printing is a function of the tree, leaves it alone, and is a fixed point.
func stableText(w *eng.W, src string) {
	got, ok := parsed(w, src)
	if !ok {
		return
	}
	before := got.Tree().String()
	var first [4]string
	for round := 0; round < 2; round++ {
		for i, c := range confs {
			p, ok := doPrint(w, got.A, c)
			if !ok {
				return
			}
			if round == 0 {
				first[i] = p
			} else if p != first[i] {
				w.Fail("printed twice with %+v, first:\n%s\nthen:\n%s", c, first[i], p)
				return
			}
		}
	}
	if x := got.Tree().String(); x != before {
		w.Fail("printing changed the tree: %s", diff(before, x))
		return
	}
	if got.A.SrsCode() != src {
		w.Fail("printing changed the source text")
		return
	}
	for i, c := range confs {
		again := impl.Parse(first[i])
		if again.Err != nil || again.Panic != "" {
			w.Fail("printed with %+v:\n%s\nis not accepted: %v", c, first[i], again.Err)
			return
		}
		p, ok := doPrint(w, again.A, c)
		if !ok {
			return
		}
		if p != first[i] {
			if noBrackets(p) != noBrackets(first[i]) {
				w.Fail("printed with %+v:\n%s\nprinted again:\n%s", c, first[i], p)
				return
			}
			third := impl.Parse(p) // brackets may be added once, they must not pile up
			q, ok := doPrint(w, third.A, c)
			if third.Err != nil || ok && q != p {
				w.Fail("printed with %+v:\n%s\nagain:\n%s\nand again:\n%s", c, first[i], p, q)
				return
			}
		}
	}
	layoutOnly(w, got.A, first[:])
}

// squeeze drops the blanks that are outside literals.
func squeeze(s string) string {
	var b strings.Builder
	q := rune(0)
	for _, r := range s {
		switch {
		case q != 0:
			if r == q {
				q = 0
			}
		case r == '"' || r == '\'':
			q = r
		case unicode.IsSpace(r):
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

var opener = map[ref.Kind]int{ref.KProc: 1, ref.KFunc: 1, ref.KIf: 1, ref.KFor: 1, ref.KWhile: 1, ref.KTry: 1}
var closer = map[ref.Kind]bool{ref.KEndProc: true, ref.KEndFunc: true, ref.KEndIf: true, ref.KEndLoop: true, ref.KEndTry: true}
var middle = map[ref.Kind]bool{ref.KElse: true, ref.KElseIf: true, ref.KCatch: true}

// layoutOnly: the settings change nothing but blanks, and Margin is the width of one level of nesting.
func layoutOnly(w *eng.W, a *ast.AstNode, first []string) {
	base := squeeze(first[0])
	for i := range first {
		if x := squeeze(first[i]); x != base {
			w.Fail("%+v changes more than blanks:\n%s\nand:\n%s", confs[i], first[0], first[i])
			return
		}
	}
	if strings.Contains(strings.ReplaceAll(blankLiterals(first[3]), "&", "\n&"), "\n") && !strings.ContainsAny(first[3], "&") {
		w.Fail("one line printed as several: %q", first[3])
		return
	}
	if x, ok := doPrint(w, a, ast.PrintConf{Margin: -2}); !ok || squeeze(x) != base {
		w.Fail("a negative margin:\n%s\nno margin:\n%s", x, first[0])
		return
	}
	for _, m := range []int{2, 8, 9, 16, 40} {
		x, ok := doPrint(w, a, ast.PrintConf{Margin: m, OneLine: true})
		if !ok {
			return
		}
		if squeeze(x) != base || strings.Count(x, "\n") != strings.Count(first[3], "\n") {
			w.Fail("line mode with a margin of %d:\n%s\nwithout margin:\n%s", m, x, first[3])
			return
		}
	}
	if !ownLines(w, first[0]) {
		return
	}
	if indented(w, first[0], []int{1, 2, 3, 4, 7, 33}, func(m int) (string, bool) { return doPrint(w, a, ast.PrintConf{Margin: m}) }) {
		w.Outcome("stable")
	}
}

// what a statement, a branch or a local variable may follow
var beforeStart = map[ref.Kind]bool{ref.Semi: true, ref.KThen: true, ref.KLoop: true, ref.KTry: true, ref.KCatch: true, ref.KElse: true, ref.KEndProc: true, ref.KEndFunc: true}

// ownLines: without line mode every statement, branch, declaration and closing word begins a line.
func ownLines(w *eng.W, text string) bool {
	toks, le := ref.Lex(text)
	if le != nil {
		w.Fail("printed text is malformed: %v\n%s", le, text)
		return false
	}
	header := -1 // open brackets of the heading of a procedure
	for i, t := range toks {
		starts := false // behind the heading
		switch {
		case t.Kind == ref.KProc || t.Kind == ref.KFunc:
			header = 0
		case header >= 0 && t.Kind == ref.LPar:
			header++
		case header > 1 && t.Kind == ref.RPar:
			header--
		case header == 1 && t.Kind == ref.RPar:
			header = -2
		case header == -2 && t.Kind != ref.KExport:
			header, starts = -1, true
		}
		if i > 0 && t.Kind != ref.Semi && (starts || beforeStart[toks[i-1].Kind] || closer[t.Kind] || middle[t.Kind]) && !strings.Contains(text[toks[i-1].End:t.Start], "\n") {
			w.Fail("%q does not begin a line:\n%s", text[t.Start:t.End], text)
			return false
		}
	}
	return true
}

// indented: with a margin of m the text is the one without margins, its statements moved m columns for each level of nesting.
func indented(w *eng.W, base string, margins []int, print func(int) (string, bool)) bool {
	flat := strings.Split(base, "\n")
	ind := make([]int, len(flat)) // nesting depth of the statements that begin a line, -1 elsewhere
	for i := range ind {
		ind[i] = -1
	}
	toks, le := ref.Lex(base)
	if le != nil {
		w.Fail("printed text is malformed: %v\n%s", le, base)
		return false
	}
	depth := 0
	last := -1
	for _, t := range toks {
		line, _ := ref.LineCol(base, t.Start)
		d := depth
		if middle[t.Kind] {
			d--
		}
		if closer[t.Kind] {
			depth--
			d = depth
		}
		if line-1 != last && strings.TrimLeft(flat[line-1], " ") != "" && strings.HasPrefix(flat[line-1], base[t.Start:t.End]) {
			ind[line-1] = d
		}
		end, _ := ref.LineCol(base, t.End)
		last = end - 1
		depth += opener[t.Kind]
	}
	for _, m := range margins {
		p, ok := print(m)
		if !ok {
			return false
		}
		l := strings.Split(p, "\n")
		if len(l) != len(flat) {
			w.Fail("Margin %d changes the number of lines:\n%s\nand:\n%s", m, base, p)
			return false
		}
		for i := range l {
			n := 0
			if ind[i] > 0 {
				n = ind[i] * m
			}
			if ind[i] >= 0 && l[i] != strings.Repeat(" ", n)+flat[i] || ind[i] < 0 && l[i] != flat[i] {
				w.Fail("Margin %d, line %d should be indented by %d levels: %q in\n%s", m, i+1, ind[i], l[i], p)
				return false
			}
		}
	}
	return true
}

func blankLiterals(s string) string {
	var b strings.Builder
	q := rune(0)
	for _, r := range s {
		switch {
		case q != 0:
			if r == q {
				q = 0
			}
			continue
		case r == '"' || r == '\'':
			q = r
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// oneStatement: a single statement printed on its own is that statement.
func oneStatement(w *eng.W, src string) {
	got, ok := parsed(w, src)
	if !ok {
		return
	}
	var all []ast.Statement
	in := map[int]string{}
	var collect func(l ast.Statements, frame string)
	collect = func(l ast.Statements, frame string) {
		for _, s := range l {
			in[len(all)] = frame
			all = append(all, s)
			switch v := s.(type) {
			case *ast.FunctionOrProcedure:
				f := "Процедура п() % КонецПроцедуры"
				if v.Type == ast.PFTypeFunction {
					f = "Функция п() % КонецФункции"
				}
				collect(v.Body, strings.Replace(frame, "%", f, 1))
			case *ast.IfStatement:
				collect(v.TrueBlock, frame)
				collect(v.ElseBlock, frame)
				for _, e := range v.IfElseBlock {
					collect(e.(*ast.IfStatement).TrueBlock, frame)
				}
			case *ast.LoopStatement:
				collect(v.Body, strings.Replace(frame, "%", "Пока а Цикл % КонецЦикла", 1))
			case ast.TryStatement:
				collect(v.Body, frame)
				collect(v.Catch, strings.Replace(frame, "%", "Попытка Исключение % КонецПопытки", 1))
			}
		}
	}
	collect(got.Module().Body, "%")
	printers := []func(ast.Statement) string{
		func(s ast.Statement) string { return got.A.PrintStatement(s) },
		func(s ast.Statement) string { return got.A.PrintStatementWithConf(s, ast.PrintConf{Margin: 3}) },
		func(s ast.Statement) string { return got.A.PrintStatementWithConf(s, ast.PrintConf{OneLine: true}) },
	}
	for i, s := range all {
		stmt := impl.Stmt(s)
		if comparison(stmt) {
			w.Outcome("left out: a comparison")
			continue
		}
		want := stmt.String()
		for k, pr := range printers {
			var text string
			if msg := impl.Protect(func() { text = pr(s) }); msg != "" {
				w.Fail("printing %s: %s", want, msg)
				return
			}
			if k == 0 {
				if x := printers[0](s); x != text {
					w.Fail("printed twice: %q and %q", text, x)
					return
				}
				if x := got.A.PrintStatementWithConf(s, ast.PrintConf{Margin: 4}); x != text {
					w.Fail("the default settings print %q, a margin of 4 prints %q", text, x)
					return
				}
			}
			if strings.HasSuffix(strings.TrimSpace(text), ";;") {
				w.Fail("printed with two separators: %q", text)
				return
			}
			framed := strings.Replace(in[i], "%", strings.TrimSuffix(strings.TrimSpace(text), ";"), 1)
			p := impl.Parse(framed)
			if p.Err != nil || p.Panic != "" {
				w.Fail("statement %s is printed as %q, which is not accepted: %v %s", want, text, p.Err, p.Panic)
				return
			}
			x := innermost(p.Module().Body, in[i])
			if len(x) != 1 || impl.Stmt(x[0]).String() != want {
				w.Fail("statement %s is printed as %q, which reads %s", want, text, impl.Block(x))
				return
			}
		}
		var plain string
		if msg := impl.Protect(func() { plain = got.A.PrintStatementWithConf(s, ast.PrintConf{}) }); msg != "" {
			w.Fail("printing %s: %s", want, msg)
			return
		}
		if squeeze(plain) != squeeze(printers[2](s)) {
			w.Fail("the settings change more than blanks: %q and %q", plain, printers[2](s))
			return
		}
		if !indented(w, plain, []int{1, 4}, func(m int) (string, bool) {
			return got.A.PrintStatementWithConf(s, ast.PrintConf{Margin: m}), true
		}) {
			return
		}
		w.Outcome(fmt.Sprintf("printed %T", s))
	}
}

func innermost(l ast.Statements, frame string) ast.Statements {
	for frame != "%" {
		if len(l) != 1 {
			return l
		}
		switch v := l[0].(type) {
		case *ast.FunctionOrProcedure:
			l = v.Body
			frame = strings.TrimSuffix(strings.TrimSuffix(frame, " КонецПроцедуры"), " КонецФункции")
			frame = strings.TrimPrefix(strings.TrimPrefix(frame, "Процедура п() "), "Функция п() ")
		case *ast.LoopStatement:
			l = v.Body
			frame = strings.TrimSuffix(strings.TrimPrefix(frame, "Пока а Цикл "), " КонецЦикла")
		case ast.TryStatement:
			l = v.Catch
			frame = strings.TrimSuffix(strings.TrimPrefix(frame, "Попытка Исключение "), " КонецПопытки")
		default:
			return l
		}
	}
	return l
}

var numHosts2 = []string{"р = %;", "Процедура п(а = -%) ф(-%, %) КонецПроцедуры"}

// printSpaces are the programs that printing is checked on.
func printSpaces(r *eng.Run) []space {
	l := append(exprSpaces(r), stmtSpacesOf(r, r.Bound(4, 6))...)
	l = append(l, declSpaces(r)...)
	return append(l,
		space{"literals", func(c *eng.Ch) string {
			return strings.ReplaceAll(eng.One(c, strHosts), "%", charStrings(2, strParts)(c))
		}},
		space{"numbers", func(c *eng.Ch) string {
			return hostNum(c, charStrings(r.Bound(4, 6), []string{"0", "1", "5", "9", "."})(c))
		}},
		space{"numbers of any length", gen.NumberShapes(r.Bound(24, 60), r.Bound(20, 40), numHosts2)},
		space{"ends of long contents", longContents([]int{1, 31, 65, 129, 257, r.Bound(600, 1100)}, "р = \"%\";")},
		space{"sentences and programs", programs},
		space{"edited sentences", editedSentences})
}

func overPrograms(r *eng.Run, deep int, check func(*eng.W, string)) {
	for _, s := range append(printSpaces(r), alikeSpaces(r)...) {
		visitAll(r, s.name, s.gen, check)
	}
	sizes(r, "lengths", r.Bound(24, 130), []int{64, 100, 257, 513, 1025}, gen.Lengths, check)
	sizes(r, "lengths within", r.Bound(3, 40), []int{9, 17, 33, 65, 100, 129, 257}, gen.Inside, check)
	sizes(r, "long tokens", r.Bound(2, 40), []int{33, 129, 1025, r.Bound(5000, 20000)}, gen.LongTokens, check)
	sizes(r, "depths", r.Bound(min(24, deep), deep), []int{deep}, gen.Depths, check)
}

func init() {
	register("C14", func(r *eng.Run) { overPrograms(r, 100, roundTrip) })
	register("C15", func(r *eng.Run) {
		overPrograms(r, 100, stableText)
		l := append(append([]string{}, gen.Programs...), gen.Sentences...)
		visitAll(r, "margins of any width", func(c *eng.Ch) string {
			return eng.One(c, l)
		}, func(w *eng.W, s string) {
			got, ok := parsed(w, s)
			if !ok {
				return
			}
			base, ok := doPrint(w, got.A, confs[0])
			line, ok2 := doPrint(w, got.A, ast.PrintConf{OneLine: true})
			if !ok || !ok2 || !indented(w, base, upto(r.Bound(260, 1100)), func(m int) (string, bool) { return doPrint(w, got.A, ast.PrintConf{Margin: m}) }) {
				return
			}
			for _, m := range upto(r.Bound(260, 1100)) {
				if x, ok := doPrint(w, got.A, ast.PrintConf{Margin: m, OneLine: true}); ok && squeeze(x) != squeeze(line) {
					w.Fail("line mode with a margin of %d:\n%s\nwithout margin:\n%s", m, x, line)
					return
				}
			}
		})
	})
	register("C24", func(r *eng.Run) { overPrograms(r, 40, oneStatement) })
}
