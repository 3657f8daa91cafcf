package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
	"verifmc/ref"
)

// place is an expression of a tree and a way to put another one there.
type place struct {
	role string // value, operand, chain, in or default: what may stand there
	v    ast.Statement
	set  func(ast.Statement)
}

// change is one edit of a tree through its exported fields.
type change struct {
	name string
	do   func()
}

// parts collects the expressions of a tree and the edits of everything else.
type parts struct {
	places  []place
	changes []change
	root    *ast.FunctionOrProcedure
}

func (p *parts) add(name string, do func()) { p.changes = append(p.changes, change{name, do}) }

func (p *parts) expr(role string, v ast.Statement, set func(ast.Statement)) {
	if v == nil {
		return
	}
	p.places = append(p.places, place{role, v, set})
	switch x := v.(type) {
	case ast.VarStatement:
		p.add("name", func() { x.Name += "ъ"; set(x) })
	case *ast.ExpStatement:
		if !bareNot(x.Left) && !bareNot(x.Right) {
			for _, o := range []ast.OperationType{ast.OpPlus, ast.OpMinus, ast.OpMul, ast.OpDiv, ast.OpMod, ast.OpEq, ast.OpGt, ast.OpLt, ast.OpNe, ast.OpLe, ast.OpGe, ast.OpOr, ast.OpAnd} {
				if o := o; o != x.Operation {
					p.add("operator", func() { x.Operation = o })
				}
			}
			p.add("sides", func() { x.Left, x.Right = x.Right, x.Left })
		}
		p.expr("operand", x.Left, func(n ast.Statement) { x.Left = n })
		p.expr("operand", x.Right, func(n ast.Statement) { x.Right = n })
	case ast.ExprStatements:
		for i := range x.Statements {
			i := i
			p.expr("operand", x.Statements[i], func(n ast.Statement) { x.Statements[i] = n })
		}
	case ast.MethodStatement:
		p.add("name of a call", func() { x.Name += "ъ"; set(x) })
		if ref.Lower(x.Name) == "выполнить" { // takes exactly one
			l := x.Param.Statements
			p.expr("value", l[0], func(n ast.Statement) { l[0] = n })
			return
		}
		p.args(x.Param.Statements, func(l ast.Statements) { x.Param.Statements = l; set(x) })
	case ast.NewObjectStatement:
		if x.Constructor != "" {
			p.add("name of a constructor", func() { x.Constructor += "ъ"; set(x) })
		}
		p.args(x.Param.Statements, func(l ast.Statements) { x.Param.Statements = l; set(x) })
	case ast.CallChainStatement:
		p.expr("unit", x.Unit, func(n ast.Statement) { x.Unit = n; set(x) })
		p.expr("chain", x.Call, func(n ast.Statement) { x.Call = n; set(x) })
	case ast.ItemStatement:
		p.expr("value", x.Item, func(n ast.Statement) { x.Item = n; set(x) })
		in := "member"
		if role == "unit" {
			in = role
		}
		p.expr(in, x.Object, func(n ast.Statement) { x.Object = n; set(x) })
	case ast.TernaryStatement:
		p.expr("value", x.Expression, func(n ast.Statement) { x.Expression = n; set(x) })
		p.expr("value", x.TrueBlock, func(n ast.Statement) { x.TrueBlock = n; set(x) })
		p.expr("value", x.ElseBlock, func(n ast.Statement) { x.ElseBlock = n; set(x) })
	}
}

// bareNot: an operand that begins with Не has its place behind looser operators only, or in brackets.
func bareNot(s ast.Statement) bool {
	return strings.HasPrefix((&ast.AstNode{}).PrintStatement(s), "Не ")
}

func (p *parts) args(l ast.Statements, set func(ast.Statements)) {
	put := func(n ast.Statements) func() { return func() { set(n) } }
	p.add("one argument more", put(append(append(ast.Statements{}, l...), 5.5)))
	p.add("one argument before", put(append(ast.Statements{"ю"}, l...)))
	for i := range l {
		i := i
		p.add("one argument less", put(append(append(ast.Statements{}, l[:i]...), l[i+1:]...)))
		if i > 0 {
			m := append(ast.Statements{}, l...)
			m[i], m[i-1] = m[i-1], m[i]
			p.add("arguments swapped", put(m))
		}
		if l[i] == nil {
			p.add("argument given", func() { l[i] = 5.5; set(l) })
		} else if len(l) > 1 {
			p.add("argument left out", func() { l[i] = nil; set(l) })
		}
		p.expr("value", l[i], func(n ast.Statement) { l[i] = n; set(l) })
	}
}

// block lists the edits of a list of statements from its element number from on.
func (p *parts) block(l ast.Statements, from int, fresh func() ast.Statement, set func(ast.Statements)) {
	put := func(n ast.Statements) func() { return func() { set(n) } }
	for i := from; i <= len(l); i++ {
		p.add("statement put in", put(append(append(append(ast.Statements{}, l[:i]...), fresh()), l[i:]...)))
		if i == len(l) {
			break
		}
		p.add("statement taken out", put(append(append(ast.Statements{}, l[:i]...), l[i+1:]...)))
		p.add("statement replaced", func() { l[i] = fresh(); set(l) })
		if i > from {
			m := append(ast.Statements{}, l...)
			m[i], m[i-1] = m[i-1], m[i]
			p.add("statements swapped", put(m))
		}
	}
	for i := range l {
		p.stmt(l[i], func(n ast.Statement) { l[i] = n; set(l) })
	}
}

func fresh() ast.Statement {
	return ast.AssignmentStatement{Var: ast.VarStatement{Name: "новая"}, Expr: ast.ExprStatements{Statements: ast.Statements{3.5}}}
}

func (p *parts) stmt(s ast.Statement, set func(ast.Statement)) {
	switch x := s.(type) {
	case *ast.FunctionOrProcedure:
		p.root = x
		p.function(x)
		p.root = nil
	case ast.AssignmentStatement:
		p.expr("target", x.Var, func(n ast.Statement) { x.Var = n; set(x) })
		if len(x.Expr.Statements) == 1 {
			p.expr("value", x.Expr.Statements[0], func(n ast.Statement) { x.Expr.Statements[0] = n; set(x) })
		}
	case *ast.IfStatement:
		p.expr("value", x.Expression, func(n ast.Statement) { x.Expression = n })
		p.block(x.TrueBlock, 0, fresh, func(l ast.Statements) { x.TrueBlock = l })
		p.block(x.ElseBlock, 0, fresh, func(l ast.Statements) { x.ElseBlock = l })
		branch := func() ast.Statement {
			return &ast.IfStatement{Expression: ast.VarStatement{Name: "ветка"}, TrueBlock: ast.Statements{fresh()}}
		}
		l := x.IfElseBlock
		for i := 0; i <= len(l); i++ {
			n := append(append(append(ast.Statements{}, l[:i]...), branch()), l[i:]...)
			p.add("branch put in", func() { x.IfElseBlock = n })
			if i == len(l) {
				break
			}
			m := append(append(ast.Statements{}, l[:i]...), l[i+1:]...)
			p.add("branch taken out", func() { x.IfElseBlock = m })
			e := l[i].(*ast.IfStatement)
			p.expr("value", e.Expression, func(n ast.Statement) { e.Expression = n })
			p.block(e.TrueBlock, 0, fresh, func(l ast.Statements) { e.TrueBlock = l })
		}
	case *ast.LoopStatement:
		if n, ok := x.For.(string); ok && x.In != nil {
			p.add("name of a loop variable", func() { x.For = n + "ъ" })
			p.expr("in", x.In, func(n ast.Statement) { x.In = n })
		} else {
			p.expr("for", x.For, func(n ast.Statement) { x.For = n })
			p.expr("value", x.To, func(n ast.Statement) { x.To = n })
			p.expr("value", x.WhileExpr, func(n ast.Statement) { x.WhileExpr = n })
		}
		p.block(x.Body, 0, fresh, func(l ast.Statements) { x.Body = l })
	case ast.TryStatement:
		p.block(x.Body, 0, fresh, func(l ast.Statements) { x.Body = l; set(x) })
		p.block(x.Catch, 0, fresh, func(l ast.Statements) { x.Catch = l; set(x) })
	case ast.ThrowStatement:
		if x.Param != nil {
			if e, ok := x.Param.(ast.ExprStatements); ok && impl.Expr(e).T == "tuple" {
				if len(e.Statements) < 2 {
					return
				}
				p.args(e.Statements, func(l ast.Statements) { e.Statements = l; x.Param = e; set(x) })
			} else {
				p.expr("value", x.Param, func(n ast.Statement) { x.Param = n; set(x) })
			}
		} else {
			p.add("exception named", func() { x.Param = "ю"; set(x) })
		}
	case *ast.ReturnStatement:
		if x.Param != nil {
			p.expr("value", x.Param, func(n ast.Statement) { x.Param = n })
			p.add("value of a return taken out", func() { x.Param = nil })
		} else if p.root != nil && p.root.Type == ast.PFTypeFunction {
			p.add("value of a return put in", func() { x.Param = 5.5 })
		}
	case *ast.GoToLabelStatement:
		p.add("name of a label", func() { x.Name += "ъ" })
	case ast.GoToStatement:
		p.add("name of a target", func() { x.Label.Name += "ъ" })
	case ast.MethodStatement, ast.CallChainStatement:
		p.expr("call", s, set)
	}
}

func (p *parts) function(f *ast.FunctionOrProcedure) {
	p.add("name of a procedure", func() { f.Name += "ъ" })
	p.add("export", func() { f.Export = !f.Export })
	for _, d := range []string{"", "&НаКлиенте", "&НаСервере"} {
		if d != f.Directive {
			p.add("directive", func() { f.Directive = d })
		}
	}
	if !strings.Contains(impl.Block(f.Body).String(), "(return (") && !strings.Contains(impl.Block(f.Body).String(), "(return _") || f.Type == ast.PFTypeProcedure {
		p.add("kind", func() { f.Type = ast.PFTypeProcedure + ast.PFTypeFunction - f.Type })
	}
	l := f.Params
	p.add("parameter added", func() {
		f.Params = append(append([]ast.ParamStatement{}, l...), ast.ParamStatement{Name: "нов", IsValue: true, Default: -2.5})
	})
	for i := range l {
		p.add("parameter taken out", func() { f.Params = append(append([]ast.ParamStatement{}, l[:i]...), l[i+1:]...) })
		p.add("name of a parameter", func() { f.Params[i].Name += "ъ" })
		p.add("Знач", func() { f.Params[i].IsValue = !f.Params[i].IsValue })
		if i > 0 {
			p.add("parameters swapped", func() { l[i], l[i-1] = l[i-1], l[i] })
		}
		if l[i].Default == nil {
			p.add("default added", func() { f.Params[i].Default = ast.UndefinedStatement{} })
		} else {
			p.add("default taken out", func() { f.Params[i].Default = nil })
			p.expr("default", l[i].Default, func(n ast.Statement) { f.Params[i].Default = n })
		}
	}
	p.add("local added", func() {
		if f.ExplicitVariables == nil {
			f.ExplicitVariables = map[string]ast.VarStatement{}
		}
		f.ExplicitVariables["нов"] = ast.VarStatement{Name: "нов"}
	})
	for _, k := range keysOf(f.ExplicitVariables) {
		p.add("local taken out", func() { delete(f.ExplicitVariables, k) })
		p.add("local renamed", func() {
			delete(f.ExplicitVariables, k)
			f.ExplicitVariables[k+"ъ"] = ast.VarStatement{Name: k + "ъ"}
		})
	}
	p.block(f.Body, 0, fresh, func(l ast.Statements) { f.Body = l })
}

func keysOf[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// partsOf lists everything that can be edited in a tree.
func partsOf(m *ast.ModuleStatement) *parts {
	p := &parts{}
	p.add("module variable added", func() {
		if m.GlobalVariables == nil {
			m.GlobalVariables = map[string]ast.GlobalVariables{}
		}
		m.GlobalVariables["нов"] = ast.GlobalVariables{Directive: "&НаКлиенте", Var: ast.VarStatement{Name: "нов"}, Export: true}
	})
	for _, k := range keysOf(m.GlobalVariables) {
		v := m.GlobalVariables[k]
		p.add("module variable taken out", func() { delete(m.GlobalVariables, k) })
		p.add("module variable renamed", func() {
			delete(m.GlobalVariables, k)
			v.Var.Name = k + "ъ"
			m.GlobalVariables[k+"ъ"] = v
		})
		p.add("module variable exported", func() { v.Export = !v.Export; m.GlobalVariables[k] = v })
		p.add("directive of a module variable", func() {
			v.Directive = map[bool]string{true: "", false: "&НаСервере"}[v.Directive != ""]
			m.GlobalVariables[k] = v
		})
	}
	n := 0
	for n < len(m.Body) {
		if _, ok := m.Body[n].(*ast.FunctionOrProcedure); !ok {
			break
		}
		n++
	}
	for i := 0; i < n; i++ {
		l := m.Body
		p.add("procedure taken out", func() { m.Body = append(append(ast.Statements{}, l[:i]...), l[i+1:]...) })
		if i > 0 {
			p.add("procedures swapped", func() { l[i], l[i-1] = l[i-1], l[i] })
		}
	}
	p.add("procedure put in", func() {
		m.Body = append(ast.Statements{&ast.FunctionOrProcedure{Type: ast.PFTypeFunction, Name: "нов", Body: ast.Statements{&ast.ReturnStatement{Param: 1.5}}}}, m.Body...)
	})
	p.block(m.Body, n, fresh, func(l ast.Statements) { m.Body = l })
	return p
}

// values may stand for an expression; operands and members are more restricted.
func values(role string) []func() ast.Statement {
	v := func(n string) ast.VarStatement { return ast.VarStatement{Name: n} }
	one := func(l ...ast.Statement) ast.ExprStatements { return ast.ExprStatements{Statements: l} }
	call := func() ast.Statement { return ast.MethodStatement{Name: "к", Param: one(nil, 2.5)} }
	members := []func() ast.Statement{
		func() ast.Statement { return v("ю") },
		call,
		func() ast.Statement { return ast.ItemStatement{Object: v("ю"), Item: 1.0} },
	}
	chain := func() ast.Statement { return ast.CallChainStatement{Unit: call(), Call: v("ю")} }
	tern := func() ast.Statement {
		return ast.TernaryStatement{Expression: v("ю"), TrueBlock: "т", ElseBlock: &ast.ExpStatement{Left: 1.0, Operation: ast.OpPlus, Right: v("э")}}
	}
	object := func() ast.Statement { return ast.NewObjectStatement{Constructor: "О", Param: one(1.5, nil, v("э"))} }
	literals := []func() ast.Statement{
		func() ast.Statement { return 7.25 },
		func() ast.Statement { return -3.0 },
		func() ast.Statement { return 1e21 },
		func() ast.Statement { return "с\"\"т\n|р" },
		func() ast.Statement { return true },
		func() ast.Statement { return false },
		func() ast.Statement { return time.Date(2024, 2, 29, 23, 59, 1, 0, time.UTC) },
		func() ast.Statement { return ast.UndefinedStatement{} },
		func() ast.Statement { return 12 }, // numbers of the other types a program may hold
		func() ast.Statement { return int64(-1234567890123) },
		func() ast.Statement { return int32(40) },
		func() ast.Statement { return float32(0.3) },
	}
	switch role {
	case "member", "unit":
		return members
	case "chain", "target":
		return append(members, chain)
	case "in":
		return append(members, chain, object, tern)
	case "call":
		return []func() ast.Statement{call, chain}
	case "for": // an equality there would be another program
		return append(append(literals, members...), chain)
	case "default":
		return append(literals, func() ast.Statement { return v("ю").UnaryMinus() })
	}
	all := append(append(literals, members...), chain, tern, object,
		func() ast.Statement { return ast.ExpStatement{Left: v("ю"), Operation: ast.OpOr, Right: int64(5)} },
		func() ast.Statement {
			x := one(&ast.ExpStatement{Left: v("ю"), Operation: ast.OpLt, Right: "э"})
			return &x
		},
		func() ast.Statement { return v("ю").UnaryMinus() },
		func() ast.Statement { return ast.CallChainStatement{Unit: v("ю"), Call: call()}.UnaryMinus() },
		func() ast.Statement { return &ast.ExpStatement{Left: v("ю"), Operation: ast.OpMinus, Right: 4.0} },
		func() ast.Statement {
			return (&ast.ExpStatement{Left: v("ю"), Operation: ast.OpEq, Right: v("э")}).Not()
		},
		func() ast.Statement {
			return &ast.ExpStatement{Left: &ast.ExpStatement{Left: v("ю"), Operation: ast.OpOr, Right: v("э")}, Operation: ast.OpMul, Right: 2.0}
		},
		func() ast.Statement {
			return one(&ast.ExpStatement{Left: 8.0, Operation: ast.OpAnd, Right: v("э")}).UnaryMinus()
		})
	if role == "value" {
		all = append(all, func() ast.Statement { return v("ю").Not() }, func() ast.Statement { return call().(ast.MethodStatement).Not() }, func() ast.Statement { return one(v("ю")).Not() })
	}
	return all
}

// all lists every edit of a tree.
func (p *parts) all() []change {
	l := p.changes
	for _, x := range p.places {
		for i, v := range values(x.role) {
			l = append(l, change{fmt.Sprintf("%s replaced by %d", x.role, i), func() { x.set(v()) }})
		}
	}
	return l
}

// asItIs: after an edit prints, documents and walks show the tree as it then is.
func asItIs(w *eng.W, src string) {
	first, ok := parsed(w, src)
	if !ok {
		return
	}
	before := first.Tree().String()
	n := len(partsOf(first.Module()).all())
	for k := 0; k < n; k++ {
		a := impl.Parse(src)
		l := partsOf(a.Module()).all()
		if len(l) != n {
			w.Fail("the same text gives trees with %d and %d parts", n, len(l))
			return
		}
		if msg := impl.Protect(func() { // whatever is kept must not show later
			a.A.Print(confs[1])
			a.A.JSON()
			a.Module().Walk(func(*ast.FunctionOrProcedure, *ast.Statement, *ast.Statement) {})
		}); msg != "" {
			w.Fail("%s", msg)
			return
		}
		l[k].do()
		now := impl.ByHand(a.Tree())
		want := now.String()
		w.Outcome(strings.TrimRight(l[k].name, "0123456789 "))
		for _, c := range confs[1:3] {
			p, ok := doPrint(w, a.A, c)
			if !ok {
				return
			}
			again := impl.Parse(p)
			if again.Err != nil || again.Panic != "" {
				w.Fail("edit %d (%s), printed with %+v:\n%s\nis not accepted: %v", k, l[k].name, c, p, again.Err)
				return
			}
			if x := again.Tree().String(); x != want {
				w.Fail("edit %d (%s), printed with %+v:\n%s\n%s", k, l[k].name, c, p, diff(want, x))
				return
			}
		}
		if x := impl.ByHand(a.Tree()).String(); x != want || x == before && l[k].name != "statements swapped" && !strings.Contains(l[k].name, "replaced") && !strings.Contains(l[k].name, "argument") && l[k].name != "sides" && !strings.Contains(l[k].name, "swapped") {
			w.Fail("edit %d (%s) gives %s", k, l[k].name, x)
			return
		}
		var b []byte
		var err error
		if msg := impl.Protect(func() { b, err = a.A.JSON() }); msg != "" || err != nil {
			w.Fail("edit %d (%s), JSON: %v %s", k, l[k].name, err, msg)
			return
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var doc any
		if err := d.Decode(&doc); err != nil {
			w.Fail("not a JSON document: %v\n%s", err, b)
			return
		}
		if e := sameJSON(js(a.Module()), doc, "module"); e != "" {
			w.Fail("edit %d (%s): %s\n%s", k, l[k].name, e, b)
			return
		}
		all, _ := slots(a.Module())
		seen := 0
		if msg := record(a.Module(), func(v visit) {
			if all[v.slot] != nil {
				seen++
			}
		}); msg != "" || seen != len(all) {
			w.Fail("edit %d (%s): %d of %d statements are visited %s", k, l[k].name, seen, len(all), msg)
			return
		}
	}
}

// alone: every expression of a tree, printed on its own, reads back as that expression.
// spots are programs with a place for one value.
var spots = []struct {
	src string
	set func(*ast.ModuleStatement, ast.Statement)
}{
	{"р = 5;", func(m *ast.ModuleStatement, v ast.Statement) {
		m.Body[0].(ast.AssignmentStatement).Expr.Statements[0] = v
	}},
	{"ф(а, 5);", func(m *ast.ModuleStatement, v ast.Statement) {
		m.Body[0].(ast.MethodStatement).Param.Statements[1] = v
	}},
	{"Если а Тогда КонецЕсли;", func(m *ast.ModuleStatement, v ast.Statement) { m.Body[0].(*ast.IfStatement).Expression = v }},
	{"Если а < б Тогда КонецЕсли;", func(m *ast.ModuleStatement, v ast.Statement) {
		m.Body[0].(*ast.IfStatement).Expression.(*ast.ExpStatement).Right = v
	}},
	{"Если а - б Тогда КонецЕсли;", func(m *ast.ModuleStatement, v ast.Statement) {
		m.Body[0].(*ast.IfStatement).Expression.(*ast.ExpStatement).Left = v
	}},
	{"Процедура п(а = 5, б) КонецПроцедуры", func(m *ast.ModuleStatement, v ast.Statement) {
		m.Body[0].(*ast.FunctionOrProcedure).Params[0].Default = v
	}},
	{"Функция п() Возврат 5; КонецФункции", func(m *ast.ModuleStatement, v ast.Statement) {
		m.Body[0].(*ast.FunctionOrProcedure).Body[0].(*ast.ReturnStatement).Param = v
	}},
}

// written is the number of a kind of Go, nil if the kind has none of that value.
func written(kind int, f float64) ast.Statement {
	whole := f == math.Trunc(f)
	switch kind {
	case 0:
		return f
	case 1:
		return float32(f)
	case 2:
		if whole && math.Abs(f) < 1<<53 {
			return int(f)
		}
	case 3:
		if whole && math.Abs(f) < 1<<53 {
			return int64(f)
		}
	case 4:
		if whole && math.Abs(f) < 1<<31 {
			return int32(f)
		}
	}
	return nil
}

// put checks a tree in which a number was put by hand.
func put(w *eng.W, spot, kind int, f float64) {
	v := written(kind, f)
	if x, ok := v.(float32); v == nil || ok && math.IsInf(float64(x), 0) {
		return
	}
	s := spots[spot]
	w.Input(fmt.Sprintf("%s with %T %v", s.src, v, v))
	w.Trace()
	a := impl.Parse(s.src)
	if a.Err != nil || a.Panic != "" {
		w.Fail("not accepted: %v %s", a.Err, a.Panic)
		return
	}
	a.A.Print(confs[1])
	if msg := impl.Protect(func() { s.set(a.Module(), v) }); msg != "" {
		w.Outcome("no such place")
		return
	}
	want := impl.ByHand(a.Tree()).String()
	for _, c := range confs {
		p, ok := doPrint(w, a.A, c)
		if !ok {
			return
		}
		again := impl.Parse(p)
		if again.Err != nil || again.Panic != "" {
			w.Fail("printed with %+v:\n%s\nis not accepted: %v", c, p, again.Err)
			return
		}
		if x := again.Tree().String(); x != want {
			w.Fail("printed with %+v:\n%s\n%s", c, p, diff(want, x))
			return
		}
	}
	w.Outcome(fmt.Sprintf("%T", v))
}

func printedAlone(w *eng.W, src string) {
	got, ok := parsed(w, src)
	if !ok {
		return
	}
	for _, x := range partsOf(got.Module()).places {
		e := impl.Expr(x.v)
		if e.T == "label" || e.T == "goto" { // alone they are statements
			continue
		}
		host := "р = "
		if x.role == "unit" { // a member may have the name of a keyword
			host = "р = о."
			e = ref.N("dot", "", ref.N("id", "о"), e)
		}
		want := e.String()
		var first string
		for k := 0; k < 3; k++ {
			var text string
			if msg := impl.Protect(func() {
				switch k {
				case 0:
					text = got.A.PrintStatement(x.v)
				case 1:
					text = got.A.PrintStatementWithConf(x.v, ast.PrintConf{OneLine: true})
				case 2:
					text = (&ast.AstNode{}).PrintStatementWithConf(x.v, ast.PrintConf{Margin: 4})
				}
			}); msg != "" {
				w.Fail("printing %s: %s", want, msg)
				return
			}
			if k == 0 {
				first = text
			} else if squeeze(text) != squeeze(first) {
				w.Fail("%s is printed as %q and as %q", want, first, text)
				return
			}
			p := impl.Parse(host + strings.TrimSuffix(strings.TrimSpace(text), ";"))
			if p.Err != nil || p.Panic != "" || len(p.Module().Body) != 1 {
				w.Fail("%s is printed as %q, which is no expression: %v %s", want, text, p.Err, p.Panic)
				return
			}
			s, ok := p.Module().Body[0].(ast.AssignmentStatement)
			if !ok || impl.Expr(s.Expr).String() != want {
				w.Fail("%s is printed as %q, which reads %s", want, text, impl.Block(p.Module().Body))
				return
			}
		}
		if y := impl.Expr(x.v).String(); y != want && x.role != "unit" {
			w.Fail("printing %s changed it: %s", want, y)
			return
		}
		w.Outcome("printed " + e.T)
	}
}

// helpers: the exported methods of nodes answer what the tree says, and leave it as it is.
func helpers(w *eng.W, src string) {
	got, _, ok := conform(w, src)
	if !ok {
		return
	}
	m := got.Module()
	before := got.Tree().String()
	for _, x := range partsOf(m).places {
		e := impl.Expr(x.v)
		marked := func(mark string, do func() any) bool {
			want := ref.N(mark, "", e)
			switch {
			case e.T == "num" || e.T == "bool" || e.T == "not" && mark == "neg":
				return true
			case e.T == mark || e.T == "not": // the mark is there already
				want = e
			}
			var y any
			if msg := impl.Protect(func() { y = do() }); msg != "" {
				w.Fail("%s of %s: %s", mark, e, msg)
				return false
			}
			if g, r := impl.Expr(y).String(), want.String(); g != r {
				w.Fail("%s of %s gives %s", mark, e, g)
				return false
			}
			w.Outcome(mark + " of " + e.T)
			return true
		}
		good := true
		switch v := x.v.(type) {
		case ast.CallChainStatement:
			var m bool
			if msg := impl.Protect(func() { m = v.IsMethod() }); msg != "" {
				w.Fail("IsMethod: %s", msg)
				return
			}
			if last := impl.Expr(v.Unit).T == "call"; m != last {
				w.Fail("IsMethod of %s is %v", e, m)
				return
			}
			w.Outcome(fmt.Sprint("chain ending in a call: ", m))
			good = marked("not", v.Not) && marked("neg", v.UnaryMinus)
		case ast.VarStatement:
			good = marked("not", v.Not) && marked("neg", v.UnaryMinus)
		case *ast.ExpStatement:
			if x, y := strings.ToUpper(v.Operation.String()), impl.Operator(v.Operation); x != y {
				w.Fail("the operation %s is named %s", y, x)
				return
			}
			w.Outcome("name of " + v.Operation.String())
			n, m := *v, *v // these two methods mark the node itself
			good = marked("not", n.Not) && marked("neg", m.UnaryMinus)
		case ast.MethodStatement:
			if x, y := impl.Expr(v.Params()).String(), impl.Expr(v.Param).String(); x != y {
				w.Fail("parameters of %s: %s", v.Name, x)
				return
			}
			good = marked("not", v.Not)
		case ast.NewObjectStatement:
			if x, y := impl.Expr(v.Params()).String(), impl.Expr(v.Param).String(); x != y {
				w.Fail("parameters of %s: %s", v.Constructor, x)
				return
			}
		}
		if !good {
			return
		}
	}
	if x := got.Tree().String(); x != before {
		w.Fail("the helpers changed the tree:\n%s", diff(before, x))
		return
	}
	walksOfParts(w, m)
	again, msg := assembled(m)
	if msg != "" || impl.Module(again).String() != impl.Module(m).String() {
		w.Fail("appended part by part: %s %s", msg, impl.Module(again))
		return
	}
	// the two grow and change apart
	own := ast.VarStatement{Name: "своя"}
	other := ast.VarStatement{Name: "иная"}
	n := len(m.Body)
	if msg := impl.Protect(func() {
		again.Append(own, got.A)
		m.Append(ast.Statements{other, other}, got.A)
		again.Append(ast.Statements{own}, got.A)
	}); msg != "" {
		w.Fail("Append: %s", msg)
		return
	}
	tail := impl.Block(again.Body[n:]).String() + impl.Block(m.Body[n:]).String()
	if want := impl.Block(ast.Statements{own, own}).String() + impl.Block(ast.Statements{other, other}).String(); tail != want {
		w.Fail("modules appended to in turn end with %s", tail)
		return
	}
	for i := range again.Body {
		again.Body[i] = own
	}
	m.Body = m.Body[:n]
	if x := got.Tree().String(); x != before {
		w.Fail("a change of the assembled module changed the other one:\n%s", diff(before, x))
	}
}

// walksOfParts: a walk over one block hands out its statements and what they contain, as the walk over the module does.
func walksOfParts(w *eng.W, m *ast.ModuleStatement) {
	all, _ := slots(m)
	var block func(owner ast.Statement, l ast.Statements) map[*ast.Statement]bool
	block = func(owner ast.Statement, l ast.Statements) map[*ast.Statement]bool {
		in := map[*ast.Statement]bool{}
		take := func(m map[*ast.Statement]bool) {
			for s := range m {
				in[s] = true
			}
		}
		for i := range l {
			in[&l[i]] = true
			switch v := l[i].(type) {
			case *ast.FunctionOrProcedure:
				take(block(v, v.Body))
			case *ast.IfStatement:
				take(block(v, v.TrueBlock))
				take(block(v, v.IfElseBlock))
				take(block(v, v.ElseBlock))
			case *ast.LoopStatement:
				take(block(v, v.Body))
			case ast.TryStatement:
				take(block(v, v.Body))
				take(block(v, v.Catch))
			}
		}
		n := map[*ast.Statement]int{}
		if msg := impl.Protect(func() {
			ast.StatementWalk(owner, l, func(_ *ast.FunctionOrProcedure, parent, s *ast.Statement) {
				if all[s] == nil {
					return
				}
				n[s]++
				for i := range l {
					if s == &l[i] && (parent == nil || id(*parent) != id(owner)) {
						w.Fail("walk over a block: a statement of it has another owner")
					}
				}
			})
		}); msg != "" {
			w.Fail("walk over a block: %s", msg)
		}
		for s := range in {
			if n[s] != 1 {
				w.Fail("walk over a block visits %s %d times", impl.Stmt(*s), n[s])
			}
		}
		if len(n) != len(in) {
			w.Fail("walk over a block visits %d statements of %d", len(n), len(in))
		}
		return in
	}
	block(m.Body, m.Body)
	foreign(w, m)
}

// foreign: a walk over a block visits that block, whatever is given as its owner.
func foreign(w *eng.W, m *ast.ModuleStatement) {
	var blocks []ast.Statements
	owners := []ast.Statement{nil, m.Body}
	kinds := map[string]int{}
	var collect func(l ast.Statements)
	collect = func(l ast.Statements) {
		blocks = append(blocks, l)
		for _, s := range l {
			if k := fmt.Sprintf("%T", s); kinds[k] < 2 {
				kinds[k]++
				owners = append(owners, s)
			}
			switch v := s.(type) {
			case *ast.FunctionOrProcedure:
				collect(v.Body)
			case *ast.IfStatement:
				collect(v.TrueBlock)
				collect(v.IfElseBlock)
				collect(v.ElseBlock)
			case *ast.LoopStatement:
				collect(v.Body)
			case ast.TryStatement:
				collect(v.Body)
				collect(v.Catch)
			}
		}
	}
	collect(m.Body)
	blocks = append(blocks, ast.Statements{ast.VarStatement{Name: "чужая"}}, ast.Statements{ast.BreakStatement{}, ast.ContinueStatement{}, &ast.ReturnStatement{}})
	for _, l := range blocks[max(0, len(blocks)-12):] {
		var plain []*ast.Statement
		if msg := impl.Protect(func() {
			ast.StatementWalk("никто", l, func(_ *ast.FunctionOrProcedure, _, s *ast.Statement) {
				for i := range l {
					if s == &l[i] {
						plain = append(plain, s)
					}
				}
			})
		}); msg != "" {
			w.Fail("walk over a block: %s", msg)
			return
		}
		if len(plain) != len(l) {
			w.Fail("walk over a block of %d statements visits %d of them", len(l), len(plain))
			return
		}
		for _, o := range owners {
			n, good := 0, true
			if msg := impl.Protect(func() {
				ast.StatementWalk(o, l, func(_ *ast.FunctionOrProcedure, parent, s *ast.Statement) {
					for i := range l {
						if s == &l[i] {
							good = good && n < len(plain) && plain[n] == s && parent != nil && id(*parent) == id(o)
							n++
						}
					}
				})
			}); msg != "" {
				w.Fail("walk over a block: %s", msg)
				return
			}
			if !good || n != len(l) {
				w.Fail("walk over the block %s with another owner (%T) visits %d of its statements, or gives them another owner", impl.Block(l), o, n)
				return
			}
		}
	}
}

// assembled appends everything a module holds to an empty one.
func assembled(m *ast.ModuleStatement) (*ast.ModuleStatement, string) {
	n := &ast.ModuleStatement{Name: m.Name}
	y := ast.NewAST("")
	msg := impl.Protect(func() {
		var l []ast.GlobalVariables
		for i, k := range keysOf(m.GlobalVariables) {
			if i%2 == 0 {
				n.Append(m.GlobalVariables[k], y)
			} else {
				l = append(l, m.GlobalVariables[k])
			}
		}
		n.Append(l, y)
		for i, s := range m.Body {
			if _, ok := s.(*ast.FunctionOrProcedure); ok {
				n.Append(s, y)
			} else {
				n.Append(m.Body[i:], y)
				break
			}
		}
	})
	return n, msg
}

func init() {
	register("C27", func(r *eng.Run) {
		for _, s := range append(exprSpaces(r), declSpaces(r)[:3]...) {
			visitAll(r, s.name, s.gen, printedAlone)
		}
		visitAll(r, "literals", func(c *eng.Ch) string {
			return strings.ReplaceAll(eng.One(c, strHosts), "%", charStrings(2, strParts)(c))
		}, printedAlone)
		visitAll(r, "numbers of any length", gen.NumberShapes(r.Bound(24, 60), r.Bound(20, 40), numHosts2), printedAlone)
		visitAll(r, "numbers", func(c *eng.Ch) string {
			return hostNum(c, charStrings(r.Bound(4, 6), []string{"0", "1", "5", "9", "."})(c))
		}, printedAlone)
		visitAll(r, "blocks of every kind", gen.Stmts{Budget: 3, Leaves: gen.AllLeaves, Nests: gen.AllNests, Seps: 1}.Blocks(), printedAlone)
		for _, s := range variations(r)[:2] {
			visitAll(r, s.name, s.gen, printedAlone)
		}
		visitAll(r, "sentences and programs", programs, printedAlone)
		rows(r, "expressions in frames", around(4, r.Bound(16, 64)), around(4, r.Bound(16, 64)), gen.ExprFrames, gen.ExprRows, "р = %s;", printedAlone)
		sizes(r, "lengths", r.Bound(16, 130), []int{24, 32, 33, 64, 65, 100, 128, 257, 513}, gen.Lengths, printedAlone)
		sizes(r, "lengths within", r.Bound(3, 40), []int{9, 17, 33, 65}, gen.Inside, printedAlone)
		sizes(r, "depths", r.Bound(16, 100), []int{32, 64}, gen.Depths, printedAlone)
	})
	register("C28", func(r *eng.Run) {
		var nums []float64
		for _, m := range []float64{0, 1, 2, 3, 5, 7, 9, 10, 12, 25, 99, 101, 125, 999, 1024, 4095, 65535, 99999, 123456, 999999, 1000001, 16777216, 16777217, 2147483647, 123456789, 9007199254740991, 0.1, 0.3, 1.0 / 3, math.Pi} {
			for d := -r.Bound(12, 30); d <= r.Bound(24, 36); d++ {
				nums = append(nums, m*math.Pow(2, float64(d)), -m*math.Pow(2, float64(d)), m*math.Pow(10, float64(d)), -m*math.Pow(10, float64(d)))
			}
		}
		nums = slices.DeleteFunc(nums, func(f float64) bool { return f == 0 && math.Signbit(f) })
		eng.Explore(r, "numbers put in by hand", func(c *eng.Ch) [3]int {
			return [3]int{c.Pick(len(spots)), c.Pick(5), c.Pick(len(nums))}
		}, func(w *eng.W, k [3]int) {
			w.State(1)
			put(w, k[0], k[1], nums[k[2]])
		})
		small := func(name string, g func(*eng.Ch) string) { visitAll(r, name, g, asItIs) }
		small("sentences", func(c *eng.Ch) string { return eng.One(c, gen.Sentences) })
		small("operands in contexts", gen.Operands(gen.ExprContexts, false))
		small("operator sequences", gen.Flat(2, gen.OpLevels, []string{"", "-", "Не "}))
		small("access chains", gen.Chains(r.Bound(2, 4)))
		small("lists and labels as values", gen.Lists(r.Bound(0, 1), gen.ExprContexts[:r.Bound(2, 30)]))
		small("expressions as statements", gen.Bare(r.Bound(0, 1)))
		small("argument lists", gen.ArgLists(r.Bound(3, 4)))
		small("blocks of every kind", gen.Stmts{Budget: r.Bound(2, 3), Leaves: gen.AllLeaves, Nests: gen.AllNests, Seps: 1}.Blocks())
		small("blocks", gen.Stmts{Budget: r.Bound(3, 5), Leaves: []string{"assign"}, Nests: []string{"if", "for", "try"}, Contexts: gen.BodyContexts[:1]}.Blocks())
		small("parameter defaults", gen.Params(1, gen.Defaults))
		small("locals", gen.Locals(2, 3))
		small("globals", gen.Globals(2, 2))
		small("literals in places", gen.InHosts(gen.LiteralHosts, gen.Literals))
		small("modules", gen.Modules(r.Bound(2, 3)))
		small("functions and statements", funcsAndStmts(r.Bound(2, 3)))
		if !r.Quick() {
			small("headers", gen.Headers())
			small("bracketed sequences", gen.Grouped(2, gen.OpLevels, []string{"", "-", "Не "}, []string{"", "-", "Не "}))
			small("nested expressions", gen.ExprTree(3))
			small("edited sentences", editedSentences)
			eng.Over(r, "programs", gen.Programs, asItIs)
		}
	})
	register("C29", func(r *eng.Run) {
		for _, s := range append(exprSpaces(r), declSpaces(r)...) {
			visitAll(r, s.name, s.gen, helpers)
		}
		visitAll(r, "blocks of every kind", gen.Stmts{Budget: 3, Leaves: gen.AllLeaves, Nests: gen.AllNests, Seps: 1}.Blocks(), helpers)
		visitAll(r, "functions and statements", funcsAndStmts(r.Bound(3, 4)), helpers)
		visitAll(r, "nesting", gen.Nesting(r.Bound(3, 4)), helpers)
		visitAll(r, "sentences and programs", programs, helpers)
		visitAll(r, "edited sentences", editedSentences, helpers)
		sizes(r, "lengths", r.Bound(16, 40), []int{33, 65, 100, 129, 257, 513, 1025}, gen.Lengths, helpers)
		sizes(r, "lengths within", r.Bound(3, 20), []int{9, 17, 33, 65, 100}, gen.Inside, helpers)
		sizes(r, "depths", r.Bound(16, 40), around(5, 7), gen.Depths, helpers)
		visitAll(r, "texts of digits", charStrings(r.Bound(4, 6), digitAlphabet), onlyDigits)
		eng.Over(r, "texts of digits with one character changed", upto(70), func(w *eng.W, n int) {
			s := strings.Repeat("0123456789", 7)[:n]
			for i := 0; i <= n; i++ {
				for c := rune(0); c < 0x500; c++ { // every letter a name may hold, and more
					w.State(1)
					onlyDigits(w, s[:i]+string(c)+s[i:])
				}
			}
		})
		eng.Explore(r, "parameters built by hand", func(c *eng.Ch) [4]int {
			return [4]int{c.Pick(len(handNames)), c.Pick(3), c.Pick(len(handDefaults) + 1), c.Pick(2)}
		}, func(w *eng.W, k [4]int) { handmade(w, handNames[k[0]], k[1] == 1, k[2]-1, k[1] == 2, k[3] == 1) })
	})
}

var digitAlphabet = []string{"0", "1", "5", "9", "/", ":", " ", "-", ".", "а", "٣", "２", "\xff", "\x00", "\xb5"}

// onlyDigits: IsDigit tells whether a text has no other characters than 0-9.
func onlyDigits(w *eng.W, s string) {
	w.Input(s)
	w.Trace()
	if got := ast.IsDigit(s); got != (strings.Trim(s, "0123456789") == "") {
		w.Fail("IsDigit(%q) = %v", s, got)
	}
}

var handNames = []string{"а", "Знач1", "ПАРАМЕТР_2", "Ёж", "x"}

var handDefaults = []ast.Statement{nil, 1.5, -1.5, "", "а", true, false, ast.UndefinedStatement{}, time.Time{}}

// handmade: Fill and DefaultValue set the parts of a parameter they are given, and no others.
func handmade(w *eng.W, name string, val bool, def int, again, defFirst bool) {
	w.State(1)
	w.Trace()
	var id, mark ast.Token
	if _, err := id.Next(source{name}); err != nil {
		w.Fail("%q: %v", name, err)
		return
	}
	mark.Next(source{"Знач"})
	p := &ast.ParamStatement{}
	want := ast.ParamStatement{Name: name, IsValue: val || again}
	setDefault := func() {
		if def < 0 {
			return
		}
		if want.Default = handDefaults[def]; want.Default == nil {
			want.Default = ast.UndefinedStatement{}
		}
		if q := p.DefaultValue(handDefaults[def]); q != p {
			w.Fail("DefaultValue gives another parameter")
		}
	}
	if defFirst {
		setDefault()
	}
	if again { // an earlier value is replaced
		p.Fill(nil, mark)
	}
	m := &mark
	if !want.IsValue {
		m = nil
	}
	if q := p.Fill(m, id); q != p {
		w.Fail("Fill gives another parameter")
	}
	if !defFirst {
		setDefault()
	}
	if !reflect.DeepEqual(*p, want) {
		w.Fail("%q %v %d: %#v, want %#v", name, val, def, *p, want)
	}
}
