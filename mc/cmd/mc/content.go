package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
	"verifmc/ref"
)

// accepted drives a program that the model accepts through the parser; no scope restriction.
func accepted(w *eng.W, src string) (impl.Out, bool) {
	w.Input(src)
	_, le, want := ref.ParseText(src)
	if le != nil || !want.OK() {
		w.Outcome("not a program")
		return impl.Out{}, false
	}
	got := impl.Parse(src)
	w.Trace()
	if got.Panic != "" || got.Err != nil {
		w.Fail("rejected: %v %s", got.Err, got.Panic)
		return got, false
	}
	return got, true
}

// ---- JSON

type field struct {
	name string
	v    any
}
type object []field

// none is a field that may be left out.
type none struct{}

func jl(l ast.Statements) any {
	r := []any{}
	for _, s := range l {
		r = append(r, js(s))
	}
	return r
}

func jexprs(e ast.ExprStatements) any { return object{{"Statements", jl(e.Statements)}} }
func jvar(v ast.VarStatement) any     { return object{{"Name", v.Name}} }

func opt(s ast.Statement) any {
	if s == nil {
		return none{}
	}
	return js(s)
}

// js is the document that stands for a piece of a tree; the names are those the package documents.
func js(s any) any {
	switch v := s.(type) {
	case nil:
		return nil
	case string, float64, bool:
		return v
	case int:
		return float64(v)
	case int32:
		return float64(v)
	case int64:
		return float64(v)
	case float32:
		f, _ := strconv.ParseFloat(strconv.FormatFloat(float64(v), 'g', -1, 32), 64)
		return f
	case ast.ExpStatement:
		return js(&v)
	case *ast.ExprStatements:
		return js(*v)
	case time.Time:
		return v.Format(time.RFC3339Nano)
	case ast.UndefinedStatement, ast.BreakStatement, ast.ContinueStatement:
		return object{}
	case ast.VarStatement:
		return jvar(v)
	case *ast.ExpStatement:
		return object{{"Left", js(v.Left)}, {"Right", js(v.Right)}, {"Operation", float64(v.Operation)}}
	case ast.ExprStatements:
		return jexprs(v)
	case ast.AssignmentStatement:
		return object{{"Var", js(v.Var)}, {"Expr", jexprs(v.Expr)}}
	case ast.MethodStatement:
		return object{{"Name", v.Name}, {"Param", jexprs(v.Param)}}
	case ast.NewObjectStatement:
		return object{{"Constructor", v.Constructor}, {"Param", jexprs(v.Param)}}
	case ast.CallChainStatement:
		return object{{"Unit", js(v.Unit)}, {"Call", js(v.Call)}}
	case ast.ItemStatement:
		return object{{"Item", js(v.Item)}, {"Object", js(v.Object)}}
	case ast.TernaryStatement:
		return object{{"Expression", js(v.Expression)}, {"TrueBlock", js(v.TrueBlock)}, {"ElseBlock", js(v.ElseBlock)}}
	case ast.GoToStatement:
		return object{{"Label", js(v.Label)}}
	case *ast.GoToLabelStatement:
		if v == nil {
			return nil
		}
		return object{{"Name", v.Name}}
	case *ast.IfStatement:
		return object{{"Expression", js(v.Expression)}, {"TrueBlock", jl(v.TrueBlock)}, {"IfElseBlock", jl(v.IfElseBlock)}, {"ElseBlock", jl(v.ElseBlock)}}
	case ast.TryStatement:
		return object{{"Body", jl(v.Body)}, {"Catch", jl(v.Catch)}}
	case ast.ThrowStatement:
		return object{{"Param", js(v.Param)}}
	case *ast.ReturnStatement:
		return object{{"Param", js(v.Param)}}
	case *ast.LoopStatement:
		return object{{"For", opt(v.For)}, {"To", opt(v.To)}, {"In", opt(v.In)}, {"WhileExpr", opt(v.WhileExpr)}, {"Body", jl(v.Body)}}
	case *ast.FunctionOrProcedure:
		lv := object{}
		for k, x := range v.ExplicitVariables {
			lv = append(lv, field{k, jvar(x)})
		}
		ps := []any{}
		for _, p := range v.Params {
			o := object{{"Default", opt(p.Default)}, {"Name", p.Name}}
			if p.IsValue {
				o = append(o, field{"IsValue", true})
			} else {
				o = append(o, field{"IsValue", none{}})
			}
			ps = append(ps, o)
		}
		return object{{"ExplicitVariables", lv}, {"Name", v.Name}, {"Directive", v.Directive}, {"Body", jl(v.Body)},
			{"Params", ps}, {"Type", float64(v.Type)}, {"Export", v.Export}}
	case *ast.ModuleStatement:
		gv := object{}
		for k, x := range v.GlobalVariables {
			gv = append(gv, field{k, object{{"Directive", x.Directive}, {"Var", jvar(x.Var)}, {"Export", x.Export}}})
		}
		o := object{{"Name", v.Name}, {"Body", jl(v.Body)}}
		if len(gv) > 0 {
			o = append(o, field{"GlobalVariables", gv})
		}
		return o
	}
	return fmt.Sprintf("unexpected %T in the tree", s)
}

// sameJSON compares a decoded document with the expected one; a missing list or table may be null.
func sameJSON(want, got any, path string) string {
	bad := func() string { return fmt.Sprintf("at %s: want %v, got %v", path, want, got) }
	switch v := want.(type) {
	case object:
		m, ok := got.(map[string]any)
		if !ok {
			if got == nil && len(v) == 0 {
				return ""
			}
			return bad()
		}
		n := 0
		for _, f := range v {
			x, has := m[f.name]
			if has {
				n++
			}
			if _, skip := f.v.(none); skip {
				if has && x != nil && x != false {
					return fmt.Sprintf("at %s: %s is %v, the tree has none", path, f.name, x)
				}
				continue
			}
			if !has {
				return fmt.Sprintf("at %s: no %s", path, f.name)
			}
			if e := sameJSON(f.v, x, path+"."+f.name); e != "" {
				return e
			}
		}
		if n != len(m) {
			return fmt.Sprintf("at %s: fields %v, want only %v", path, m, v)
		}
		return ""
	case []any:
		l, ok := got.([]any)
		if !ok && !(got == nil && len(v) == 0) || len(l) != len(v) {
			return bad()
		}
		for i := range v {
			if e := sameJSON(v[i], l[i], path+"["+strconv.Itoa(i)+"]"); e != "" {
				return e
			}
		}
		return ""
	case float64:
		x, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		f, err := strconv.ParseFloat(x.String(), 64)
		if err != nil || math.Float64bits(f) != math.Float64bits(v) && !(f == 0 && v == 0) {
			return bad()
		}
		return ""
	}
	if want != got {
		return bad()
	}
	return ""
}

// duplicate keys are legal for a decoder but lose data.
func duplicateKey(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	type frame struct {
		obj  bool
		key  bool
		seen map[string]bool
	}
	var st []frame
	value := func() {
		if n := len(st); n > 0 && st[n-1].obj {
			st[n-1].key = true
		}
	}
	for {
		t, err := d.Token()
		if err != nil {
			return ""
		}
		if dl, ok := t.(json.Delim); ok {
			switch dl {
			case '{':
				st = append(st, frame{true, true, map[string]bool{}})
			case '[':
				st = append(st, frame{})
			default:
				st = st[:len(st)-1]
				value()
			}
			continue
		}
		if n := len(st); n > 0 && st[n-1].obj && st[n-1].key {
			k := t.(string)
			if st[n-1].seen[k] {
				return k
			}
			st[n-1].seen[k] = true
			st[n-1].key = false
			continue
		}
		value()
	}
}

func document(w *eng.W, src string) {
	got, ok := accepted(w, src)
	if !ok {
		return
	}
	before := got.Tree().String()
	toJSON := func() (b []byte, ok bool) {
		var err error
		if msg := impl.Protect(func() { b, err = got.A.JSON() }); msg != "" || err != nil {
			w.Fail("JSON: %v %s", err, msg)
			return nil, false
		}
		return b, true
	}
	a, ok := toJSON()
	if !ok {
		return
	}
	b, ok := toJSON()
	if !ok {
		return
	}
	if !bytes.Equal(a, b) {
		w.Fail("two documents of one tree:\n%s\n%s", a, b)
		return
	}
	if x := got.Tree().String(); x != before {
		w.Fail("JSON changed the tree: %s", diff(before, x))
		return
	}
	d := json.NewDecoder(bytes.NewReader(a))
	d.UseNumber()
	var doc any
	if err := d.Decode(&doc); err != nil || d.More() {
		w.Fail("not a JSON document: %v\n%s", err, a)
		return
	}
	if k := duplicateKey(a); k != "" {
		w.Fail("%q twice in one object\n%s", k, a)
		return
	}
	if e := sameJSON(js(got.Module()), doc, "module"); e != "" {
		w.Fail("%s\n%s", e, a)
		return
	}
	again := impl.Parse(src)
	var c []byte
	if msg := impl.Protect(func() { c, _ = again.A.JSON() }); msg != "" || !bytes.Equal(a, c) {
		w.Fail("the same text parsed twice gives different documents:\n%s\n%s %s", a, c, msg)
		return
	}
	w.Outcome("document")
}

// ---- Walk

type visit struct {
	root   *ast.FunctionOrProcedure
	parent ast.Statement
	slot   *ast.Statement
	val    ast.Statement
}

func id(s ast.Statement) string {
	switch v := s.(type) {
	case *ast.FunctionOrProcedure:
		return fmt.Sprintf("%p", v)
	case *ast.IfStatement:
		return fmt.Sprintf("%p", v)
	case *ast.LoopStatement:
		return fmt.Sprintf("%p", v)
	case *ast.ReturnStatement:
		return fmt.Sprintf("%p", v)
	case *ast.ExpStatement:
		return fmt.Sprintf("%p", v)
	case ast.TryStatement:
		return "try" + block(v.Body) + block(v.Catch)
	case ast.Statements:
		return block(v)
	}
	return impl.Stmt(s).String()
}

func block(l ast.Statements) string {
	if len(l) == 0 {
		return "[]"
	}
	return fmt.Sprintf("[%d %p]", len(l), &l[0])
}

// info is what is known about a statement of a block.
type info struct {
	root   *ast.FunctionOrProcedure
	parent string
	blk    string
	idx    int
	elif   bool             // a branch ИначеЕсли
	inner  []*ast.Statement // statements of the blocks directly inside it
	cond   ast.Statement    // the expression it reports
	hasC   bool
}

// slots lists every statement of every block with its enclosing function and its container.
func slots(m *ast.ModuleStatement) (map[*ast.Statement]*info, []*ast.Statement) {
	all := map[*ast.Statement]*info{}
	var order []*ast.Statement
	var walk func(l ast.Statements, root *ast.FunctionOrProcedure, parent string) []*ast.Statement
	walk = func(l ast.Statements, root *ast.FunctionOrProcedure, parent string) []*ast.Statement {
		var here []*ast.Statement
		for i := range l {
			p := &l[i]
			here = append(here, p)
			x := &info{root: root, parent: parent, blk: block(l), idx: i}
			all[p] = x
			order = append(order, p)
			switch v := l[i].(type) {
			case *ast.FunctionOrProcedure:
				x.root = v
				x.inner = walk(v.Body, v, id(v))
			case *ast.IfStatement:
				x.cond, x.hasC = v.Expression, true
				x.inner = append(x.inner, walk(v.TrueBlock, root, id(v))...)
				x.inner = append(x.inner, walk(v.IfElseBlock, root, id(v))...)
				for j := range v.IfElseBlock {
					all[&v.IfElseBlock[j]].elif = true
				}
				x.inner = append(x.inner, walk(v.ElseBlock, root, id(v))...)
			case *ast.LoopStatement:
				x.inner = walk(v.Body, root, id(v))
			case ast.TryStatement:
				x.inner = append(x.inner, walk(v.Body, root, id(v))...)
				x.inner = append(x.inner, walk(v.Catch, root, id(v))...)
			case *ast.ReturnStatement:
				x.cond, x.hasC = v.Param, v.Param != nil
			}
		}
		return here
	}
	walk(m.Body, nil, block(m.Body))
	return all, order
}

func record(m *ast.ModuleStatement, f func(visit)) string {
	return impl.Protect(func() {
		m.Walk(func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) {
			v := visit{root: root, slot: s}
			if parent != nil {
				v.parent = *parent
			}
			if s != nil {
				v.val = *s
			}
			f(v)
		})
	})
}

// walkHosts are the places whose expressions a walk reports.
var walkHosts = []string{"Если % Тогда КонецЕсли;", "Если к Тогда ИначеЕсли % Тогда КонецЕсли;", "Функция ф() Возврат %; КонецФункции", "ф(%, , ф(%));", "%;", "Функция ф() Возврат ?(к, %, с); КонецФункции"}

// partsOfExpr are the expressions a walk reports with the given one as their container.
func partsOfExpr(e ast.Statement) []ast.Statement {
	switch v := e.(type) {
	case ast.MethodStatement:
		return v.Param.Statements
	case *ast.ExpStatement:
		return []ast.Statement{v.Left, v.Right}
	case ast.TernaryStatement:
		return []ast.Statement{v.Expression, v.TrueBlock, v.ElseBlock}
	}
	return nil
}

func walked(w *eng.W, src string) {
	got, ok := accepted(w, src)
	if !ok {
		return
	}
	m := got.Module()
	before := got.Tree().String()
	all, _ := slots(m)
	var seq []visit
	if msg := record(m, func(v visit) { seq = append(seq, v) }); msg != "" {
		w.Fail("Walk: %s", msg)
		return
	}
	if x := got.Tree().String(); x != before {
		w.Fail("walking changed the tree: %s", diff(before, x))
		return
	}
	at := map[*ast.Statement]int{}
	name := func(f *ast.FunctionOrProcedure) string {
		if f == nil {
			return "the module"
		}
		return f.Name
	}
	for i, v := range seq {
		x := all[v.slot]
		if x == nil {
			continue
		}
		if _, dup := at[v.slot]; dup {
			w.Fail("visited twice: %s", impl.Stmt(v.val))
			return
		}
		at[v.slot] = i
		if v.root != x.root {
			w.Fail("%s is in %s, reported in %s", impl.Stmt(v.val), name(x.root), name(v.root))
			return
		}
		if id(v.parent) != x.parent {
			w.Fail("%s is reported with the container %s", impl.Stmt(v.val), impl.Stmt(v.parent))
			return
		}
	}
	if len(at) != len(all) {
		for p := range all {
			if _, ok := at[p]; !ok {
				w.Fail("not visited: %s", impl.Stmt(*p))
				return
			}
		}
	}
	last := map[string][2]int{} // block -> index and place of the last visited statement
	root := (*ast.FunctionOrProcedure)(nil)
	known := false
	for i := len(seq) - 1; i >= 0; i-- {
		x := all[seq[i].slot]
		if x == nil {
			if known && seq[i].root != root {
				w.Fail("an expression of %s is reported in %s: %s", name(root), name(seq[i].root), impl.Stmt(seq[i].val))
				return
			}
			continue
		}
		root, known = x.root, true
		if l, ok := last[x.blk]; ok && l[0] != x.idx+1 {
			w.Fail("statements %d and %d of a block are visited out of order", x.idx, l[0])
			return
		}
		last[x.blk] = [2]int{x.idx, i}
		for _, in := range x.inner {
			if at[in] > i {
				w.Fail("%s is visited before what it contains", impl.Stmt(seq[i].val))
				return
			}
		}
	}
	for p, x := range all { // the condition of Если and the value of Возврат are reported once, inside it
		if !x.hasC {
			continue
		}
		n := 0
		me := id(*p)
		want := impl.Expr(x.cond).String()
		for i, v := range seq {
			if all[v.slot] == nil && i < at[p] && id(v.parent) == me && v.val != nil && impl.Expr(v.val).String() == want {
				n++
			}
		}
		if n != 1 {
			w.Fail("the expression of %s is reported %d times", impl.Stmt(*p), n)
			return
		}
	}
	// the parts of those expressions and of calls, operations and choices that stand as statements are reported once too, before the whole
	parts := map[string]int{}
	var count func(e ast.Statement)
	count = func(e ast.Statement) {
		for _, x := range partsOfExpr(e) {
			parts[id(e)+" > "+id(x)]++
			count(x)
		}
	}
	for p, x := range all {
		count(*p)
		if x.hasC {
			count(x.cond)
		}
	}
	given := map[string]int{}
	for _, v := range seq {
		if len(partsOfExpr(v.parent)) > 0 && all[v.slot] == nil {
			given[id(v.parent)+" > "+id(v.val)]++
		}
		if l := partsOfExpr(v.val); len(l) > 0 {
			me := id(v.val)
			for _, x := range l {
				if given[me+" > "+id(x)] == 0 {
					w.Fail("%s is reported before its part %s", impl.Stmt(v.val), impl.Stmt(x))
					return
				}
			}
		}
	}
	for k, n := range parts {
		if given[k] != n {
			w.Fail("part of an expression reported %d times of %d: %s", given[k], n, k)
			return
		}
	}
	// a second walk, and a walk over the statements of the module
	again := 0
	same := true
	cmp := func(v visit) {
		if again >= len(seq) || seq[again].root != v.root || all[seq[again].slot] != nil && seq[again].slot != v.slot {
			same = false
		}
		again++
	}
	if msg := record(m, cmp); msg != "" || !same || again != len(seq) {
		w.Fail("a second walk visits something else (%d and %d visits) %s", len(seq), again, msg)
		return
	}
	again = 0
	ast.StatementWalk(m.Body, m.Body, func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) { cmp(visit{root: root, slot: s}) })
	if !same || again != len(seq) {
		w.Fail("walking the statements of the module visits something else")
		return
	}
	w.Outcome("walked")
}

// replaced: a statement assigned through the pointer that Walk hands out takes the place of that very statement.
func replaced(w *eng.W, src string) {
	got, ok := accepted(w, src)
	if !ok {
		return
	}
	where, order := slots(got.Module())
	step := 1
	if len(order) > 60 {
		step = len(order) / 40
	}
	mark := ast.VarStatement{Name: "МАРКЕР"}
	for k := 0; k < len(order); k += step {
		a, b := impl.Parse(src), impl.Parse(src)
		sa, oa := slots(a.Module())
		_, ob := slots(b.Module())
		if len(oa) != len(order) || len(ob) != len(order) {
			w.Fail("the same text gives trees with %d, %d and %d statements", len(order), len(oa), len(ob))
			return
		}
		n := 0
		if msg := record(a.Module(), func(v visit) {
			if v.slot == oa[k] && sa[v.slot] != nil {
				*v.slot = mark
				n++
			}
		}); msg != "" {
			w.Fail("Walk: %s", msg)
			return
		}
		*ob[k] = mark
		x, y := a.Tree().String(), b.Tree().String()
		if n != 1 || x != y || strings.Count(x, "МАРКЕР") != 1 {
			w.Fail("statement %d, %s, replaced during a walk (%d times): %s", k, impl.Stmt(*order[k]), n, diff(y, x))
			return
		}
		if _, fn := (*order[k]).(*ast.FunctionOrProcedure); fn || where[order[k]].elif {
			continue
		}
		var p, q string
		if msg := impl.Protect(func() { p, q = a.A.Print(confs[1]), b.A.Print(confs[1]) }); msg != "" || p != q || strings.Count(p, "МАРКЕР") != 1 {
			w.Fail("statement %d replaced, the print is\n%s\nwant\n%s %s", k, p, q, msg)
			return
		}
	}
	// arguments of the calls that walks go into
	args := argSlots(got.Module())
	step = 1
	if len(args) > 60 {
		step = len(args) / 40
	}
	for k := 0; k < len(args); k += step {
		a, b := impl.Parse(src), impl.Parse(src)
		oa, ob := argSlots(a.Module()), argSlots(b.Module())
		if len(oa) != len(args) || len(ob) != len(args) {
			w.Fail("the same text gives trees with %d, %d and %d arguments", len(args), len(oa), len(ob))
			return
		}
		if msg := record(a.Module(), func(v visit) {
			if v.slot == oa[k] {
				*v.slot = mark
			}
		}); msg != "" {
			w.Fail("Walk: %s", msg)
			return
		}
		*ob[k] = mark
		if x, y := a.Tree().String(), b.Tree().String(); x != y || strings.Count(x, "МАРКЕР") != 1 {
			w.Fail("argument %d, %s, replaced during a walk: %s", k, impl.Stmt(*args[k]), diff(y, x))
			return
		}
	}
	// every simple statement at once
	a, b := impl.Parse(src), impl.Parse(src)
	sa, _ := slots(a.Module())
	_, ob := slots(b.Module())
	if msg := record(a.Module(), func(v visit) {
		if x := sa[v.slot]; x != nil && simple(*v.slot) {
			*v.slot = mark
		}
	}); msg != "" {
		w.Fail("Walk: %s", msg)
		return
	}
	for _, p := range ob {
		if simple(*p) {
			*p = mark
		}
	}
	if x, y := a.Tree().String(), b.Tree().String(); x != y {
		w.Fail("every simple statement replaced during a walk: %s", diff(y, x))
		return
	}
	w.Outcome(fmt.Sprintf("statements<=%d", roundUp(len(order))))
}

// argSlots lists the arguments of the calls that walks go into.
func argSlots(m *ast.ModuleStatement) []*ast.Statement {
	var l []*ast.Statement
	var expr func(e ast.Statement)
	expr = func(e ast.Statement) {
		if v, ok := e.(ast.MethodStatement); ok {
			for i := range v.Param.Statements {
				l = append(l, &v.Param.Statements[i])
			}
		}
		for _, x := range partsOfExpr(e) {
			expr(x)
		}
	}
	all, order := slots(m)
	for _, p := range order {
		expr(*p)
		if all[p].hasC {
			expr(all[p].cond)
		}
	}
	return l
}

func simple(s ast.Statement) bool {
	switch s.(type) {
	case *ast.FunctionOrProcedure, *ast.IfStatement, *ast.LoopStatement, ast.TryStatement:
		return false
	}
	return true
}

// structSpaces is the list of spaces that checks of whole trees go through.
func structSpaces(r *eng.Run) []space {
	l := append(exprSpaces(r), stmtSpacesOf(r, r.Bound(4, 6))...)
	l = append(l, declSpaces(r)...)
	return append(l, space{"functions and statements", funcsAndStmts(r.Bound(4, 5))},
		space{"sentences and programs", programs},
		space{"edited sentences", editedSentences})
}

// funcsAndStmts: procedures with nested statements, followed by statements of the module.
func funcsAndStmts(n int) func(*eng.Ch) string {
	parts := []string{"Если %s Тогда %s(); КонецЕсли;", "Если %s Тогда ИначеЕсли %s Тогда %s(); Иначе %s(1); КонецЕсли;", "Пока %s Цикл %s(); КонецЦикла;",
		"Попытка %s(); Исключение %s(); КонецПопытки;", "%s = 1;", "%s(%s, 1 + %s);"}
	return func(c *eng.Ch) string {
		g := gen.New(c)
		t := ""
		fill := func(s string) string {
			for strings.Contains(s, "%s") {
				s = strings.Replace(s, "%s", g.Id(), 1)
			}
			return s + "\n"
		}
		for i := 0; i < n; i++ {
			k := g.Pick(len(parts)*3 + 1)
			if k == 0 {
				break
			}
			k--
			p := parts[k%len(parts)]
			switch k / len(parts) {
			case 0: // only statements may follow
				for ; i < n; i++ {
					t += fill(p)
					k := g.Pick(len(parts) + 1)
					if k == 0 {
						return t
					}
					p = parts[k-1]
				}
			case 1:
				t += fill("Процедура %s(%s)\n" + p + "\nКонецПроцедуры")
			case 2:
				t += fill("Функция %s()\n" + p + " Возврат %s;\nКонецФункции")
			}
		}
		return t
	}
}

func overStructures(r *eng.Run, check func(*eng.W, string)) {
	for _, s := range structSpaces(r) {
		visitAll(r, s.name, s.gen, check)
	}
	sizes(r, "lengths", r.Bound(24, 130), []int{64, 100, 257, 513, 1025}, gen.Lengths, check)
	sizes(r, "lengths within", r.Bound(3, 40), []int{9, 17, 33, 65, 100, 129, 257}, gen.Inside, check)
	sizes(r, "depths", r.Bound(24, 100), []int{64, 100}, gen.Depths, check)
}

func init() {
	register("C16", func(r *eng.Run) {
		overStructures(r, document)
		for _, s := range alikeSpaces(r) {
			visitAll(r, s.name, s.gen, document)
		}
		visitAll(r, "literals", func(c *eng.Ch) string {
			return strings.ReplaceAll(eng.One(c, strHosts), "%", charStrings(2, append([]string{"<", ">", "&", "\\", "\u2028", "\x01", "\x7f", "💰"}, strParts...))(c))
		}, document)
		odd := append([]string{"\\u003c", "\\u2028", "\\\\", "\\n", "\\", "<", ">", "&", "&lt;", "%3C", "null", "\u2028", "\x01", "\x7f", "💰", "{}", "\\t\t"}, strParts...)
		visitAll(r, "contents of big modules", func(c *eng.Ch) string {
			n := eng.One(c, []int{3, 40, 400, r.Bound(2500, 20000)})
			h := eng.One(c, []string{"р = \"%\";|", "|р = \"%\";", "Процедура п(а = \"%\") | КонецПроцедуры", "ф(\"%%\", а.б[\"%\"]);|"})
			return strings.Replace(strings.ReplaceAll(h, "%", eng.One(c, odd)), "|", strings.Repeat("б(1);", n), 1)
		}, document)
		visitAll(r, "ends of long contents", longContents([]int{1, 65, 257, r.Bound(600, 1100)}, "ф(\"%\")"), document)
		visitAll(r, "numbers of any length", gen.NumberShapes(r.Bound(24, 60), r.Bound(20, 40), numHosts2), document)
		visitAll(r, "numbers", func(c *eng.Ch) string {
			return hostNum(c, charStrings(r.Bound(4, 6), []string{"0", "1", "5", "9", "."})(c))
		}, document)
	})
	register("C17", func(r *eng.Run) {
		overStructures(r, walked)
		for _, s := range alikeSpaces(r) {
			visitAll(r, s.name, s.gen, walked)
		}
		visitAll(r, "long blocks with odd ends", oddEnds(r.Ints([]int{0, 1, 2, 8, 33, 65}, []int{129, 257})), walked)
		for _, s := range []space{{"operator sequences", gen.Flat(3, gen.OpLevels, []string{""})}, {"nested expressions", gen.ExprTree(r.Bound(3, 4))},
			{"prefixed sequences", gen.Flat(2, gen.OpLevels, []string{"", "-", "Не "})}} {
			s := s
			visitAll(r, s.name+" where walks go", func(c *eng.Ch) string {
				return strings.ReplaceAll(eng.One(c, walkHosts), "%", strings.TrimSuffix(strings.TrimPrefix(s.gen(c), "р = "), ";"))
			}, walked)
			visitAll(r, "same operands: "+s.name+" where walks go", alike(func(c *eng.Ch) string {
				return strings.ReplaceAll(eng.One(c, walkHosts), "%", strings.TrimSuffix(strings.TrimPrefix(s.gen(c), "р = "), ";"))
			}), walked)
		}
	})
	register("C23", func(r *eng.Run) {
		l := []space{
			{"blocks of every kind", gen.Stmts{Budget: 3, Leaves: gen.AllLeaves, Nests: gen.AllNests, Seps: 1}.Blocks()},
			{"blocks", gen.Stmts{Budget: r.Bound(4, 6), Leaves: []string{"assign"}, Nests: []string{"if", "for", "try"}, Contexts: gen.BodyContexts[:1]}.Blocks()},
			{"separators", gen.Separators(r.Bound(2, 3))},
			{"nesting", gen.Nesting(r.Bound(3, 4))},
			{"modules", gen.Modules(r.Bound(3, 4))},
			{"functions and statements", funcsAndStmts(r.Bound(3, 5))},
			{"sentences and programs", programs},
			{"edited sentences", editedSentences}}
		if !r.Quick() {
			l = append(l, exprSpaces(r)[:2]...)
		}
		for _, s := range l {
			visitAll(r, s.name, s.gen, replaced)
		}
		visitAll(r, "argument lists", gen.ArgLists(r.Bound(4, 5)), replaced)
		exprs := gen.ExprTree(r.Bound(2, 3))
		visitAll(r, "nested expressions where walks go", func(c *eng.Ch) string {
			return strings.ReplaceAll(eng.One(c, walkHosts), "%", strings.TrimSuffix(strings.TrimPrefix(exprs(c), "р = "), ";"))
		}, replaced)
		sizes(r, "lengths", r.Bound(16, 40), []int{33, 64, 100, 129, 257, 513}, gen.Lengths, replaced)
		sizes(r, "lengths within", r.Bound(3, 20), []int{9, 17, 33, 65}, gen.Inside, replaced)
		sizes(r, "depths", r.Bound(16, 40), []int{64}, gen.Depths, replaced)
	})
}
