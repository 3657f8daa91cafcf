// Package impl drives the implementation through its exported API and maps its trees to the canonical form.
package impl

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/ref"
)

type Out struct {
	A     *ast.AstNode
	Err   error
	Panic string
}

// Parse runs the implementation on a text.
func Parse(src string) (o Out) {
	o.A = ast.NewAST(src)
	o.Panic = Protect(func() { o.Err = o.A.Parse() })
	return
}

// Protect runs f and returns the panic it ends with, if any.
func Protect(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	f()
	return ""
}

func (o Out) Module() *ast.ModuleStatement { return &o.A.ModuleStatement }

// Tree is the canonical tree of a parsed module.
func (o Out) Tree() *ref.Node { return Module(o.Module()) }

type flags struct{ not, neg bool }

// kind knows how the marks of one kind of node look: the exported methods of an empty node set them.
type kind struct {
	plain, not, neg, both any
	eq                    bool // may be compared with ==
}

type marker interface {
	Not() interface{}
}

func deref(v any) any {
	if p, ok := v.(*ast.ExpStatement); ok {
		return *p
	}
	return v
}

func kindOf(empty func() marker) *kind {
	k := &kind{plain: deref(empty()), not: deref(empty().Not())}
	if n, ok := empty().(interface{ UnaryMinus() interface{} }); ok {
		k.neg = deref(n.UnaryMinus())
		if m, ok := empty().(interface{ UnaryMinus() interface{} }).UnaryMinus().(marker); ok {
			k.both = deref(m.Not())
		}
	}
	k.eq = reflect.TypeOf(k.plain).Comparable()
	return k
}

var (
	kVar   = kindOf(func() marker { return ast.VarStatement{} })
	kChain = kindOf(func() marker { return ast.CallChainStatement{} })
	kBin   = kindOf(func() marker { return &ast.ExpStatement{} })
	kMeth  = kindOf(func() marker { return ast.MethodStatement{} })
	kExprs = kindOf(func() marker { return ast.ExprStatements{} })
)

// of reads the marks of a node whose exported fields were emptied.
func (k *kind) of(z any) flags {
	same := reflect.DeepEqual
	if k.eq {
		same = func(a, b any) bool { return a == b }
	}
	switch {
	case same(z, k.plain):
		return flags{}
	case same(z, k.not):
		return flags{not: true}
	case k.neg == nil:
	case same(z, k.neg):
		return flags{neg: true}
	case same(z, k.both):
		return flags{not: true, neg: true}
	}
	return flags{marked(z, k.plain, k.not), k.neg != nil && marked(z, k.plain, k.neg)}
}

// marked: where the marked empty node differs from the plain one, the node is like the marked one.
func marked(z, plain, mark any) bool {
	found, like := false, true
	var walk func(z, p, m reflect.Value)
	walk = func(z, p, m reflect.Value) {
		switch p.Kind() {
		case reflect.Struct:
			for i := 0; i < p.NumField(); i++ {
				walk(z.Field(i), p.Field(i), m.Field(i))
			}
		case reflect.Bool:
			if p.Bool() != m.Bool() {
				found, like = true, like && z.Bool() == m.Bool()
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if d := p.Int() ^ m.Int(); d != 0 {
				found, like = true, like && z.Int()&d == m.Int()&d
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if d := p.Uint() ^ m.Uint(); d != 0 {
				found, like = true, like && z.Uint()&d == m.Uint()&d
			}
		case reflect.String:
			if p.String() != m.String() {
				found, like = true, like && z.String() == m.String()
			}
		}
	}
	walk(reflect.ValueOf(z), reflect.ValueOf(plain), reflect.ValueOf(mark))
	return found && like
}

func (f flags) wrap(n *ref.Node) *ref.Node {
	if f.neg {
		n = ref.Neg(n)
	}
	if f.not {
		n = ref.Not(n)
	}
	return n
}

func Module(m *ast.ModuleStatement) *ref.Node {
	var gv, funcs []*ref.Node
	for k, v := range m.GlobalVariables {
		n := ref.N("gvar", k, ref.N("dir", v.Directive), ref.BoolNode(v.Export))
		if v.Var.Name != k || cmpVar(v.Var) != (flags{}) {
			n.C = append(n.C, Expr(v.Var))
		}
		gv = append(gv, n)
	}
	sort.Slice(gv, func(i, j int) bool { return gv[i].V < gv[j].V })
	i := 0
	for ; i < len(m.Body); i++ {
		f, ok := m.Body[i].(*ast.FunctionOrProcedure)
		if !ok {
			break
		}
		funcs = append(funcs, Func(f))
	}
	n := ref.N("mod", m.Name, ref.N("vars", "", gv...), ref.N("funcs", "", funcs...), Block(m.Body[i:]))
	return n
}

func Func(f *ast.FunctionOrProcedure) *ref.Node {
	if f == nil {
		return ref.N("nilfunc", "")
	}
	kind := "?"
	switch f.Type {
	case ast.PFTypeProcedure:
		kind = "proc"
	case ast.PFTypeFunction:
		kind = "func"
	}
	var ps, lv []*ref.Node
	for _, p := range f.Params {
		n := ref.N("param", p.Name, ref.BoolNode(p.IsValue))
		if p.Default != nil {
			n.C = append(n.C, Expr(p.Default))
		}
		ps = append(ps, n)
	}
	for k, v := range f.ExplicitVariables {
		n := ref.N("var", k)
		if v.Name != k || cmpVar(v) != (flags{}) {
			n.C = append(n.C, Expr(v))
		}
		lv = append(lv, n)
	}
	sort.Slice(lv, func(i, j int) bool { return lv[i].V < lv[j].V })
	return ref.N(kind, f.Name, ref.N("dir", f.Directive), ref.BoolNode(f.Export), ref.N("params", "", ps...), ref.N("locals", "", lv...), Block(f.Body))
}

func Block(l ast.Statements) *ref.Node {
	n := ref.N("blk", "")
	for _, s := range l {
		n.C = append(n.C, Stmt(s))
	}
	return n
}

func Stmt(s ast.Statement) *ref.Node {
	switch v := s.(type) {
	case *ast.FunctionOrProcedure:
		return Func(v)
	case ast.AssignmentStatement:
		return ref.N("assign", "", Expr(v.Var), Expr(v.Expr))
	case *ast.IfStatement:
		n := ref.N("if", "", Expr(v.Expression), Block(v.TrueBlock))
		for _, e := range v.IfElseBlock {
			i, ok := e.(*ast.IfStatement)
			if !ok {
				n.C = append(n.C, ref.N("badelif", "", Stmt(e)))
				continue
			}
			x := ref.N("elif", "", Expr(i.Expression), Block(i.TrueBlock))
			if len(i.IfElseBlock) > 0 {
				x.C = append(x.C, Block(i.IfElseBlock))
			}
			if len(i.ElseBlock) > 0 {
				x.C = append(x.C, Block(i.ElseBlock))
			}
			n.C = append(n.C, x)
		}
		if len(v.ElseBlock) > 0 {
			n.C = append(n.C, ref.N("else", "", Block(v.ElseBlock)))
		}
		return n
	case *ast.LoopStatement:
		switch {
		case v.WhileExpr != nil && v.For == nil && v.To == nil && v.In == nil:
			return ref.N("while", "", Expr(v.WhileExpr), Block(v.Body))
		case v.In != nil && v.WhileExpr == nil && v.To == nil:
			name, ok := v.For.(string)
			if !ok {
				name = fmt.Sprintf("?%T", v.For)
			}
			return ref.N("foreach", name, Expr(v.In), Block(v.Body))
		case v.For != nil && v.To != nil && v.WhileExpr == nil && v.In == nil:
			return ref.N("for", "", Expr(v.For), Expr(v.To), Block(v.Body))
		}
		return ref.N("badloop", "", Expr(v.For), Expr(v.To), Expr(v.In), Expr(v.WhileExpr), Block(v.Body))
	case ast.TryStatement:
		return ref.N("try", "", Block(v.Body), Block(v.Catch))
	case ast.ThrowStatement:
		if v.Param == nil {
			return ref.N("throw", "")
		}
		return ref.N("throw", "", Expr(v.Param))
	case *ast.ReturnStatement:
		if v.Param == nil {
			return ref.N("return", "")
		}
		return ref.N("return", "", Expr(v.Param))
	case ast.BreakStatement:
		return ref.N("break", "")
	case ast.ContinueStatement:
		return ref.N("continue", "")
	}
	return Expr(s)
}

func cmpVar(v ast.VarStatement) flags {
	v.Name = ""
	return kVar.of(v)
}

// operators are the constants of the operations and what they stand for.
var operators = map[ast.OperationType]string{ast.OpPlus: "+", ast.OpMinus: "-", ast.OpMul: "*", ast.OpDiv: "/", ast.OpMod: "%", ast.OpEq: "=", ast.OpGt: ">",
	ast.OpLt: "<", ast.OpNe: "<>", ast.OpLe: "<=", ast.OpGe: ">=", ast.OpOr: "ИЛИ", ast.OpAnd: "И"}

// Operator is the text of an operation.
func Operator(o ast.OperationType) string {
	if t, ok := operators[o]; ok {
		return t
	}
	return fmt.Sprint("operation ", int(o))
}

// Expr maps an expression.
func Expr(s ast.Statement) *ref.Node {
	switch v := s.(type) {
	case nil:
		return ref.Hole()
	case string:
		return ref.StrNode(v)
	case float64:
		return ref.NumNode(v)
	case bool:
		return ref.BoolNode(v)
	case time.Time:
		return ref.DateNode(v)
	case ast.UndefinedStatement:
		return ref.N("undef", "")
	case ast.VarStatement:
		return cmpVar(v).wrap(ref.N("id", v.Name))
	case *ast.ExpStatement:
		z := *v
		z.Left, z.Right, z.Operation = nil, nil, ast.OpUndefined
		return kBin.of(z).wrap(ref.N("bin", Operator(v.Operation), Expr(v.Left), Expr(v.Right)))
	case ast.ExprStatements:
		z := v
		z.Statements = nil
		f := kExprs.of(z)
		if len(v.Statements) == 1 && v.Statements[0] != nil {
			return f.wrap(Expr(v.Statements[0]))
		}
		return f.wrap(ref.N("tuple", "", exprs(v.Statements)...))
	case ast.CallChainStatement:
		z := v
		z.Call, z.Unit = nil, nil
		return kChain.of(z).wrap(ref.N("dot", "", Expr(v.Call), Expr(v.Unit)))
	case ast.MethodStatement:
		z := v
		z.Name, z.Param = "", ast.ExprStatements{}
		f := kMeth.of(z)
		return f.wrap(ref.N("call", v.Name, args(v.Param)...))
	case ast.ItemStatement:
		return ref.N("item", "", Expr(v.Object), Expr(v.Item))
	case ast.NewObjectStatement:
		return ref.N("new", v.Constructor, args(v.Param)...)
	case ast.TernaryStatement:
		return ref.N("tern", "", Expr(v.Expression), Expr(v.TrueBlock), Expr(v.ElseBlock))
	case ast.GoToStatement:
		if v.Label == nil {
			return ref.N("goto", "?nil")
		}
		return ref.N("goto", v.Label.Name)
	case *ast.GoToLabelStatement:
		return ref.N("label", v.Name)
	case ast.AssignmentStatement, *ast.IfStatement, *ast.LoopStatement, ast.TryStatement, ast.ThrowStatement,
		*ast.ReturnStatement, ast.BreakStatement, ast.ContinueStatement, *ast.FunctionOrProcedure:
		return ref.N("stmt-in-expr", "", Stmt(s))
	}
	// forms that a parse never gives
	switch v := s.(type) {
	case int, int32, int64, float32:
		return ref.N("unknown", fmt.Sprintf("%T %v", v, v))
	case ast.ExpStatement:
		return ref.N("unknown", "value", Expr(&v))
	case *ast.ExprStatements:
		return ref.N("unknown", "pointer", Expr(*v))
	}
	return ref.N("unknown", fmt.Sprintf("%T", s))
}

// ByHand reads the forms in which a program, but no parse, may put a number or an expression.
func ByHand(n *ref.Node) *ref.Node {
	if n.T == "unknown" && len(n.C) == 1 {
		return ByHand(n.C[0])
	}
	if t, x, ok := strings.Cut(n.V, " "); n.T == "unknown" && ok && t != "" {
		if f, err := strconv.ParseFloat(x, 64); err == nil {
			return ref.NumNode(f)
		}
	}
	for i, c := range n.C {
		n.C[i] = ByHand(c)
	}
	if n.T == "neg" && len(n.C) == 1 {
		return ref.Neg(n.C[0])
	}
	return n
}

func exprs(l ast.Statements) []*ref.Node {
	var r []*ref.Node
	for _, s := range l {
		r = append(r, Expr(s))
	}
	return r
}

func args(e ast.ExprStatements) []*ref.Node {
	z := e
	z.Statements = nil
	l := ref.Args(exprs(e.Statements))
	if f := kExprs.of(z); f != (flags{}) {
		l = append(l, ref.N(fmt.Sprintf("marked%v", f), ""))
	}
	return l
}
