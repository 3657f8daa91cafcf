package ref

import (
	"sort"
	"strconv"
	"strings"
)

// Result of the reference parser.
type Result struct {
	Syntax int    // index of the first token that cannot continue the text, len(toks) at the end, -1 if none
	Rules  []Rule // violated rules that are not syntax
	Module *Node
	Sig    string // configuration of the model when it first looked past the last token
}

// Rule is a broken rule: the tokens [Tok, End) of the statement that breaks it (End 0: up to any later one) and
// the word or name that it is about.
type Rule struct {
	Name string
	Tok  int
	End  int
	Word string
}

func (r *Result) OK() bool { return r.Syntax < 0 && len(r.Rules) == 0 }

// Viable: more tokens could turn the text into a program.
func (r *Result) Viable(n int) bool { return (r.Syntax < 0 || r.Syntax == n) && len(r.Rules) == 0 }

type fail struct{ at int }

type parser struct {
	t                []Tok
	p                int
	stack            []string
	wantSig, sigDone bool
	sig              string
	rules            []Rule
	loop, catch      int
	fn               bool
}

// Parse runs the model over tokens. withSig also records the configuration at the end of input.
func Parse(toks []Tok, withSig bool) (res Result) {
	p := &parser{t: toks, wantSig: withSig}
	res.Syntax = -1
	defer func() {
		res.Rules, res.Sig = p.rules, p.sig
		if r := recover(); r != nil {
			f, ok := r.(fail)
			if !ok {
				panic(r)
			}
			res.Syntax, res.Module = f.at, nil
		}
	}()
	res.Module = p.module()
	return
}

// ParseText lexes and parses; the result is not OK when the text has a lexical error.
func ParseText(s string) ([]Tok, *LexError, Result) {
	toks, le := Lex(s)
	return toks, le, Parse(toks, false)
}

func (p *parser) peek() Kind {
	if p.p >= len(p.t) {
		if p.wantSig && !p.sigDone {
			p.sigDone = true
			p.sig = strings.Join(p.stack, " ")
		}
		return EOF
	}
	return p.t[p.p].Kind
}
func (p *parser) push(s string) {
	if p.wantSig {
		p.stack = append(p.stack, s)
	}
}
func (p *parser) set(s string) {
	if p.wantSig {
		p.stack[len(p.stack)-1] = s
	}
}
func (p *parser) pop() {
	if p.wantSig {
		p.stack = p.stack[:len(p.stack)-1]
	}
}
func (p *parser) die() { panic(fail{p.p}) }
func (p *parser) rule(n string, at, end int, word string) {
	p.rules = append(p.rules, Rule{n, at, end, word})
}
func (p *parser) need(k Kind) Tok {
	if p.peek() != k {
		p.die()
	}
	p.p++
	return p.t[p.p-1]
}
func (p *parser) got(k Kind) bool {
	if p.peek() == k {
		p.p++
		return true
	}
	return false
}

func keys(m map[string]bool) string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (p *parser) module() *Node {
	globals := map[string]bool{}
	var gv, funcs []*Node
	p.push("mod")
	for {
		if p.wantSig {
			f := "v"
			if len(funcs) > 0 {
				f = "f"
			}
			p.set("mod:" + f + "{" + keys(globals) + "}")
		}
		switch p.peek() {
		case Dir, KVar, KFunc, KProc:
		default:
			body := p.body("m", func() bool { return p.peek() == EOF })
			if p.peek() != EOF {
				p.die()
			}
			sort.Slice(gv, func(i, j int) bool { return gv[i].V < gv[j].V })
			return N("mod", "", N("vars", "", gv...), N("funcs", "", funcs...), Block(body...))
		}
		dir := ""
		if p.peek() == Dir {
			dir = p.t[p.p].Lit
			p.p++
			p.set("mod:dir" + strconv.Itoa(len(funcs)))
		}
		switch p.peek() {
		case KVar:
			at := p.p
			p.p++
			p.push("gvar:" + keys(globals))
			names := p.idents()
			exp := p.got(KExport)
			p.push("gvar;")
			p.need(Semi)
			p.pop()
			p.pop()
			if len(funcs) > 0 {
				p.rule("var-after-func", at, p.p, "")
				break
			}
			for _, n := range names {
				if globals[n] {
					p.rule("dup-global", at, p.p, n)
					continue
				}
				globals[n] = true
				gv = append(gv, N("gvar", n, N("dir", dir), BoolNode(exp)))
			}
		case KFunc, KProc:
			funcs = append(funcs, p.function(dir))
		default:
			p.die()
		}
	}
}

func (p *parser) idents() []string {
	var l []string
	for {
		p.push("id" + strconv.Itoa(len(l)))
		l = append(l, p.need(Ident).Lit)
		p.pop()
		p.push("id,")
		c := p.got(Comma)
		p.pop()
		if !c {
			return l
		}
	}
}

func (p *parser) function(dir string) *Node {
	isF := p.peek() == KFunc
	p.p++
	kind, end := "proc", KEndProc
	if isF {
		kind, end = "func", KEndFunc
	}
	p.push(kind)
	defer p.pop()
	name := p.need(Ident).Lit
	p.set(kind + "(")
	p.need(LPar)
	p.set(kind + "()")
	params := p.params()
	p.set(kind + ")")
	p.need(RPar)
	p.set(kind + ":")
	exp := p.got(KExport)
	p.set(kind + "V")
	p.fn = isF
	locals := map[string]bool{}
	for p.peek() == KVar {
		at := p.p
		p.p++
		p.push("var" + keys(locals))
		names := p.idents()
		p.push(";")
		p.need(Semi)
		p.pop()
		p.pop()
		for _, n := range names {
			if locals[n] {
				p.rule("dup-local", at, p.p, n)
			}
			locals[n] = true
		}
		p.set(kind + "V" + keys(locals))
	}
	body := p.body("f", func() bool { return p.peek() == end })
	p.set(kind + "E")
	p.need(end)
	p.fn = false
	var lv []*Node
	for n := range locals {
		lv = append(lv, N("var", n))
	}
	sort.Slice(lv, func(i, j int) bool { return lv[i].V < lv[j].V })
	return N(kind, name, N("dir", dir), BoolNode(exp), N("params", "", params...), N("locals", "", lv...), Block(body...))
}

func (p *parser) params() []*Node {
	var l []*Node
	if p.peek() == RPar {
		return nil
	}
	if p.peek() != Comma { // the grammar also derives a list that starts with a comma
		l = append(l, p.param())
	}
	for {
		p.push("par,")
		c := p.got(Comma)
		p.pop()
		if !c {
			return l
		}
		l = append(l, p.param())
	}
}

func (p *parser) param() *Node {
	p.push("par")
	val := p.got(KVal)
	p.set("parN")
	n := N("param", p.need(Ident).Lit, BoolNode(val))
	p.set("par=")
	for p.got(Eq) {
		d := p.simple()
		n.C = append(n.C[:1], d)
	}
	p.pop()
	return n
}

// simple expression: what a default value may be.
func (p *parser) simple() *Node {
	p.push("simple")
	defer p.pop()
	switch p.peek() {
	case Minus:
		p.p++
		return Neg(p.expr(12))
	case Plus:
		p.p++
		return p.expr(12)
	}
	if n := p.literal(); n != nil {
		return n
	}
	p.die()
	return nil
}

func (p *parser) literal() *Node {
	k := p.peek()
	if k == EOF {
		return nil
	}
	t := p.t[p.p]
	var n *Node
	switch k {
	case Str:
		n = StrNode(t.Lit)
	case Num:
		n = NumNode(t.Num)
	case KTrue:
		n = BoolNode(true)
	case KFalse:
		n = BoolNode(false)
	case Date:
		n = DateNode(t.Time)
	case KUndef:
		n = N("undef", "")
	case Label:
		n = N("label", t.Lit)
	default:
		return nil
	}
	p.p++
	return n
}

// body is a list of optional statements divided by ; or :, up to a token that closes it.
func (p *parser) body(tag string, closed func() bool) []*Node {
	var list []*Node
	isLabel := false // the last statement is a bare label
	p.push("")
	defer p.pop()
	state := func(s string) {
		if p.wantSig {
			last := "-"
			if len(list) > 0 {
				last = "s"
				if isLabel {
					last = "l"
				}
			}
			p.set("B" + tag + s + last)
		}
	}
	state("0")
	first := true
	for {
		if closed() {
			return list
		}
		k := p.peek()
		if k == Semi || k == Colon {
			p.p++
			if k == Colon && len(list) > 0 && !isLabel {
				p.rule("colon", p.p-1, 0, "")
			}
			first = false
			state("0")
			continue
		}
		if !first && !p.afterSep() {
			p.die()
		}
		at := p.p
		for at < len(p.t) && p.t[at].Kind == Plus {
			at++
		}
		list = append(list, p.stmt())
		isLabel = p.p == at+1 && p.t[at].Kind == Label
		first = false
		state("1")
		if closed() {
			return list
		}
		if k := p.peek(); k != Semi && k != Colon {
			p.die()
		}
	}
}

func (p *parser) afterSep() bool {
	return p.p > 0 && (p.t[p.p-1].Kind == Semi || p.t[p.p-1].Kind == Colon)
}

func (p *parser) stmt() *Node {
	switch k := p.peek(); k {
	case KIf:
		p.p++
		p.push("if")
		defer p.pop()
		n := N("if", "")
		c := p.expr(0)
		p.set("ifT")
		p.need(KThen)
		stop := func() bool { k := p.peek(); return k == KElseIf || k == KElse || k == KEndIf }
		p.set("ifB")
		n.C = append(n.C, c, Block(p.body("i", stop)...))
		for p.peek() == KElseIf {
			p.p++
			p.set("elif")
			c := p.expr(0)
			p.set("elifT")
			p.need(KThen)
			p.set("elifB")
			n.C = append(n.C, N("elif", "", c, Block(p.body("i", stop)...)))
		}
		if p.got(KElse) {
			p.set("else")
			b := p.body("e", func() bool { return p.peek() == KEndIf })
			if len(b) > 0 {
				n.C = append(n.C, N("else", "", Block(b...)))
			}
		}
		p.need(KEndIf)
		return n
	case KFor:
		p.p++
		p.push("for")
		defer p.pop()
		if p.got(KEach) {
			p.set("each")
			v := p.need(Ident).Lit
			p.set("eachIn")
			p.need(KIn)
			p.set("eachX")
			in := p.loopExp()
			p.set("eachL")
			return N("foreach", v, in, p.loopBody())
		}
		init := p.expr(0)
		p.set("forTo")
		p.need(KTo)
		p.set("forX")
		to := p.expr(0)
		p.set("forL")
		return N("for", "", init, to, p.loopBody())
	case KWhile:
		p.p++
		p.push("while")
		defer p.pop()
		c := p.expr(0)
		p.set("whileL")
		return N("while", "", c, p.loopBody())
	case KTry:
		p.p++
		p.push("try")
		defer p.pop()
		b := p.body("t", func() bool { return p.peek() == KCatch })
		p.need(KCatch)
		p.set("catch")
		p.catch++
		c := p.body("c", func() bool { return p.peek() == KEndTry })
		p.need(KEndTry)
		p.catch--
		return N("try", "", Block(b...), Block(c...))
	case KContinue, KBreak:
		if p.loop == 0 {
			p.rule("jump", p.p, p.p+1, p.t[p.p].Lit)
		}
		p.p++
		if k == KBreak {
			return N("break", "")
		}
		return N("continue", "")
	case KThrow:
		at := p.p
		p.p++
		p.push("throw")
		defer p.pop()
		e := p.optExpr()
		if e == nil {
			if p.catch == 0 {
				p.rule("throw", at, p.p, p.t[at].Lit)
			}
			return N("throw", "")
		}
		return N("throw", "", e)
	case KReturn:
		at := p.p
		p.p++
		p.push("return")
		defer p.pop()
		e := p.optExpr()
		if e == nil {
			return N("return", "")
		}
		if !p.fn {
			p.rule("return", at, p.p, "")
		}
		return N("return", "", e)
	case Ident, KExec:
		p.push("s")
		defer p.pop()
		e := p.chain()
		if p.got(Eq) {
			p.set("s=")
			return N("assign", "", e, p.expr(0))
		}
		return p.ops(e, 0)
	}
	return p.expr(0)
}

func (p *parser) loopBody() *Node {
	p.need(KLoop)
	p.loop++
	p.push("L")
	b := p.body("l", func() bool { return p.peek() == KEndLoop })
	p.need(KEndLoop)
	p.pop()
	p.loop--
	return Block(b...)
}

func (p *parser) loopExp() *Node {
	switch p.peek() {
	case Ident, KExec:
		return p.chain()
	case KNew:
		return p.newObj()
	case Quest:
		return p.ternary()
	case LPar:
		p.p++
		p.push("inP")
		n := p.newObj()
		p.need(RPar)
		p.pop()
		return n
	}
	p.die()
	return nil
}

func starts(k Kind) bool {
	switch k {
	case Str, Num, Date, Label, Ident, KTrue, KFalse, KUndef, KNot, KNew, KGoto, KExec, LPar, Minus, Plus, Quest:
		return true
	}
	return false
}

func (p *parser) optExpr() *Node {
	if starts(p.peek()) {
		return p.expr(0)
	}
	return nil
}

// Binary operators, loosest first; equal levels group to the left.
//
//	ИЛИ 1, И 2, <> 3, <= 4, >= 5, (Не 6), = 7, > < 8, + - 9, * / % 10, (unary - + 11)
func level(k Kind) (int, string) {
	switch k {
	case KOr:
		return 1, "ИЛИ"
	case KAnd:
		return 2, "И"
	case Ne:
		return 3, "<>"
	case Le:
		return 4, "<="
	case Ge:
		return 5, ">="
	case Eq:
		return 7, "="
	case Gt:
		return 8, ">"
	case Lt:
		return 8, "<"
	case Plus:
		return 9, "+"
	case Minus:
		return 9, "-"
	case Mul:
		return 10, "*"
	case Div:
		return 10, "/"
	case Mod:
		return 10, "%"
	}
	return 0, ""
}

var lvName = [...]string{"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12"}

func (p *parser) expr(min int) *Node {
	p.push(lvName[min])
	n := p.primary()
	p.pop()
	return p.ops(n, min)
}

func (p *parser) ops(left *Node, min int) *Node {
	p.push("o" + lvName[min])
	defer p.pop()
	for {
		l, name := level(p.peek())
		if l == 0 || l < min {
			return left
		}
		p.p++
		left = N("bin", name, left, p.expr(l+1))
	}
}

func (p *parser) primary() *Node {
	switch p.peek() {
	case KNot:
		p.p++
		return Not(p.expr(7))
	case Minus:
		p.p++
		return Neg(p.expr(12))
	case Plus:
		p.p++
		return p.expr(12)
	case LPar:
		p.p++
		p.push("(")
		l := p.exprs()
		p.need(RPar)
		p.pop()
		if len(l) == 1 && l[0].T != "_" {
			return l[0]
		}
		return N("tuple", "", l...)
	case KNew:
		return p.newObj()
	case KGoto:
		p.p++
		p.push("goto")
		n := N("goto", p.need(Label).Lit)
		p.pop()
		return n
	case Quest:
		return p.ternary()
	case Ident, KExec:
		return p.chain()
	}
	if n := p.literal(); n != nil {
		return n
	}
	p.die()
	return nil
}

func (p *parser) exprs() []*Node {
	var l []*Node
	for {
		p.push("arg")
		e := p.optExpr()
		if e == nil {
			e = Hole()
		}
		p.set("arg,")
		l = append(l, e)
		c := p.got(Comma)
		p.pop()
		if !c {
			return l
		}
	}
}

func (p *parser) newObj() *Node {
	p.need(KNew)
	p.push("new")
	defer p.pop()
	n := N("new", "")
	if p.peek() == Ident {
		n.V = p.t[p.p].Lit
		p.p++
		p.set("newC")
		if p.peek() != LPar {
			return n
		}
	}
	p.need(LPar)
	p.set("new(")
	n.C = Args(p.exprs())
	p.need(RPar)
	return n
}

func (p *parser) ternary() *Node {
	p.need(Quest)
	p.push("?")
	defer p.pop()
	p.need(LPar)
	p.set("?1")
	a := p.expr(0)
	p.need(Comma)
	p.set("?2")
	b := p.expr(0)
	p.need(Comma)
	p.set("?3")
	c := p.expr(0)
	p.need(RPar)
	return N("tern", "", a, b, c)
}

// chain is a name, a call or an index, followed by members through dots.
func (p *parser) chain() *Node {
	p.push("ch")
	defer p.pop()
	n := p.unit()
	for {
		p.set("ch.")
		if !p.got(Dot) {
			return n
		}
		p.set("chM")
		n = N("dot", "", n, p.unit())
	}
}

func (p *parser) unit() *Node {
	var n *Node
	switch p.peek() {
	case Ident:
		name := p.t[p.p].Lit
		p.p++
		n = N("id", name)
		p.push("u")
		if p.got(LPar) {
			p.set("u(")
			n = N("call", name, Args(p.exprs())...)
			p.need(RPar)
		}
		p.pop()
	case KExec:
		name := p.t[p.p].Lit
		p.p++
		p.push("exec")
		switch p.peek() {
		case Str:
			n = N("call", name, StrNode(p.t[p.p].Lit))
			p.p++
		case Ident:
			n = N("call", name, N("id", p.t[p.p].Lit))
			p.p++
		case LPar:
			p.p++
			p.set("exec(")
			n = N("call", name, p.expr(0))
			p.need(RPar)
		default:
			p.die()
		}
		p.pop()
	default:
		p.die()
	}
	for {
		p.push("u[")
		if !p.got(LBr) {
			p.pop()
			return n
		}
		p.set("u[]")
		i := p.expr(0)
		p.need(RBr)
		p.pop()
		n = N("item", "", n, i)
	}
}
