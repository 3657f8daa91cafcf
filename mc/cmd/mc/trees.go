package main

import (
	"fmt"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

type space struct {
	name string
	gen  func(*eng.Ch) string
}

func exprSpaces(r *eng.Run) []space {
	p3 := []string{"", "-", "Не "}
	s := []space{
		{"operands in contexts", gen.Operands(gen.ExprContexts, false)},
		{"operand next to operator", gen.Operands([]string{"а = %s;"}, true)},
		{"operator sequences 2", gen.Flat(2, gen.Ops, gen.Prefixes[:8])},
		{"operator sequences 3", gen.Flat(3, gen.Ops, []string{""})},
		{"operator sequences 3 with prefixes", gen.Flat(3, gen.OpLevels, p3)},
		{"bracketed sequences", gen.Grouped(r.Bound(2, 3), gen.OpLevels, p3, []string{"", "-", "Не "})},
		{"operand pairs", gen.OperandPairs([]string{"", "-", "Не "}[:r.Bound(2, 3)])},
		{"nested expressions", gen.ExprTree(r.Bound(3, 4))},
		{"access chains", gen.Chains(r.Bound(4, 6))},
		{"argument lists", gen.ArgLists(r.Bound(5, 6))},
		{"signed brackets", gen.Signed(r.Bound(1, 2))},
		{"words in expressions", gen.Words(gen.ExprWordHosts)},
		{"literals in places", gen.InHosts(gen.LiteralHosts, gen.Literals)},
		{"literal pairs", gen.LiteralPairs(gen.OpLevels)},
		{"lists and labels as values", gen.Lists(r.Bound(1, 2), append([]string{"Процедура п(а = -%s) КонецПроцедуры"}, gen.ExprContexts[:r.Bound(12, 34)]...))},
	}
	if !r.Quick() {
		s = append(s, space{"operands next to operator in contexts", gen.Operands(gen.ExprContexts, true)},
			space{"operator sequences 4", gen.Flat(4, gen.OpLevels, []string{"", "Не "})},
			space{"operator sequences 5", gen.Flat(5, gen.OpLevels, []string{""})})
	}
	return s
}

func stmtSpaces(r *eng.Run) []space { return stmtSpacesOf(r, r.Bound(5, 6)) }

func stmtSpacesOf(r *eng.Run, budget int) []space {
	return []space{
		{"blocks of every kind", gen.Stmts{Budget: r.Bound(3, 4), Leaves: gen.AllLeaves, Nests: gen.AllNests, Seps: r.Bound(2, 5)}.Blocks()},
		{"blocks", gen.Stmts{Budget: budget, Leaves: []string{"assign"}, Nests: []string{"if", "for", "try"}, Contexts: gen.BodyContexts[:1]}.Blocks()},
		{"separators", gen.Separators(r.Bound(2, 3))},
		{"nesting", gen.Nesting(r.Bound(3, 4))},
		{"words in statements", gen.Words(gen.StmtWordHosts)},
		{"jumps", gen.Jumps(r.Bound(3, 4))},
		{"values of jumps", gen.Returns(1)},
		{"expressions as statements", gen.Bare(r.Bound(1, 2))},
	}
}

func declSpaces(r *eng.Run) []space {
	few := []string{"", "= -1", ` = "с"`, "= Неопределено"}
	return []space{
		{"parameter defaults", gen.Params(r.Bound(2, 3), gen.Defaults)},
		{"parameters", gen.Params(r.Bound(4, 5), few[:r.Bound(3, 4)])},
		{"headers", gen.Headers()},
		{"locals", gen.Locals(3, 3)},
		{"globals", gen.Globals(r.Bound(2, 3), 3)},
		{"modules", gen.Modules(r.Bound(4, 5))},
		{"words in declarations", gen.Words(gen.DeclWordHosts)},
		{"two names made one", sameNames()},
	}
}

func programs(c *eng.Ch) string {
	return eng.One(c, append(append([]string{gen.Large}, gen.Sentences...), gen.Programs...))
}

// sameNames makes two names of a program one.
func sameNames() func(*eng.Ch) string {
	var bases [][]string
	var at [][]int
	for _, s := range append(append([]string{}, gen.Sentences...), append(namesakes, gen.Programs...)...) {
		l := spell(s)
		var p []int
		for i, t := range l {
			if k, e := ref.Lex(t); e == nil && len(k) == 1 && k[0].Kind == ref.Ident {
				p = append(p, i)
			}
		}
		if len(p) > 1 && len(p) < 120 {
			bases, at = append(bases, l), append(at, p)
		}
	}
	return gen.SameNames(bases, at)
}

var namesakes = []string{"Процедура а(б, в, Знач г, Знач д, е = 1, ж = 1) Перем з, и; Перем к; л(б, в); КонецПроцедуры", "Функция а(Знач б = 1, Знач в = 2) Экспорт Возврат г КонецФункции Функция д(е, ж) з = и КонецФункции к(л, м)",
	"Перем а, б; Перем в Экспорт; Процедура г(д) е = ж.з(и)[к].л КонецПроцедуры Процедура м(н) КонецПроцедуры", "~а: ~б: Перейти ~в; Перейти ~г; д = е; ж = з + и - к * л", "Если а Тогда б(); в(); ИначеЕсли г Тогда д() Иначе е() КонецЕсли; Для ж = з По и Цикл к = л КонецЦикла; Для Каждого м Из н Цикл о() КонецЦикла",
	"а = б(в, г, д).е(ж).з[и][к]; л = ?(м, н, о) И п ИЛИ р", "Попытка а(); Исключение б(); КонецПопытки; в = Новый г(д, е); ж = Новый з; и = Новый (к, л)"}

func editedSentences(c *eng.Ch) string {
	return edit{mutate(c, spell(eng.One(c, gen.Sentences))), oneSpace}.text()
}

func sizes(r *eng.Run, name string, dense int, sparse []int, fam []gen.Sweep, check func(*eng.W, string)) {
	var ns []int
	for i := 0; i <= dense; i++ {
		ns = append(ns, i)
	}
	ns = append(ns, sparse...)
	type job struct{ k, n int }
	var jobs []job
	for _, n := range ns {
		for k := range fam {
			if fam[k].Max == 0 || n <= fam[k].Max {
				jobs = append(jobs, job{k, n})
			}
		}
	}
	eng.Over(r, name, jobs, func(w *eng.W, j job) {
		w.State(1)
		w.Outcome(fmt.Sprintf("size<=%d", roundUp(j.n)))
		check(w, fam[j.k].Make(j.n))
	})
}

// slide moves a dense program over the places that matter to buffers.
func slide(r *eng.Run, name string, check func(*eng.W, string)) {
	ns := upto(r.Bound(300, 1500))
	for p := 512; p <= r.Bound(1<<16, 1<<18); p *= 2 {
		for d := -len(gen.Dense) - 2; d <= 2; d++ {
			if p < 8192 || d%2 == 0 || !r.Quick() {
				ns = append(ns, p+d)
			}
		}
	}
	eng.Over(r, name, ns, func(w *eng.W, n int) {
		for k := 0; k < gen.SlidKinds; k++ {
			if n > 1<<14 && k == 2 { // statements take their time
				continue
			}
			w.State(1)
			check(w, gen.Slid(n, k))
		}
	})
}

func sameText(w *eng.W, s string) { texts(sameVerdict)(w, s) }

func roundUp(n int) int {
	p := 16
	for p < n {
		p *= 4
	}
	return p
}

func init() {
	register("C03", func(r *eng.Run) {
		for _, s := range append(exprSpaces(r), variations(r)...) {
			trees(r, s.name, s.gen)
		}
		for _, s := range alikeSpaces(r) {
			trees(r, s.name, s.gen)
		}
		trees(r, "longer signed brackets", gen.Signed(2))
		trees(r, "longer bracketed sequences", gen.Grouped(3, []string{"+", "*", "=", "И"}, []string{"", "-"}, []string{"", "-", "Не "}))
	})
	register("C04", func(r *eng.Run) {
		for _, s := range stmtSpaces(r) {
			trees(r, s.name, s.gen)
		}
		trees(r, "programs", programs)
		trees(r, "functions and statements", funcsAndStmts(r.Bound(4, 5)))
		trees(r, "edited sentences", editedSentences)
		for _, s := range variations(r) {
			trees(r, s.name, s.gen)
		}
		trees(r, "blocks of four kinds", gen.Stmts{Budget: r.Bound(5, 6), Leaves: []string{"assign", "label"}, Nests: []string{"if", "each", "try"}, Contexts: gen.BodyContexts[1:2], Seps: 1}.Blocks())
		trees(r, "long blocks with odd ends", oddEnds(r.Ints([]int{0, 1, 2, 8, 33, 65, 129, 257}, []int{3, 4, 16, 17, 32, 64, 128, 255, 256, 513, 1025})))
		rows(r, "rows in frames", r.Ints([]int{0, 1, 2, 3, 7, 8, 9, 16, 33}, []int{64, 65, 129}), r.Ints([]int{0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33}, []int{65, 129}), gen.StmtFrames, gen.StmtRows, "%s", conform1)
	})
	register("C05", func(r *eng.Run) {
		for _, s := range declSpaces(r) {
			trees(r, s.name, s.gen)
		}
		trees(r, "two declarations", gen.Decls(2))
		trees(r, "defaults varied", varied([]string{"Процедура а(б = 1, Знач в = 2, г) Перем д; КонецПроцедуры Функция е(ж = 3) Экспорт КонецФункции", "&НаКлиенте Перем а, б Экспорт; &НаСервере Функция в(Знач г = 1) Возврат 2; КонецФункции д();"}, 2, gen.OperandTexts))
		for _, s := range variations(r) {
			trees(r, s.name, s.gen)
		}
		visitAll(r, "headers of any size", gen.BigHeaders(r.Ints([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 33, 65, 129}, []int{31, 32, 64, 100, 255, 256, 257, 1025})), conform1)
		sizes(r, "layouts of any size", r.Bound(70, 200), []int{127, 128, 129, 255, 256, 257, 513, 1025}, gen.Layouts, conform1)
	})
	register("C20", func(r *eng.Run) {
		long := []int{200, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025}
		if !r.Quick() {
			long = append(long, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000)
		}
		chk := func(w *eng.W, s string) { conform(w, s) }
		sizes(r, "lengths", r.Bound(130, 300), long, gen.Lengths, chk)
		sizes(r, "lengths within", r.Bound(20, 130), long, gen.Inside, chk)
		sizes(r, "depths", r.Bound(130, 300), long, gen.Depths, chk)
		sizes(r, "layouts", r.Bound(130, 300), long, gen.Layouts, chk)
		slide(r, "a program slid over any place", chk)
		sizes(r, "long tokens", r.Bound(40, 300), around(0, r.Bound(1<<13, 1<<16))[1:], gen.LongTokens, sameText)
		ns := around(r.Bound(9, 20), r.Bound(128, 512))
		rows(r, "rows in frames", ns, ns, gen.StmtFrames, gen.StmtRows, "%s", chk)
		rows(r, "expressions in frames", ns, ns, gen.ExprFrames, gen.ExprRows, "р = %s;", chk)
		damaged(r, "damaged lengths", around(r.Bound(10, 40), 1024), gen.Lengths, sameVerdict)
		damaged(r, "damaged depths", around(r.Bound(10, 40), 512), gen.Depths, sameVerdict)
		hugeSpace(r, "colossal lengths", flat, "count")
		hugeSpace(r, "colossal depths", deep, "count")
	})
}
