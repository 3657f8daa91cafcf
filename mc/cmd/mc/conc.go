package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
)

// whole is everything one can learn about a text: verdict, tree, prints, document, walk.
func whole(src string) string {
	o := impl.Parse(src)
	return fmt.Sprint(o.Err) + o.Panic + "\n" + use(o)
}

func use(o impl.Out) (t string) {
	if msg := impl.Protect(func() {
		t = o.Tree().String() + "\n" + o.A.Print(confs[1]) + o.A.Print(confs[3])
		j, err := o.A.JSON()
		n := 0
		o.A.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) {
			n++
			if root != nil {
				t += root.Name + " "
			}
		})
		t += string(j) + fmt.Sprint(err, n)
	}); msg != "" {
		return msg
	}
	return t
}

// again checks that parsing twice with one object, with its tree used or changed in between, is parsing once.
func again(w *eng.W, s string) {
	w.Input(s)
	w.State(1)
	w.Trace()
	first := whole(s)
	for i, between := range []func(o impl.Out){
		func(o impl.Out) {},
		func(o impl.Out) { use(o) },
		func(o impl.Out) {
			o.A.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) { *s = ast.VarStatement{Name: "ж"} })
			o.A.ModuleStatement.Append(ast.VarStatement{Name: "я"}, o.A)
		},
	} {
		o := impl.Parse(s)
		between(o)
		o.Panic = impl.Protect(func() { o.Err = o.A.Parse() })
		if x := fmt.Sprint(o.Err) + o.Panic + "\n" + use(o); x != first {
			w.Fail("parsed again with the same object (way %d) the text gives something else: %s", i, diff(first, x))
			return
		}
	}
}

// alone gives for every text what a fresh process says about it.
func alone(srcs []string, workers int) map[string]string {
	m := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	jobs := make(chan string, len(srcs))
	for _, s := range srcs {
		if _, dup := m[s]; !dup {
			m[s] = ""
			jobs <- s
		}
	}
	close(jobs)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range jobs {
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				cmd := exec.CommandContext(ctx, os.Args[0])
				cmd.Env = append(os.Environ(), "MC_ALONE=1", "GOMAXPROCS=2")
				cmd.Stdin = strings.NewReader(s)
				out, err := cmd.Output()
				cancel()
				x := string(out)
				if err != nil {
					x = "process ended: " + err.Error()
				}
				mu.Lock()
				m[s] = x
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return m
}

// ---- controlled scheduler: one goroutine runs at a time, switches happen at the points in the lexer

type thread struct {
	resume chan struct{}
	done   bool
}

type sched struct {
	ths      []*thread
	cur      int
	prefix   []int // thread to run at each point where there is a choice
	choices  []int // thread that ran
	enabled  [][]int
	was      []int // thread that was running, -1 when it has just ended
	progress atomic.Int64
	free     atomic.Bool // a thread waits for something the scheduler does not know: no more control
	finished chan struct{}
	bad      string
}

// decide picks the thread to run next; the running one comes first.
func (s *sched) decide(running int) int {
	var en []int
	if running >= 0 {
		en = append(en, running)
	}
	for i, t := range s.ths {
		if i != running && !t.done {
			en = append(en, i)
		}
	}
	if len(en) == 0 {
		return -1
	}
	if len(en) == 1 {
		return en[0]
	}
	n := len(s.choices)
	pick := en[0]
	if n < len(s.prefix) {
		pick = s.prefix[n]
		ok := false
		for _, e := range en {
			ok = ok || e == pick
		}
		if !ok {
			s.bad = fmt.Sprintf("point %d of the recorded schedule has no thread %d", n, pick)
			pick = en[0]
		}
	}
	s.choices = append(s.choices, pick)
	s.enabled = append(s.enabled, en)
	s.was = append(s.was, running)
	return pick
}

func (s *sched) point() {
	if s.free.Load() {
		return
	}
	s.progress.Add(1)
	me := s.cur
	k := s.decide(me)
	if k == me {
		return
	}
	s.cur = k
	s.ths[k].resume <- struct{}{}
	seen := s.progress.Load()
	for {
		select {
		case <-s.ths[me].resume:
			return
		case <-time.After(5 * time.Second):
			if s.free.Load() {
				return
			}
			if p := s.progress.Load(); p == seen {
				s.free.Store(true)
				return
			} else {
				seen = p
			}
		}
	}
}

// run executes the bodies under a schedule.
func (s *sched) run(bodies []func()) {
	s.finished = make(chan struct{}, len(bodies))
	for range bodies {
		s.ths = append(s.ths, &thread{resume: make(chan struct{}, 4)})
	}
	ast.VerifPoint = s.point
	for i, b := range bodies {
		t := s.ths[i]
		go func() {
			<-t.resume
			b()
			s.progress.Add(1)
			if !s.free.Load() {
				t.done = true
				if k := s.decide(-1); k >= 0 {
					s.cur = k
					s.ths[k].resume <- struct{}{}
				}
			}
			s.finished <- struct{}{}
		}()
	}
	s.cur = s.decide(-1)
	s.ths[s.cur].resume <- struct{}{}
	tick := time.NewTicker(3 * time.Second)
	defer tick.Stop()
	for n := 0; n < len(bodies); {
		select {
		case <-s.finished:
			n++
		case <-tick.C:
			if s.free.Load() { // let everybody go
				for _, t := range s.ths {
					select {
					case t.resume <- struct{}{}:
					default:
					}
				}
			}
		}
	}
	ast.VerifPoint = nil
}

func schedule(l []int) string {
	var b strings.Builder
	for _, x := range l {
		b.WriteByte(byte('0' + x))
	}
	return b.String()
}

// interleave explores every schedule of the parses with at most so many preemptions.
func interleave(r *eng.Run, w *eng.W, srcs []string, solo []string, bound int, replay string) {
	src := strings.Join(srcs, "\n|| ")
	exec := func(prefix []int) *sched {
		s := &sched{prefix: prefix}
		res := make([]string, len(srcs))
		bodies := make([]func(), len(srcs))
		for i := range srcs {
			bodies[i] = func() { res[i] = whole(srcs[i]) }
		}
		w.Input(src)
		s.run(bodies)
		w.Trace()
		if s.bad != "" {
			w.Fail("the execution is not determined by its schedule: %s", s.bad)
			return s
		}
		for i := range res {
			if res[i] != solo[i] {
				w.Fail("thread %d of schedule %s: %s", i, schedule(s.choices), diff(solo[i], res[i]))
				return s
			}
		}
		return s
	}
	if replay != "" {
		var p []int
		for _, c := range replay {
			p = append(p, int(c-'0'))
		}
		exec(p)
		return
	}
	hard := false
	var explore func(prefix []int, used int)
	explore = func(prefix []int, used int) {
		if r.Halted() || hard {
			return
		}
		w.Enter(src + "\x00" + schedule(prefix))
		s := exec(prefix)
		w.Leave()
		if s.free.Load() {
			hard = true
			w.Incomplete()
			w.Outcome("not under control")
			return
		}
		w.State(len(s.choices) - len(prefix))
		w.Transition(len(s.choices))
		if r.Halted() {
			return
		}
		for i := len(prefix); i < len(s.choices); i++ {
			cost := used
			if s.was[i] >= 0 {
				cost++
			}
			if cost > bound {
				continue
			}
			for _, alt := range s.enabled[i] {
				if alt != s.choices[i] {
					explore(append(append([]int{}, s.choices[:i]...), alt), cost)
				}
			}
		}
		if len(prefix) == 0 {
			w.Outcome(fmt.Sprintf("%d threads, points<=%d", len(srcs), roundUp(len(s.choices))))
			again := &sched{}
			bodies := make([]func(), len(srcs))
			for i := range srcs {
				bodies[i] = func() { whole(srcs[i]) }
			}
			again.run(bodies)
			if a, b := schedule(s.choices), schedule(again.choices); a != b && !again.free.Load() {
				w.Fail("one schedule, two executions: %s and %s", a, b)
			}
		}
	}
	explore(nil, 0)
}

var tinySrcs = []string{"а=1", "Прервать", `"с"`, "~м", "а = ;", "п(1)", "'2024'", "Не а"}

var concSrcs = []string{
	"а=1",
	`б("с",2)`,
	"Пока а Цикл Прервать КонецЦикла",
	"Попытка Исключение ВызватьИсключение КонецПопытки",
	"Функция ф(п=1) Перем л; Возврат л КонецФункции",
	"Процедура п() КонецПроцедуры а.б[1]",
	"Прервать",
	"а = ;",
	"ВызватьИсключение",
	"&НаКлиенте Перем г; ~м: Не а",
	`"а`,
	"Если а Тогда б ИначеЕсли в Тогда Иначе г КонецЕсли",
	"Процедура п() Возврат 1 КонецПроцедуры",
	"а='20240101'+Новый М(,1)",
	"",
}

type family struct {
	name  string
	texts []string
}

// twins are families of texts that a careless table of results or positions would take for one another.
func twins() []family {
	var f []family
	combos := func(pat string, alts []string) (l []string) {
		l = []string{""}
		for _, p := range strings.Split(pat, "%") {
			var m []string
			for i, x := range l {
				if i == 0 && len(l) == 1 && x == "" {
					m = append(m, p)
					continue
				}
				for _, a := range alts {
					m = append(m, x+a+p)
				}
			}
			l = m
		}
		return l
	}
	blank := []string{" ", "\n", "\t"}
	f = append(f, family{"same length, other lines, error", combos("а=1;%б();%Если%;%в", blank)},
		family{"same length, other lines, program", combos("а=1;%б(\"с\");%ф(а,%2)%;", blank)},
		family{"same length, other lines, end missing", combos("%Если%а%Тогда%б", blank)},
		family{"same length, other names", combos("%=%+%;", []string{"а", "б", "в", "Ё"})},
		family{"same length, other operators", combos("а=б%в%г;", []string{"+", "-", "*", "=", "<", ")"})},
		family{"same length, other literals", combos("а=%;ф(%);", []string{"12", "13", "1.", `""`, "б", "-1", "~м", "--"})},
		family{"same length, other words", combos("%;%;", []string{"Прервать", "Возврата", "Процедур", "Перейти ", "Неопреде"})},
		family{"same length, long, one place differs", nil},
		family{"same length, other blocks", combos("Пока а Цикл % КонецЦикла; %", []string{"Прервать;  ", "Продолжить;", "б();       ", "ф(1);      "})})
	for _, n := range []int{7, 15, 31, 64, 130} { // long tokens that differ at one end
		x := strings.Repeat("ж", n)
		f = append(f, family{fmt.Sprint("names of ", n, " letters and one that differs"), combos("%=%.%(1);", []string{x + "А", x + "Б", "А" + x, "Б" + x})},
			family{fmt.Sprint("literals of ", n, " characters and one that differs"), combos("а=%;ф(%);", []string{`"` + x + `1"`, `"` + x + `2"`, `"1` + x + `"`, `"2` + x + `"`, "1" + strings.Repeat("0", n) + ".5", "1" + strings.Repeat("0", n) + ".6"})},
			family{fmt.Sprint("declared names of ", n, " letters and one that differs"), combos("Процедура %() Перем %; а.%=1; КонецПроцедуры", []string{x + "А", x + "Б"})})
	}
	for i := range f {
		if f[i].texts != nil {
			continue
		}
		for _, n := range []int{20, 80, 350, 2600} {
			fill := func(s string) string { return strings.Repeat(s, n/4) }
			pat := "// " + fill("слово ") + "\nа=%;" + fill("б(1);") + "в=%+\"" + fill("ж") + "\";\n#" + fill("О ") + "\nг=%;"
			l := combos(pat, []string{"1", "2"})
			f[i].texts = append(f[i].texts, append(l, strings.Replace(l[0], "г=1", "г=;", 1), strings.Replace(l[0], "г=1", "г=)", 1), strings.Replace(l[0], "а=1", "а=;", 1))...)
		}
	}
	return f
}

func init() {
	register("C18", func(r *eng.Run) {
		// one object: what a second Parse says is what the first one said
		visitAll(r, "parsed again: programs", programs, again)
		visitAll(r, "parsed again: edited sentences", editedSentences, again)
		visitAll(r, "parsed again: any tokens", leftovers(2), again)
		visitAll(r, "parsed again: modules", gen.Modules(3), again)
		// histories: every sequence of parses
		srcs := append(append([]string{}, concSrcs...), gen.Bad...)
		srcs = append(srcs, gen.Sentences...)
		long := srcs
		every := append(append(append([]string{}, tinySrcs...), append(long, gen.Programs...)...), probes...)
		for _, f := range twins() {
			every = append(every, f.texts...)
		}
		solo := alone(every, r.Workers)
		one := r.Workers
		r.Workers = 1
		defer func() { r.Workers = one }()
		depth := 2
		if !r.Quick() {
			depth = 3
		}
		eng.Explore(r, "histories", func(c *eng.Ch) []string {
			var l []string
			for i := 0; i < depth; i++ {
				l = append(l, long[c.Pick(len(long))])
			}
			return l
		}, func(w *eng.W, l []string) {
			w.Input(strings.Join(l, "\n-- then\n"))
			w.State(1)
			w.Trace()
			for _, s := range l {
				if x := whole(s); x != solo[s] {
					w.Fail("after the texts before it %q gives something else: %s", s, diff(solo[s], x))
					return
				}
			}
		})
		visitAll(r, "after a broken text", leftovers(r.Bound(1, 2)), func(w *eng.W, s string) {
			for _, p := range probes {
				w.Input(s + "\n-- then\n" + p)
				w.Trace()
				impl.Parse(s)
				if x := whole(p); x != solo[p] {
					w.Fail("after the text before it %q gives something else: %s", p, diff(solo[p], x))
					return
				}
			}
		})
		eng.Explore(r, "long histories", func(c *eng.Ch) []string {
			var l []string
			for i := 0; i < r.Bound(4, 5); i++ {
				l = append(l, concSrcs[c.Pick(len(concSrcs)-1)])
			}
			return l
		}, func(w *eng.W, l []string) {
			w.Input(strings.Join(l, "\n-- then\n"))
			w.State(1)
			w.Trace()
			for i, s := range l {
				o := impl.Parse(s)
				if x := fmt.Sprint(o.Err) + o.Panic + "\n" + use(o); i == len(l)-1 && x != solo[s] {
					w.Fail("after the texts before it %q gives something else: %s", s, diff(solo[s], x))
					return
				}
			}
		})
		// texts of one length and one number of tokens that differ in layout or in one letter
		for _, fam := range twins() {
			fam := fam
			eng.Explore(r, fam.name, func(c *eng.Ch) []string {
				return []string{eng.One(c, fam.texts), eng.One(c, fam.texts)}
			}, func(w *eng.W, l []string) {
				w.Input(strings.Join(l, "\n-- then\n"))
				w.State(1)
				w.Trace()
				for _, s := range l {
					if x := whole(s); x != solo[s] {
						w.Fail("after the texts before it %q gives something else: %s", s, diff(solo[s], x))
						return
					}
				}
			})
		}
		// operations on two trees in every order
		eng.Explore(r, "operations on two trees", func(c *eng.Ch) [3]string {
			a, b := srcs[c.Pick(r.Bound(24, len(srcs)))], srcs[c.Pick(r.Bound(24, len(srcs)))]
			n := [2]int{4, 4}
			order := ""
			for n[0]+n[1] > 0 {
				k := 0
				if n[0] == 0 {
					k = 1
				} else if n[1] > 0 {
					k = c.Pick(2)
				}
				n[k]--
				order += strconv.Itoa(k)
			}
			return [3]string{a, b, order}
		}, func(w *eng.W, v [3]string) {
			w.Input(v[0] + "\n|| " + v[1] + "\n" + v[2])
			w.State(1)
			w.Trace()
			var o [2]impl.Out
			var step [2]int
			for _, k := range v[2] {
				i := int(k - '0')
				switch step[i] {
				case 0:
					o[i].A = ast.NewAST(v[i])
				case 1:
					o[i].Panic = impl.Protect(func() { o[i].Err = o[i].A.Parse() })
				default:
					if x := fmt.Sprint(o[i].Err) + o[i].Panic + "\n" + use(o[i]); x != solo[v[i]] {
						w.Fail("step %d on %q: %s", step[i], v[i], diff(solo[v[i]], x))
						return
					}
				}
				step[i]++
			}
		})
		for _, k := range []struct {
			name     string
			n, bound int
			srcs     []string
		}{
			{"schedules of two parses", 2, r.Bound(1, 2), append(append([]string{}, concSrcs...), gen.Sentences[:r.Bound(6, len(gen.Sentences))]...)},
			{"schedules of two short parses", 2, r.Bound(2, 2), tinySrcs[:r.Bound(4, len(tinySrcs))]},
			{"schedules of three parses", 3, r.Bound(1, 2), concSrcs[:r.Bound(3, 7)]},
		} {
			eng.Raw(r, k.name, func(mk func(int) *eng.W, payload string) {
				w := mk(0)
				if r.Replaying() {
					p := strings.SplitN(payload, "\x00", 2)
					l := strings.Split(p[0], "\n|| ")
					var sl []string
					for _, s := range l {
						sl = append(sl, solo[s])
					}
					w.Enter(payload)
					sc := ""
					if len(p) > 1 {
						sc = p[1]
					}
					if sc == "" {
						sc = "0"
					}
					w.Guard(func() { interleave(r, w, l, sl, 0, sc) })
					return
				}
				var pick func(l []string)
				pick = func(l []string) {
					if len(l) == k.n {
						var sl []string
						for _, s := range l {
							sl = append(sl, solo[s])
						}
						w.Guard(func() { interleave(r, w, l, sl, k.bound, "") })
						return
					}
					for _, s := range k.srcs {
						pick(append(l[:len(l):len(l)], s))
					}
				}
				pick(nil)
			})
		}
		eng.Raw(r, "free running under the race detector", func(mk func(int) *eng.W, payload string) {
			w := mk(0)
			w.Enter("race")
			defer w.Leave()
			bin := os.Getenv("MC_RACE")
			if bin == "" {
				w.Incomplete()
				w.Outcome("no race build")
				return
			}
			for i := 0; i < r.Bound(2, 20); i++ {
				cmd := exec.Command(bin)
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
				out, err := cmd.CombinedOutput()
				w.Trace()
				w.State(1)
				w.Outcome("race run " + strings.TrimSpace(string(out[max(0, len(out)-12):])))
				if err != nil {
					w.Fail("%v: %s", err, out)
					return
				}
			}
		})
	}, "goroutines are switched at the points where the lexer reads a token or the source text; races between finer steps are left to the race detector on free runs")
}
