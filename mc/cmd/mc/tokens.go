package main

import (
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verifmc/eng"
	"verifmc/ref"
)

// Alphabet has one spelling of every token of the language; two names, so that duplicates are possible.
var alphabet = func() []string {
	l := []string{"а", "б", "1", `"с"`, "'20240101'", "&НаКлиенте", "~м"}
	for _, k := range ref.Keywords {
		l = append(l, strings.ToUpper(k[:2])+k[2:])
	}
	return append(l, "=", "<>", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "(", ")", "[", "]", ",", ";", ":", ".", "?")
}()

// text is a sequence of chunks of an alphabet in one textual form.
type text struct {
	src  string
	toks []ref.Tok
	res  ref.Result
}

func join(alpha, seps []string, seq []int) string {
	var b strings.Builder
	for i, k := range seq {
		if i > 0 {
			b.WriteString(seps[(i+k)%len(seps)])
		}
		b.WriteString(alpha[k])
	}
	return b.String()
}

func payload(seq []int) string {
	var b strings.Builder
	for _, k := range seq {
		b.WriteByte(byte(k + 33))
	}
	return b.String()
}

func parsePayload(s string) []int {
	l := make([]int, len(s))
	for i := range s {
		l[i] = int(s[i]) - 33
	}
	return l
}

func look(src string, sig bool) text {
	toks, le := ref.Lex(src)
	if le != nil {
		panic("alphabet: " + le.Msg + " in " + src)
	}
	return text{src, toks, ref.Parse(toks, sig)}
}

func (t text) viable() bool { return t.res.Viable(len(t.toks)) }

// tokenTree explores every sequence of chunks up to a length whose proper prefixes can all be continued.
func tokenTree(r *eng.Run, name string, alpha, seps []string, depth int, check func(*eng.W, text)) {
	eng.Raw(r, name, func(mk func(int) *eng.W, replay string) {
		if r.Replaying() {
			w := mk(0)
			w.Enter(replay)
			w.Guard(func() { check(w, look(join(alpha, seps, parsePayload(replay)), false)) })
			return
		}
		var visit func(w *eng.W, seq []int, max int, cut func([]int))
		visit = func(w *eng.W, seq []int, max int, cut func([]int)) {
			for k := range alpha {
				if r.Halted() {
					return
				}
				s := append(seq[:len(seq):len(seq)], k)
				w.Enter(payload(s))
				src := join(alpha, seps, s)
				w.Input(src)
				t := look(src, false)
				w.Transition(1)
				w.State(1)
				w.Guard(func() { check(w, t) })
				w.Leave()
				if t.viable() {
					if len(s) < max {
						visit(w, s, max, cut)
					} else if cut != nil {
						cut(s)
					}
				}
			}
		}
		var tasks [][]int
		visit(mk(0), nil, min(2, depth), func(s []int) { tasks = append(tasks, s) })
		if depth <= 2 {
			return
		}
		r.Sample(name + ": " + join(alpha, seps, tasks[len(tasks)/2]))
		parallel(r, mk, len(tasks), func(w *eng.W, i int) { visit(w, tasks[i], depth, nil) })
	})
}

func parallel(r *eng.Run, mk func(int) *eng.W, n int, f func(w *eng.W, i int)) {
	var idx atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < r.Workers; i++ {
		w := mk(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(idx.Add(1)) - 1
				if k >= n || r.Halted() {
					return
				}
				f(w, k)
			}
		}()
	}
	wg.Wait()
}

// tokenGraph explores the configurations of the model breadth first: a state is what the model remembers
// of a prefix, reps prefixes of it are expanded with every chunk, and every edge is driven through the parser.
func tokenGraph(r *eng.Run, name string, alpha, seps []string, levels, maxStack, reps, maxStates int, check func(*eng.W, text)) {
	eng.Raw(r, name, func(mk func(int) *eng.W, replay string) {
		if r.Replaying() {
			w := mk(0)
			w.Enter(replay)
			w.Guard(func() { check(w, look(join(alpha, seps, parsePayload(replay)), false)) })
			return
		}
		seen := map[string]int{}
		frontier := [][]int{nil}
		total := 0
		var levelStates []int
		for lv := 0; lv < levels && len(frontier) > 0 && !r.Halted(); lv++ {
			type succ struct {
				sig string
				seq []int
			}
			out := make([][]succ, len(frontier))
			parallel(r, mk, len(frontier), func(w *eng.W, i int) {
				seq := frontier[i]
				for k := range alpha {
					s := append(seq[:len(seq):len(seq)], k)
					w.Enter(payload(s))
					src := join(alpha, seps, s)
					w.Input(src)
					t := look(src, true)
					w.Transition(1)
					w.Guard(func() { check(w, t) })
					w.Leave()
					if t.viable() && strings.Count(t.res.Sig, " ") < maxStack {
						out[i] = append(out[i], succ{t.res.Sig + tail(t.toks), s})
					}
				}
			})
			var next [][]int
			w := mk(0)
			for _, l := range out {
				for _, s := range l {
					if total >= maxStates && seen[s.sig] == 0 {
						w.Incomplete()
						continue
					}
					if seen[s.sig] < reps {
						if seen[s.sig] == 0 {
							w.State(1)
							total++
						}
						seen[s.sig]++
						next = append(next, s.seq)
					}
				}
			}
			if len(next) > 0 {
				r.Sample(name + ": " + join(alpha, seps, next[len(next)/2]))
			}
			sort.SliceStable(next, func(i, j int) bool { return len(next[i]) < len(next[j]) })
			frontier = next
			levelStates = append(levelStates, total)
		}
		r.Extra(name+": states after each length", levelStates)
	})
}

// tail: the model decides by the last token too (a separator was just read or not).
func tail(t []ref.Tok) string {
	if n := len(t); n > 0 && (t[n-1].Kind == ref.Semi || t[n-1].Kind == ref.Colon) {
		return ";"
	}
	return ""
}
