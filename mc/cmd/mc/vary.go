package main

import (
	"strings"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

// operandAt lists the tokens of a program that are operands or names.
func operandAt(toks []string) []int {
	var l []int
	for i, t := range toks {
		k, le := ref.Lex(t)
		if le != nil || len(k) != 1 {
			continue
		}
		switch k[0].Kind {
		case ref.Ident, ref.Num, ref.Str, ref.Date, ref.KTrue, ref.KFalse, ref.KUndef:
			l = append(l, i)
		}
	}
	return l
}

// varied replaces so many operands or names of a base by other operands.
func varied(bases []string, n int, texts []string) func(*eng.Ch) string {
	type base struct {
		toks []string
		at   []int
	}
	var bs []base
	for _, b := range bases {
		t := spell(b)
		if at := operandAt(t); len(at) >= n {
			bs = append(bs, base{t, at})
		}
	}
	return func(c *eng.Ch) string {
		b := bs[c.Pick(len(bs))]
		l := append([]string(nil), b.toks...)
		from := 0
		for i := 0; i < n; i++ {
			k := from + c.Pick(len(b.at)-from-(n-i-1))
			l[b.at[k]] = eng.One(c, texts)
			from = k + 1
		}
		return strings.Join(l, " ")
	}
}

// variations are the spaces that put unusual neighbours around every construct.
func variations(r *eng.Run) []space {
	s := []space{
		{"one operand varied", varied(append(append([]string{}, gen.Sentences...), gen.Programs...), 1, gen.OperandTexts)},
		{"two operands varied", varied(short(r.Bound(12, 30)), 2, gen.OperandTexts[:r.Bound(20, len(gen.OperandTexts))])},
		{"behind one lead", gen.Led(1, append(append(append([]string{}, gen.Sentences...), gen.Programs...), gen.Bad...))},
		{"behind two leads", gen.Led(2, append(append([]string{}, gen.Sentences...), gen.Bad...))},
		{"in a frame behind a lead", gen.Wrapped(append(append([]string{}, gen.Sentences...), gen.Bad...))},
	}
	if !r.Quick() {
		s = append(s, space{"behind three leads", gen.Led(3, gen.Sentences)})
	}
	return s
}

func texts(check func(*eng.W, text)) func(*eng.W, string) {
	return func(w *eng.W, src string) {
		toks, le := ref.Lex(src)
		if le != nil {
			w.Outcome("not tokens")
			return
		}
		check(w, text{src, toks, ref.Parse(toks, false)})
	}
}

// sizesOf is the list of sizes: all to a bound, then those near powers of two.
func around(dense int, max int) []int {
	l := upto(dense)
	for p := 16; p <= max; p *= 2 {
		for _, x := range []int{p - 1, p, p + 1} {
			if x > dense && x <= max+1 {
				l = append(l, x)
			}
		}
	}
	return l
}

// damaged gives texts of a family with one token dropped, repeated, or a wrong one put in.
func damaged(r *eng.Run, name string, ns []int, fam []gen.Sweep, check func(*eng.W, text)) {
	type job struct{ k, n int }
	var jobs []job
	for _, n := range ns {
		for k := range fam {
			if fam[k].Max == 0 || n <= fam[k].Max {
				jobs = append(jobs, job{k, n})
			}
		}
	}
	wrong := []string{"", ")", "КонецЕсли", ";", "Прервать", "а", ",", "Перем"}
	eng.Over(r, name, jobs, func(w *eng.W, j job) {
		l := spell(fam[j.k].Make(j.n))
		if len(l) == 0 {
			return
		}
		for _, at := range []int{0, len(l) / 2, len(l) - 1} {
			for _, x := range wrong {
				for drop := 0; drop < 2; drop++ {
					if x == "" && drop == 0 {
						continue
					}
					m := append([]string(nil), l[:at]...)
					if x != "" {
						m = append(m, x)
					}
					m = append(m, l[at+drop:]...)
					w.State(1)
					texts(check)(w, strings.Join(m, " "))
				}
			}
		}
	})
}

// nested sizes: a row of m constructs inside n frames.
func rows(r *eng.Run, name string, ns, ms []int, frames, rs []gen.Sweep, host string, check func(*eng.W, string)) {
	type job struct{ f, k, n, m int }
	var jobs []job
	for _, n := range ns {
		for _, m := range ms {
			for f := range frames {
				for k := range rs {
					jobs = append(jobs, job{f, k, n, m})
				}
			}
		}
	}
	eng.Over(r, name, jobs, func(w *eng.W, j job) {
		w.State(1)
		check(w, strings.Replace(host, "%s", strings.Replace(frames[j.f].Make(j.n), "%s", rs[j.k].Make(j.m), 1), 1))
	})
}
