package main

import (
	"strings"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

// spell lists the tokens of a program as they are written.
func spell(src string) []string {
	toks, le := ref.Lex(src)
	if le != nil {
		panic(le.Msg + " in " + src)
	}
	l := make([]string, len(toks))
	for i, t := range toks {
		l[i] = src[t.Start:t.End]
	}
	return l
}

type edit struct {
	toks []string
	seps []string
}

func (e edit) text() string {
	var b strings.Builder
	for i, t := range e.toks {
		if i > 0 {
			b.WriteString(e.seps[i%len(e.seps)])
		}
		b.WriteString(t)
	}
	return b.String()
}

func splice(l []string, i, j int, with ...string) []string {
	r := append([]string(nil), l[:i]...)
	return append(append(r, with...), l[j:]...)
}

// one edit of a token sequence: drop, insert, replace, swap, repeat, cut the end.
func mutate(c *eng.Ch, l []string) []string {
	if len(l) == 0 {
		return []string{eng.One(c, alphabet)}
	}
	i := c.Pick(len(l) + 1)
	if i == len(l) {
		return append(append([]string(nil), l...), eng.One(c, alphabet))
	}
	switch c.Pick(6) {
	case 0:
		return splice(l, i, i+1)
	case 1:
		return splice(l, i, i, eng.One(c, alphabet))
	case 2:
		return splice(l, i, i+1, eng.One(c, alphabet))
	case 3:
		if i+1 < len(l) {
			return splice(l, i, i+2, l[i+1], l[i])
		}
		return l
	case 4:
		return splice(l, i, i+1, l[i], l[i])
	default:
		return l[:i]
	}
}

// edits explores every program at the given number of token edits from each base program.
func edits(r *eng.Run, name string, bases []string, n int, seps []string, check func(*eng.W, text)) {
	toks := make([][]string, len(bases))
	for i, b := range bases {
		toks[i] = spell(b)
	}
	eng.Explore(r, name, func(c *eng.Ch) string {
		l := toks[c.Pick(len(toks))]
		for i := 0; i < n; i++ {
			l = mutate(c, l)
		}
		return edit{l, seps}.text()
	}, func(w *eng.W, src string) {
		if !w.Visit(src) {
			return
		}
		w.Input(src)
		toks, le := ref.Lex(src)
		if le != nil { // two tokens fused into a malformed one
			return
		}
		check(w, text{src, toks, ref.Parse(toks, false)})
	})
}

func short(max int) []string {
	var l []string
	for _, s := range gen.Sentences {
		if len(spell(s)) <= max {
			l = append(l, s)
		}
	}
	return l
}
