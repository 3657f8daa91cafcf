// Package ref is the reference model of the 1C language front end: a lexer, a parser and
// a canonical tree, written from the documented grammar and independent of the implementation.
package ref

import (
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

type Kind int

const (
	EOF Kind = iota
	Ident
	Num
	Str
	Date
	Dir
	Label
	// keywords
	KProc
	KVar
	KGoto
	KEndProc
	KVal
	KIf
	KThen
	KElseIf
	KElse
	KEndIf
	KFor
	KEach
	KIn
	KTo
	KLoop
	KEndLoop
	KBreak
	KContinue
	KTry
	KNew
	KCatch
	KWhile
	KEndTry
	KFunc
	KEndFunc
	KReturn
	KThrow
	KAnd
	KOr
	KTrue
	KFalse
	KUndef
	KNot
	KExport
	KExec
	// operators and punctuation
	Eq
	Ne
	Le
	Ge
	Lt
	Gt
	Plus
	Minus
	Mul
	Div
	Mod
	LPar
	RPar
	LBr
	RBr
	Comma
	Semi
	Colon
	Dot
	Quest
)

// Keywords of the language, lower case, in the order of the kinds above.
var Keywords = []string{
	"процедура", "перем", "перейти", "конецпроцедуры", "знач", "если", "тогда", "иначеесли", "иначе",
	"конецесли", "для", "каждого", "из", "по", "цикл", "конеццикла", "прервать", "продолжить", "попытка",
	"новый", "исключение", "пока", "конецпопытки", "функция", "конецфункции", "возврат", "вызватьисключение",
	"и", "или", "истина", "ложь", "неопределено", "не", "экспорт", "выполнить",
}

var Directives = []string{
	"&наклиенте", "&насервере", "&насерверебезконтекста", "&наклиентенасерверебезконтекста", "&наклиентенасервере",
}

var kwKind = map[string]Kind{}
var dirSet = map[string]bool{}

func init() {
	for i, k := range Keywords {
		kwKind[k] = KProc + Kind(i)
	}
	for _, d := range Directives {
		dirSet[d] = true
	}
}

func KeywordKind(lower string) (Kind, bool) { k, ok := kwKind[lower]; return k, ok }

type Tok struct {
	Kind       Kind
	Lit        string // text as the language sees it
	Num        float64
	Time       time.Time
	Start, End int // byte offsets of the token in the text, End exclusive
}

// Lower maps Latin and Russian capitals to small letters and nothing else.
func Lower(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r >= 'A' && r <= 'Z', r >= 'А' && r <= 'Я':
			b.WriteRune(r + 32)
		case r == 'Ё':
			b.WriteRune('ё')
		default:
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

// Upper is the inverse of Lower.
func Upper(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z', r >= 'а' && r <= 'я':
			return r - 32
		case r == 'ё':
			return 'Ё'
		}
		return r
	}, s)
}

func letter(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func digit(r rune) bool  { return r >= '0' && r <= '9' }
func blank(r rune) bool  { return r == ' ' || r == '\t' || r == '\r' || r == '\n' }

type LexError struct {
	At  int // offset of the token that is malformed
	Msg string
}

func (e *LexError) Error() string { return e.Msg }

type lexer struct {
	s string
	p int
}

func (l *lexer) cur() rune {
	if l.p >= len(l.s) {
		return -1
	}
	r, _ := utf8.DecodeRuneInString(l.s[l.p:])
	return r
}
func (l *lexer) adv() {
	_, n := utf8.DecodeRuneInString(l.s[l.p:])
	l.p += n
}
func (l *lexer) has(t string) bool { return strings.HasPrefix(l.s[l.p:], t) }
func (l *lexer) blanks() {
	for l.p < len(l.s) && blank(rune(l.s[l.p])) {
		l.p++
	}
}
func (l *lexer) line() {
	i := strings.IndexByte(l.s[l.p:], '\n')
	if i < 0 {
		l.p = len(l.s)
	} else {
		l.p += i
	}
}
func (l *lexer) trivia() {
	for {
		l.blanks()
		if l.has("//") || l.has("#") {
			l.line()
			continue
		}
		return
	}
}

// quoted reads the inside of a string or date literal; the opening quote has been consumed.
func (l *lexer) quoted(q byte) (string, string) {
	var b strings.Builder
	for {
		if l.p >= len(l.s) {
			return "", "unterminated literal"
		}
		c := l.s[l.p]
		switch {
		case c == '\n':
			l.p++
			l.blanks()
			if l.has("//") {
				l.trivia()
			}
			if !l.has("|") {
				return "", "line continuation expected"
			}
			l.p++
			b.WriteString("\n|")
		case c == q && q == '"' && l.has(`""`):
			l.p += 2
			b.WriteString(`""`)
		case c == q:
			l.p++
			return b.String(), ""
		default:
			r, n := utf8.DecodeRuneInString(l.s[l.p:])
			if r == utf8.RuneError && n == 1 {
				b.WriteRune(r)
			} else {
				b.WriteString(l.s[l.p : l.p+n])
			}
			l.p += n
		}
	}
}

var single = map[byte]Kind{'/': Div, ';': Semi, '(': LPar, ')': RPar, ',': Comma, '-': Minus, '+': Plus,
	'*': Mul, '?': Quest, '[': LBr, ']': RBr, ':': Colon, '%': Mod, '.': Dot, '=': Eq}

// Lex splits a text into tokens. On a lexical error the tokens before it are returned as well.
func Lex(s string) ([]Tok, *LexError) {
	l := &lexer{s: s}
	toks := make([]Tok, 0, 16)
	for {
		l.trivia()
		if l.p >= len(s) {
			return toks, nil
		}
		afterDot := len(toks) > 0 && toks[len(toks)-1].Kind == Dot
		start := l.p
		fail := func(m string) ([]Tok, *LexError) { return toks, &LexError{start, m} }
		t := Tok{Start: start}
		c := l.cur()
		b := s[l.p]
		switch {
		case letter(c):
			t.Lit = l.word()
			t.Kind = Ident
			if k, ok := kwKind[Lower(t.Lit)]; ok && !afterDot {
				t.Kind = k
			}
		case digit(c):
			for digit(l.cur()) || l.cur() == '.' {
				l.p++
			}
			if letter(l.cur()) {
				return fail("letter after a number")
			}
			t.Kind, t.Lit = Num, s[start:l.p]
			f, err := strconv.ParseFloat(t.Lit, 64)
			if err != nil {
				return fail("bad number")
			}
			t.Num = f
		case b == '\'':
			l.p++
			v, msg := l.quoted('\'')
			if msg != "" {
				return fail(msg)
			}
			var d strings.Builder
			for _, r := range v {
				if digit(r) {
					d.WriteRune(r)
				}
			}
			t.Kind, t.Lit = Date, d.String()
			tm, ok := DateValue(t.Lit)
			if !ok {
				return fail("bad date")
			}
			t.Time = tm
		case b == '"':
			t.Kind = Str
			for {
				l.p++
				v, msg := l.quoted('"')
				if msg != "" {
					return fail(msg)
				}
				t.Lit += v
				t.End = l.p
				q := l.p
				l.blanks()
				if !l.has(`"`) {
					l.p = q
					break
				}
			}
		case b == '<' || b == '>':
			two := ""
			if l.p+1 < len(s) {
				two = s[l.p : l.p+2]
			}
			switch two {
			case "<>":
				t.Kind, t.Lit = Ne, two
			case "<=":
				t.Kind, t.Lit = Le, two
			case ">=":
				t.Kind, t.Lit = Ge, two
			default:
				t.Lit = string(b)
				t.Kind = Gt
				if b == '<' {
					t.Kind = Lt
				}
			}
			l.p += len(t.Lit)
		case b == '&':
			l.p++
			t.Lit = "&" + l.word()
			if !dirSet[Lower(t.Lit)] {
				return fail("unknown directive")
			}
			t.Kind = Dir
		case b == '~':
			l.p++
			t.Kind, t.Lit = Label, l.word()
		default:
			k, ok := single[b]
			if !ok {
				return fail("unexpected character")
			}
			l.p++
			t.Kind, t.Lit = k, string(b)
		}
		if t.End == 0 {
			t.End = l.p
		}
		toks = append(toks, t)
	}
}

func (l *lexer) word() string {
	q := l.p
	for letter(l.cur()) || digit(l.cur()) {
		l.adv()
	}
	return l.s[q:l.p]
}

var mdays = [...]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// DateValue reads a date of 8, 12 or 14 digits; all zeros is the empty date.
func DateValue(d string) (time.Time, bool) {
	if d == "" {
		return time.Time{}, false
	}
	if strings.Trim(d, "0") == "" {
		return time.Time{}, true
	}
	if len(d) != 8 && len(d) != 12 && len(d) != 14 {
		return time.Time{}, false
	}
	n := func(i, j int) int {
		if j > len(d) {
			return 0
		}
		v, _ := strconv.Atoi(d[i:j])
		return v
	}
	y, m, day, h, mi, sec := n(0, 4), n(4, 6), n(6, 8), n(8, 10), n(10, 12), n(12, 14)
	if m < 1 || m > 12 || h > 23 || mi > 59 || sec > 59 {
		return time.Time{}, false
	}
	md := mdays[m-1]
	if m == 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		md = 29
	}
	if day < 1 || day > md {
		return time.Time{}, false
	}
	return time.Date(y, time.Month(m), day, h, mi, sec, 0, time.UTC), true
}

// LineCol gives the 1-based line and 0-based column, in characters, of a byte offset.
func LineCol(s string, off int) (int, int) {
	bol := strings.LastIndexByte(s[:off], '\n') + 1
	return strings.Count(s[:off], "\n") + 1, utf8.RuneCountInString(s[bol:off])
}
