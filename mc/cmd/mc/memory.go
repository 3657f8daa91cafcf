package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
)

// region is a piece of mutable memory that a tree owns.
type region struct {
	lo, hi uintptr
	what   string
}

// regions lists the lists, tables and structures of a tree; a list owns the room it may grow into.
func regions(m *ast.ModuleStatement, tag string) []region {
	var l []region
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path)
			}
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			e := v.Elem()
			if e.Type().PkgPath() == "time" {
				return
			}
			if e.Type().Size() > 0 {
				l = append(l, region{v.Pointer(), v.Pointer() + e.Type().Size(), tag + path})
			}
			walk(e, path)
		case reflect.Slice:
			if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
				l = append(l, region{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size(), tag + path})
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), path+"["+fmt.Sprint(i)+"]")
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			l = append(l, region{v.Pointer(), v.Pointer() + 1, tag + path})
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k), path+"["+k.String()+"]")
			}
		case reflect.Struct:
			if v.Type().PkgPath() == "time" {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		}
	}
	walk(reflect.ValueOf(m).Elem(), "")
	return l
}

func overlap(l []region) string {
	sort.Slice(l, func(i, j int) bool { return l[i].lo < l[j].lo })
	for i := 1; i < len(l); i++ {
		if l[i].lo < l[i-1].hi {
			return fmt.Sprintf("%s and %s are the same memory", l[i-1].what, l[i].what)
		}
	}
	return ""
}

// others are parsed before and after every program of the memory check.
var others = []string{
	"&НаКлиенте Перем а, б Экспорт; Процедура п(а, Знач б = 1) Перем в, г; Если а Тогда б(); ИначеЕсли в Тогда г(1, 2); Иначе д(); КонецЕсли; КонецПроцедуры ~м: Перейти ~м;",
	"Попытка а(); Исключение ВызватьИсключение; КонецПопытки; Пока а Цикл Прервать; Продолжить; КонецЦикла; Для Каждого а Из Новый М(1, 2) Цикл КонецЦикла;",
}

// separate: the parts of a tree, and of trees of different texts, share no memory that can be changed.
func separate(w *eng.W, src string) {
	pre := impl.Parse(others[0])
	got, ok := accepted(w, src)
	if !ok {
		return
	}
	again := impl.Parse(src)
	post := impl.Parse(others[1])
	l := regions(got.Module(), "tree")
	n := len(l)
	l = append(l, regions(again.Module(), "second tree of the text")...)
	l = append(l, regions(pre.Module(), "tree of an earlier text")...)
	l = append(l, regions(post.Module(), "tree of a later text")...)
	if e := overlap(l); e != "" {
		w.Fail("%s", e)
		return
	}
	w.Outcome(fmt.Sprintf("regions<=%d", roundUp(n)))
}

// grown: adding a statement to one block changes that block and nothing else.
func grown(w *eng.W, src string) {
	got, ok := accepted(w, src)
	if !ok {
		return
	}
	lists := func(m *ast.ModuleStatement) []*ast.Statements {
		l := []*ast.Statements{&m.Body}
		var walk func(s *ast.Statements, elif bool)
		walk = func(s *ast.Statements, elif bool) {
			for i := range *s {
				switch v := (*s)[i].(type) {
				case *ast.FunctionOrProcedure:
					l = append(l, &v.Body)
					walk(&v.Body, false)
				case *ast.IfStatement:
					l = append(l, &v.TrueBlock)
					if !elif { // a branch has no Иначе of its own
						l = append(l, &v.ElseBlock)
					}
					walk(&v.TrueBlock, false)
					walk(&v.ElseBlock, false)
					walk(&v.IfElseBlock, true)
				case *ast.LoopStatement:
					l = append(l, &v.Body)
					walk(&v.Body, false)
				}
			}
		}
		walk(&m.Body, false)
		return l
	}
	n := len(lists(got.Module()))
	for k := 0; k < n && k < 12; k++ {
		a := impl.Parse(src)
		la := lists(a.Module())
		if len(la) != n {
			w.Fail("the same text gives different trees")
			return
		}
		*la[k] = append(*la[k], ast.VarStatement{Name: "МАРКЕР"})
		if x := a.Tree().String(); strings.Count(x, "МАРКЕР") != 1 || strings.Replace(x, " (id МАРКЕР)", "", 1) != got.Tree().String() {
			if !strings.Contains(x, "(else ") && !strings.Contains(x, "(mod") { // an Иначе appears with its first statement
				w.Fail("a statement added to block %d shows up elsewhere: %s", k, diff(got.Tree().String(), x))
				return
			}
			y := strings.Replace(strings.Replace(x, " (else (blk (id МАРКЕР)))", "", 1), " (id МАРКЕР)", "", 1)
			if y != got.Tree().String() {
				w.Fail("a statement added to block %d shows up elsewhere: %s", k, diff(got.Tree().String(), y))
				return
			}
		}
	}
}

func init() {
	register("C19", func(r *eng.Run) {
		overStructures(r, separate)
		visitAll(r, "growing blocks", gen.Stmts{Budget: 3, Leaves: []string{"assign", "call", "label"}, Nests: gen.AllNests, Seps: 2}.Blocks(), grown)
		sizes(r, "growing lengths", r.Bound(8, 40), []int{16, 17, 33, 64, 65, 129, 257}, gen.Lengths, grown)
		visitAll(r, "growing declarations", gen.Modules(r.Bound(3, 4)), grown)
		visitAll(r, "growing functions", funcsAndStmts(r.Bound(3, 4)), grown)
	})
}
