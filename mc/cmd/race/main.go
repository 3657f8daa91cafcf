// Command race runs the operations of the package from several goroutines at once, freely; it is built with
// the race detector, which reports memory that two of them use without agreement.
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verifmc/gen"
)

func use(a *ast.AstNode) string {
	t := a.Print(ast.PrintConf{Margin: 4}) + a.Print(ast.PrintConf{OneLine: true})
	j, err := a.JSON()
	t += string(j) + fmt.Sprint(err)
	n := 0
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, s *ast.Statement) {
		n++
		t += a.PrintStatement(*s)
		if root != nil {
			t += root.Name
		}
	})
	return t + fmt.Sprint(n) + a.SrsCode()
}

func whole(src string) (t string) {
	defer func() {
		if e := recover(); e != nil {
			t = fmt.Sprint("panic: ", e)
		}
	}()
	a := ast.NewAST(src)
	err := a.Parse()
	return fmt.Sprint(err) + use(a)
}

func main() {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	srcs := append(append([]string{}, gen.Sentences...), gen.Programs...)
	srcs = append(srcs, gen.Bad...)
	bad := 0
	check := func(src, want, got, how string) {
		if want != got {
			fmt.Fprintf(os.Stderr, "%s of\n%s\ngives %.300q\nalone it gives %.300q\n", how, src, got, want)
			bad++
		}
	}
	// together first, so that whatever is built on first use is built by several at once
	together := func(k []int) []string {
		res := make([]string, len(k))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range k {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				res[i] = whole(srcs[k[i]])
			}()
		}
		close(start)
		wg.Wait()
		return res
	}
	all := make([]int, len(srcs))
	for i := range all {
		all[i] = i
	}
	first := together(append(all, all...))
	solo := make([]string, len(srcs))
	for i, s := range srcs {
		solo[i] = whole(s)
	}
	for i, r := range first {
		check(srcs[i%len(srcs)], solo[i%len(srcs)], r, "one of many parses")
	}
	for i := range srcs {
		for j := i; j < len(srcs); j++ {
			r := together([]int{i, j})
			check(srcs[i], solo[i], r[0], "one of two parses")
			check(srcs[j], solo[j], r[1], "one of two parses")
		}
		// readers of one tree
		a := ast.NewAST(srcs[i])
		a.Parse()
		want := use(a)
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if use(a) != want {
					panic("readers of one tree disagree")
				}
			}()
		}
		wg.Wait()
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Fprintf(os.Stderr, "pairs=%d\n", len(srcs)*(len(srcs)+1)/2)
}
