// Command inner runs two calls of FastToLower, each in its own thread, and switches between them inside the C code of
// the package: at every memory access, and at every entry and exit of a function (see cc-points). For each pair of calls
// it goes through all schedules with one switch (the first call is held at a point, the second runs to its end), and for
// short ones all schedules with two (the second is held too while the first ends).
package main

// #include "points.h"
// #cgo LDFLAGS: -lpthread
import "C"

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"
)

var (
	schedules, points, waits atomic.Int64
	patience                 atomic.Int64 // ms until a call that does not move is taken to wait for the other
	failed                   atomic.Bool
	deadline                 time.Time
)

type run struct {
	r    *C.struct_run
	n    int
	res  string
	done chan struct{}
}

func start(at int, f func() string) *run {
	x := &run{r: C.run_new(C.long(at)), done: make(chan struct{})}
	go func() {
		defer close(x.done)
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		C.run_enter(x.r)
		func() {
			defer func() {
				if e := recover(); e != nil {
					x.res = fmt.Sprint("panic: ", e)
				}
			}()
			x.res = f()
		}()
		x.n = int(C.run_leave())
	}()
	return x
}

func (x *run) stopped() {
	if C.run_stopped(x.r, C.long(patience.Load())) == 0 && waits.Add(1) == 20 {
		patience.Store(2)
	}
}

func (x *run) end() {
	C.run_go(x.r)
	<-x.done
	C.run_free(x.r)
}

// pair runs f until its point k, then g until its point j (0: to its end), then f to its end and g to its end
func pair(k, j int, f, g func() string) (a, b *run) {
	schedules.Add(1)
	a = start(k, f)
	a.stopped()
	b = start(j, g)
	b.stopped()
	a.end()
	b.end()
	return
}

type call struct {
	name string
	f    func() string
	want string
	n    int // points
}

func alone(name string, f func() string) *call {
	x := start(0, f)
	x.stopped()
	x.end()
	return &call{name, f, x.res, x.n}
}

func judge(c *call, x *run, how string) {
	if x.res != c.want && !failed.Swap(true) {
		fmt.Printf("%s %s gives %.300q, alone %.300q\n", c.name, how, x.res, c.want)
	}
}

type job struct {
	a, b *call
	k    int
	two  bool
}

func explore(jobs chan job) {
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for w := range jobs {
				for j := 0; j == 0 || w.two && j <= w.b.n; j++ {
					if failed.Load() || time.Now().After(deadline) {
						break
					}
					a, b := pair(w.k, j, w.a.f, w.b.f)
					how := fmt.Sprintf("held at point %d of its C code while %s runs up to point %d (0: its end)", w.k, w.b.name, j)
					judge(w.a, a, how)
					judge(w.b, b, how+" (the answer of the second)")
				}
			}
		}()
	}
	wg.Wait()
}

func main() {
	deep := flag.Bool("thorough", false, "")
	limit := flag.Duration("limit", time.Minute, "")
	flag.Parse()
	patience.Store(200)
	deadline = time.Now().Add(*limit)
	short := 120
	texts := []string{"", "A", "ж", "Я", "ЕСЛИ", "Not", "Ё\xd0Z", "中Б", strings.Repeat("ШW", 12), strings.Repeat("Q", 70), strings.Repeat("Й", 150), strings.Repeat("a", 300)}
	if *deep {
		short = 400
		texts = append(texts, "ПроцедурА", "&НаКлиентеНаСервере", strings.Repeat("Ё", 31), strings.Repeat("я", 32), strings.Repeat("Z\xd0", 64), strings.Repeat("АB", 700))
	}
	var calls []*call
	for _, s := range texts {
		calls = append(calls, alone(fmt.Sprintf("FastToLower(%q)", s), func() string { return fast_tolower.FastToLower(s) }))
	}
	jobs := make(chan job)
	go func() {
		defer close(jobs)
		for _, a := range calls {
			points.Add(int64(a.n))
			for _, b := range calls {
				for k := 1; k <= a.n; k++ {
					jobs <- job{a, b, k, a.n <= short && b.n <= short}
				}
			}
		}
	}()
	explore(jobs)
	if failed.Load() {
		os.Exit(1)
	}
	fmt.Printf("calls=%d points=%d schedules=%d waits=%d complete=%v\n", len(calls), points.Load(), schedules.Load(), waits.Load(), time.Now().Before(deadline))
}
