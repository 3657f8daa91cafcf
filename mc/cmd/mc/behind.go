package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"syscall"
	"time"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/impl"
)

// streams puts a file in the place of standard output and error; written tells how much has been written to it.
func streams() (written func() int64, restore func()) {
	f, err := os.CreateTemp("", "mcout")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	out := os.Stdout
	os.Stdout = eng.Stdout
	var saved [3]int
	for fd := 1; fd <= 2; fd++ {
		if saved[fd], err = syscall.Dup(fd); err != nil {
			panic(err)
		}
		if err = syscall.Dup2(int(f.Fd()), fd); err != nil {
			panic(err)
		}
	}
	fd := int(f.Fd())
	return func() int64 {
			var st syscall.Stat_t
			if err := syscall.Fstat(fd, &st); err != nil {
				panic(err)
			}
			return st.Size
		}, func() {
			for fd := 1; fd <= 2; fd++ {
				syscall.Dup2(saved[fd], fd)
				syscall.Close(saved[fd])
			}
			os.Stdout = out
			f.Close()
		}
}

// settled is the number of goroutines once it is down to the given number, or after a while.
func settled(want int) int {
	n := runtime.NumGoroutine()
	for i := 0; n > want && i < 400; i++ {
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Millisecond)
		}
		n = runtime.NumGoroutine()
	}
	return n
}

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// process is what belongs to the whole process: environment, working directory, settings of the Go runtime, files made
// in the working, temporary or home directory (all three are the same empty scratch directory here).
func process(dir string) string {
	wd, err := os.Getwd()
	l := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}, {Name: "/sched/gomaxprocs:threads"}}
	metrics.Read(l)
	t := fmt.Sprint("directory ", wd, " ", err)
	for _, m := range l {
		if m.Value.Kind() == metrics.KindUint64 {
			t += fmt.Sprint("; ", m.Name, " ", m.Value.Uint64())
		}
	}
	files, err := os.ReadDir(dir)
	return t + fmt.Sprint("; files ", files, " ", err, "; environment ", os.Environ())
}

func descriptors() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

// families are texts with a number in them; texts of different numbers differ.
var families = []string{
	"а = 1; б(1, \"с\", '20240101');", "имя% = 1;", "а = %;", "а = 0.%;", "а = \"%\";", "а = \"с\n|%\";", "// %\nа = 1;", "#Область О%\nа = 1;", "а.Б%.В(%);", "~м%: Перейти ~м%;",
	"Процедура п%(а%, Знач б% = %) Перем л%; КонецПроцедуры", "Перем г% Экспорт;", "Функция ф() Возврат ф%(%); КонецФункции", "а = Новый Т%(%);", "а[%] = ?(а% > %, %, -%);",
	"Если а% Тогда Прервать; КонецЕсли;", "а% б%", "Перем г%, г%;", "а = \"%", "а% = @;", "а = %а;", "Попытка Для Каждого э% Из в% Цикл а(; КонецЦикла", "а(%", "&НаКлиенте% а", "Процедура п() Возврат %; КонецПроцедуры",
	"\xff%", "%",
	"// " + strings.Repeat("слово ", 250) + "\nа = %; б(\"" + strings.Repeat("ж", 300) + "\");", "а = %; б(\"" + strings.Repeat("ж", 1000) + "\"); в = ;"}

// kept checks that memory does not grow with the number of texts: a family that takes more in every one of the rounds,
// each as long as all those before it, keeps something of every text.
func kept(w *eng.W, family string) {
	w.Input(family)
	w.State(1)
	n, total := 0, 2000
	run := func(k int) {
		for ; k > 0; k-- {
			n++
			whole(strings.ReplaceAll(family, "%", fmt.Sprint(100000+n)))
			w.Alive()
		}
		w.Trace()
	}
	run(total)
	before := heap()
	var rounds []int64
	for len(rounds) < 5 {
		run(total)
		after := heap()
		w.State(1)
		rounds = append(rounds, after-before)
		if after-before < int64(total)*2 {
			w.Outcome("memory given back")
			return
		}
		before, total = after, total*2
	}
	w.Fail("texts like %q take more and more memory: %v bytes in rounds of 2000, 4000, 8000 ... texts", family, rounds)
}

// longFamilies are the families that stay flat however long the text is.
func longFamilies() (l []gen.Sweep) {
	for _, f := range gen.Lengths {
		switch f.Name {
		case "module statements", "procedures", "string", "string lines", "comment lines", "blank lines", "params", "lines of globals", "call args", "identifier", "labels":
			l = append(l, f)
		}
	}
	return
}

func init() {
	register("C30", func(r *eng.Run) {
		all := r.Workers
		r.Workers = 1
		defer func() { r.Workers = all }()
		written, restore := streams()
		defer restore()
		clean := func(w *eng.W, s string) {
			w.Input(s)
			w.State(1)
			w.Trace()
			before, threads := written(), runtime.NumGoroutine()
			for i := 0; i < 3; i++ { // what is started once and for all is not left behind by the text
				use(impl.Parse(s))
				n := settled(threads)
				if n <= threads {
					break
				}
				if threads = n; i == 2 {
					w.Fail("every use of the text leaves a goroutine behind, %d now", n)
					return
				}
			}
			if n := written() - before; n != 0 {
				w.Fail("%d bytes were written to the standard streams", n)
				return
			}
			w.Outcome("nothing left behind")
		}
		dir, err := os.MkdirTemp("", "mcscratch")
		if err != nil {
			panic(err)
		}
		home, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		defer os.Chdir(home)
		for _, k := range []string{"TMPDIR", "HOME", "XDG_CACHE_HOME"} {
			old, ok := os.LookupEnv(k)
			os.Setenv(k, dir)
			defer func() {
				if os.Setenv(k, old); !ok {
					os.Unsetenv(k)
				}
			}()
		}
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		defer debug.SetGCPercent(debug.SetGCPercent(173)) // a value that nobody would set by chance
		start := process(dir)
		untouched := func(w *eng.W, s string) {
			open := descriptors()
			clean(w, s)
			if now := process(dir); now != start {
				w.Fail("the process was changed: %s", diff(start, now))
				return
			}
			for i := 0; i < 3; i++ {
				n := descriptors()
				if n <= open {
					return
				}
				open = n
				use(impl.Parse(s))
			}
			w.Fail("every use of the text leaves a file open, %d now", open)
		}
		visitAll(r, "programs", programs, untouched)
		visitAll(r, "edited sentences", editedSentences, untouched)
		visitAll(r, "any tokens", leftovers(2), untouched)
		visitAll(r, "modules", gen.Modules(3), clean)
		visitAll(r, "blocks of every kind", gen.Stmts{Budget: 3, Leaves: gen.AllLeaves, Nests: gen.AllNests, Seps: 1}.Blocks(), clean)
		visitAll(r, "nesting", gen.Nesting(r.Bound(3, 4)), clean)
		visitAll(r, "any bytes", charStrings(r.Bound(3, 4), []string{"а", "1", "\"", "'", "/", "\n", ".", "&", "#", "~", "|", ";", "\xff", "\xd0", "\ufffd", "\x00", "@", "💰"}), clean)
		for _, s := range append(exprSpaces(r), declSpaces(r)...) {
			if s.name != "lists and labels as values" || !r.Quick() {
				visitAll(r, s.name, s.gen, clean)
			}
		}
		sizes(r, "lengths", r.Bound(8, 40), []int{31, 64, 100, 255}, gen.Lengths, untouched)
		sizes(r, "depths", r.Bound(8, 40), []int{64}, gen.Depths, untouched)
		sizes(r, "long texts", -1, []int{r.Bound(5000, 20000)}, longFamilies(), untouched)
		eng.Over(r, "memory", families, kept)
	})
}
