// Package eng is an explicit-state explorer: it enumerates every path of a choice tree (the bounded
// space of behaviours), drives the implementation along each of them and runs the oracle of a property.
package eng

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Ch is one path through a choice tree.
type Ch struct {
	choice, arity []int
	pos           int
	limit         int
}

type stopProbe struct{}

// Pick branches into n alternatives; all of them are explored.
func (c *Ch) Pick(n int) int {
	if n <= 1 {
		return 0
	}
	if c.limit >= 0 && c.pos >= c.limit {
		panic(stopProbe{})
	}
	if c.pos == len(c.choice) {
		c.choice = append(c.choice, 0)
		c.arity = append(c.arity, n)
	}
	if c.pos == len(c.arity) {
		c.arity = append(c.arity, n)
	}
	c.arity[c.pos] = n
	v := c.choice[c.pos]
	if v >= n {
		panic(fmt.Sprintf("choice %d out of %d: generator is not deterministic", v, n))
	}
	c.pos++
	return v
}

func (c *Ch) Bool() bool { return c.Pick(2) == 1 }

// One picks an element of the list.
func One[T any](c *Ch, l []T) T { return l[c.Pick(len(l))] }

type Violation struct {
	Space, Payload, Source, Detail string
}

type Run struct {
	Prop, Tier string
	Seed       int
	Workers    int
	Deadline   time.Time

	replaySpace, replayPayload string
	replaying                  bool

	mu       sync.Mutex
	viol     []Violation
	stop     atomic.Bool
	timeout  atomic.Bool
	spaces   []SpaceStat
	outcomes map[string]int64
	samples  []string
	slots    []byte
	extra    map[string]any
	known    []string // listed findings that were met
}

type SpaceStat struct {
	Name        string  `json:"space"`
	States      int64   `json:"states"`
	Transitions int64   `json:"transitions"`
	Traces      int64   `json:"traces"`
	Complete    bool    `json:"complete"`
	WallS       float64 `json:"wall_s"`
}

const slotSize = 64 << 10

// W is a worker of a space.
type W struct {
	R        *Run
	id       int
	slot     []byte
	space    *spaceRun
	payload  string
	src      string
	outcomes map[string]int64
	seq      uint32
}

type spaceRun struct {
	name   string
	states atomic.Int64
	trans  atomic.Int64
	traces atomic.Int64
	full   bool
	start  time.Time
	seen   [64]shard
	failed atomic.Int64
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
	_  [40]byte
}

var hseed = maphash.MakeSeed()

// Visit reports whether the state is new; each distinct state of a space is examined once.
func (w *W) Visit(key string) bool {
	h := maphash.String(hseed, key)
	s := &w.space.seen[h&63]
	s.mu.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	_, dup := s.m[h]
	if !dup {
		s.m[h] = struct{}{}
	}
	s.mu.Unlock()
	if !dup {
		w.space.states.Add(1)
	}
	return !dup
}

// Input tells which input is about to be driven through the implementation.
func (w *W) Input(src string) { w.src = src }

// Trace counts one execution of the implementation compared with the oracle.
func (w *W) Trace() { w.space.traces.Add(1) }

func (w *W) Outcome(k string) { w.outcomes[k]++ }

func (w *W) enter(payload string) {
	w.payload, w.src = payload, ""
	if w.slot != nil {
		w.seq++
		n := len(payload)
		if n > slotSize-512 {
			n = slotSize - 512
		}
		copy(w.slot[256+4:], payload[:n])
		binary.LittleEndian.PutUint32(w.slot[256:], uint32(n))
		binary.LittleEndian.PutUint32(w.slot[0:], w.seq)
	}
}

// Alive tells the supervisor that a long case is still under way.
func (w *W) Alive() {
	if w.slot != nil {
		w.seq++
		binary.LittleEndian.PutUint32(w.slot[0:], w.seq)
	}
}

func (w *W) leave() {
	if w.slot != nil {
		binary.LittleEndian.PutUint32(w.slot[0:], 0)
	}
}

// Fail records a violation of the property.
func (w *W) Fail(format string, a ...any) {
	r := w.R
	r.mu.Lock()
	defer r.mu.Unlock()
	d := fmt.Sprintf(format, a...)
	if len(d) > 20000 {
		d = d[:20000] + "..."
	}
	if len(r.viol) < 5 {
		r.viol = append(r.viol, Violation{w.space.name, w.payload, w.src, d})
	}
	r.stop.Store(true)
}

// Finding records a failure that known-findings.txt may list under its key; it is a violation otherwise.
func (w *W) Finding(key, format string, a ...any) {
	prefix := "known: property=" + w.R.Prop + " " + key + ":"
	list, _ := os.ReadFile(os.Getenv("MC_KNOWN"))
	for _, l := range strings.Split(string(list), "\n") {
		if strings.HasPrefix(l, prefix) {
			w.R.mu.Lock()
			w.R.known = append(w.R.known, strings.TrimPrefix(l, "known: property="+w.R.Prop+" "))
			w.R.mu.Unlock()
			return
		}
	}
	w.Fail("%s: %s", key, fmt.Sprintf(format, a...))
}

func (w *W) guard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			w.Fail("panic: %v\n%s", e, debug.Stack())
		}
	}()
	f()
}

func (r *Run) halted() bool {
	if r.stop.Load() {
		return true
	}
	if !r.Deadline.IsZero() && time.Now().After(r.Deadline) {
		r.timeout.Store(true)
		return true
	}
	return false
}

func (r *Run) begin(name string) *spaceRun {
	return &spaceRun{name: name, full: true, start: time.Now()}
}

func (r *Run) worker(i int, s *spaceRun) *W {
	w := &W{R: r, id: i, space: s, outcomes: map[string]int64{}}
	if r.slots != nil && i < r.Workers {
		w.slot = r.slots[i*slotSize : (i+1)*slotSize]
		n := copy(w.slot[8:256], s.name)
		binary.LittleEndian.PutUint32(w.slot[4:], uint32(n))
	}
	return w
}

func (r *Run) end(s *spaceRun, ws []*W) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, w := range ws {
		for k, v := range w.outcomes {
			r.outcomes[s.name+"/"+k] += v
		}
	}
	if r.halted() {
		s.full = false
	}
	r.spaces = append(r.spaces, SpaceStat{s.name, s.states.Load(), s.trans.Load(), s.traces.Load(), s.full, time.Since(s.start).Seconds()})
}

func (r *Run) Sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 24 && len(s) < 4000 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

// Explore enumerates every path of gen depth first and runs check on what each path yields.
func Explore[T any](r *Run, name string, gen func(*Ch) T, check func(*W, T)) {
	if r.replaying {
		if r.replaySpace == name {
			s := r.begin(name)
			w := r.worker(0, s)
			c := &Ch{choice: decode(r.replayPayload), limit: -1}
			w.enter(r.replayPayload)
			w.guard(func() { check(w, gen(c)) })
			r.end(s, []*W{w})
		}
		return
	}
	if r.halted() {
		r.mu.Lock()
		r.spaces = append(r.spaces, SpaceStat{Name: name})
		r.mu.Unlock()
		return
	}
	s := r.begin(name)
	// split the tree
	var tasks [][]int
	for d := 1; d <= 24; d++ {
		tasks = tasks[:0]
		more := false
		var prefix []int
		for {
			c := &Ch{choice: prefix, limit: d}
			cut := false
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(stopProbe); !ok {
							panic(e)
						}
						cut = true
					}
				}()
				gen(c)
			}()
			more = more || cut
			tasks = append(tasks, append([]int(nil), c.choice[:c.pos]...))
			if prefix = next(c); prefix == nil {
				break
			}
		}
		if !more || len(tasks) >= 40*r.Workers {
			break
		}
	}
	var idx atomic.Int64
	var wg sync.WaitGroup
	ws := make([]*W, r.Workers)
	var sampled atomic.Int64
	for i := range ws {
		ws[i] = r.worker(i, s)
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for {
				n := int(idx.Add(1)) - 1
				if n >= len(tasks) {
					return
				}
				base := tasks[n]
				s.trans.Add(int64(len(base)))
				prefix := append([]int(nil), base...)
				known := len(base)
				for {
					if r.halted() {
						return
					}
					c := &Ch{choice: prefix, limit: -1}
					v := gen(c)
					s.trans.Add(int64(c.pos - known))
					w.enter(encode(c.choice[:c.pos]))
					w.guard(func() { check(w, v) })
					w.leave()
					if k := sampled.Add(1); k&(k-1) == 0 && k > 8 && k < 1<<14 && w.src != "" {
						r.Sample(name + ": " + w.src)
					}
					if prefix = next(c); prefix == nil || len(prefix) <= len(base) {
						break
					}
					known = len(prefix) - 1
				}
			}
		}(ws[i])
	}
	wg.Wait()
	r.end(s, ws)
}

// next gives the path after c in depth-first order.
func next(c *Ch) []int {
	ch := c.choice[:c.pos]
	for i := len(ch) - 1; i >= 0; i-- {
		if ch[i]+1 < c.arity[i] {
			p := append([]int(nil), ch[:i+1]...)
			p[i]++
			return p
		}
	}
	return nil
}

// Over explores every element of a list.
func Over[T any](r *Run, name string, items []T, check func(*W, T)) {
	Explore(r, name, func(c *Ch) int {
		return c.Pick(len(items))
	}, func(w *W, i int) { check(w, items[i]) })
}

func encode(c []int) string {
	b := make([]byte, 0, 3*len(c))
	for i, v := range c {
		if i > 0 {
			b = append(b, '.')
		}
		b = strconv.AppendInt(b, int64(v), 10)
	}
	return string(b)
}

func decode(s string) []int {
	if s == "" {
		return nil
	}
	var l []int
	for _, p := range strings.Split(s, ".") {
		v, _ := strconv.Atoi(p)
		l = append(l, v)
	}
	return l
}

// Raw runs a space with its own exploration strategy (a worklist, a scheduler). The function gets a worker
// maker and says by itself what it covers; payload is non-empty when one recorded case is to be replayed.
func Raw(r *Run, name string, run func(mk func(int) *W, payload string)) {
	if r.replaying && r.replaySpace != name {
		return
	}
	if !r.replaying && r.halted() {
		r.mu.Lock()
		r.spaces = append(r.spaces, SpaceStat{Name: name})
		r.mu.Unlock()
		return
	}
	s := r.begin(name)
	var mu sync.Mutex
	var ws []*W
	mk := func(i int) *W {
		w := r.worker(i, s)
		mu.Lock()
		ws = append(ws, w)
		mu.Unlock()
		return w
	}
	run(mk, r.replayPayload)
	r.end(s, ws)
}

func (w *W) Enter(payload string) { w.enter(payload) }
func (w *W) Leave()               { w.leave() }
func (w *W) Guard(f func())       { w.guard(f) }
func (w *W) Transition(n int)     { w.space.trans.Add(int64(n)) }
func (w *W) State(n int)          { w.space.states.Add(int64(n)) }

// Incomplete tells that a cap cut the space.
func (w *W) Incomplete() { w.space.full = false }

func (r *Run) Halted() bool    { return r.halted() }
func (r *Run) Replaying() bool { return r.replaying }
func (r *Run) Quick() bool     { return r.Tier != "thorough" }

// Pick2 chooses a bound by tier.
func (r *Run) Bound(quick, thorough int) int {
	if r.Quick() {
		return quick
	}
	return thorough
}

// Ints is a list of sizes; the thorough run has more.
func (r *Run) Ints(quick, more []int) []int {
	if r.Quick() {
		return quick
	}
	return append(append([]int{}, quick...), more...)
}

type Result struct {
	Violations []Violation
	Timeout    bool
	Coverage   map[string]any
	Known      []string
}

type Check struct {
	ID          string
	Assumptions []string
	Run         func(*Run)
}

// Stdout is the standard output of the process; it is kept so that the file is not closed.
var Stdout *os.File

// child runs the check in this process and stores the result.
func child(c Check, tier string, seed int, out, slots, rspace, rpayload string, workers int, limit time.Duration) {
	r := &Run{Prop: c.ID, Tier: tier, Seed: seed, Workers: workers, outcomes: map[string]int64{}, extra: map[string]any{}}
	if limit > 0 {
		r.Deadline = time.Now().Add(limit)
	}
	if rspace != "" {
		r.replaying, r.replaySpace, r.replayPayload = true, rspace, rpayload
		r.Deadline = time.Time{}
	} else if slots != "" {
		f, err := os.OpenFile(slots, os.O_RDWR, 0)
		if err == nil {
			if m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*workers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				r.slots = m
			}
		}
	}
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		Stdout, os.Stdout = os.Stdout, null // the lexer reports undecodable characters there
	}
	runtime.GOMAXPROCS(workers)
	c.Run(r)
	var st, tr, tv int64
	full := !r.timeout.Load()
	for _, s := range r.spaces {
		st += s.States
		tr += s.Transitions
		tv += s.Traces
		full = full && s.Complete
	}
	oc := []string{}
	for k, v := range r.outcomes {
		oc = append(oc, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(oc)
	if r.samples == nil {
		r.samples = []string{}
	}
	cov := map[string]any{"states": st, "transitions": tr, "traces_validated_against_impl": tv,
		"samples": r.samples, "exhaustive": full, "spaces": r.spaces, "outcomes": oc}
	for k, v := range r.extra {
		cov[k] = v
	}
	b, err := json.Marshal(Result{r.viol, r.timeout.Load(), cov, r.known})
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
