package eng

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Main is the entry point of a checker program: it supervises a child process that explores, so that a
// crash or an endless loop of the code under test is an observation and not the end of the check.
func Main(checks []Check) {
	prop := flag.String("prop", "", "property")
	dir := flag.String("dir", "/verif", "where evidence and replays go")
	limit := flag.Duration("limit", 0, "stop exploring after this long")
	out := flag.String("child", "", "internal: result file")
	slots := flag.String("slots", "", "internal")
	rspace := flag.String("space", "", "replay: space")
	rpay := flag.String("payload", "", "replay: path")
	workers := flag.Int("workers", 8, "parallel explorers")
	replay := flag.String("replay", "", "replay a recorded violation")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fail(err)
		}
		var v replayFile
		if err := json.Unmarshal(b, &v); err != nil {
			fail(err)
		}
		*prop, *rspace, *rpay, tier = v.Property, v.Space, v.Payload, v.Tier
	}
	var c *Check
	for i := range checks {
		if checks[i].ID == *prop {
			c = &checks[i]
		}
	}
	if c == nil {
		fail(fmt.Errorf("unknown property %q", *prop))
	}
	if *limit == 0 {
		*limit = 420 * time.Second
		if tier == "thorough" {
			*limit = 3 * time.Hour
		}
	}
	if *out != "" {
		child(*c, tier, seed, *out, *slots, *rspace, *rpay, *workers, *limit)
		return
	}
	s := &super{c: c, tier: tier, seed: seed, limit: *limit, dir: *dir, workers: *workers}
	tmp, err := os.MkdirTemp("", "mc")
	if err != nil {
		fail(err)
	}
	s.tmp = tmp
	code := 0
	if *rspace != "" {
		res, crash, _ := s.solo(*rspace, *rpay)
		if crash != "" {
			fmt.Println("crash:", crash)
			code = 1
		} else {
			for _, v := range res.Violations {
				fmt.Printf("input:\n%s\n---\n%s\n", v.Source, v.Detail)
				code = 1
			}
		}
	} else {
		code = s.run()
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "mc:", err)
	os.Exit(2)
}

type replayFile struct {
	Property, Tier, Space, Payload, Source, Detail string
}

type super struct {
	c       *Check
	tier    string
	seed    int
	limit   time.Duration
	dir     string
	tmp     string
	workers int
	n       int
}

const memCap = 22 << 30

// exec runs a child; the third result says it was ended because it made no progress or grew too large.
func (s *super) exec(args []string, slots string, hang time.Duration, mem int64) (*Result, string, bool) {
	s.n++
	out := filepath.Join(s.tmp, fmt.Sprintf("r%d", s.n))
	cmd := exec.Command(os.Args[0], append([]string{"-prop", s.c.ID, "-child", out, "-limit", s.limit.String()}, args...)...)
	cmd.Env = append(os.Environ(), "VERIF_TIER="+s.tier, "GOTRACEBACK=single", "MC_KNOWN="+filepath.Join(s.dir, "known-findings.txt"))
	var buf tail
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		fail(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t := time.NewTicker(time.Second)
	defer t.Stop()
	last := make([]uint32, s.workers)
	since := make([]time.Time, s.workers)
	start := time.Now()
	for i := range since {
		since[i] = start
	}
	why := ""
	for {
		select {
		case err := <-done:
			if why != "" {
				return nil, why, true
			}
			if err == nil {
				if b, e := os.ReadFile(out); e == nil {
					var r Result
					if json.Unmarshal(b, &r) == nil {
						return &r, "", false
					}
				}
				return nil, "no result: " + buf.String(), false
			}
			return nil, fmt.Sprintf("%v: %s", err, buf.String()), false
		case now := <-t.C:
			if why != "" {
				continue
			}
			if slots != "" {
				if b, err := os.ReadFile(slots); err == nil {
					for i := range last {
						q := binary.LittleEndian.Uint32(b[i*slotSize:])
						if q == 0 || q != last[i] {
							last[i], since[i] = q, now
						} else if now.Sub(since[i]) > hang {
							why = fmt.Sprintf("no progress for %v", hang)
						}
					}
				}
			} else if now.Sub(start) > hang {
				why = fmt.Sprintf("no result after %v", hang)
			}
			if b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", cmd.Process.Pid)); err == nil {
				f := strings.Fields(string(b))
				if len(f) > 1 {
					if pg, _ := strconv.ParseInt(f[1], 10, 64); pg*4096 > mem {
						why = "memory exhausted"
					}
				}
			}
			if why != "" {
				cmd.Process.Signal(syscall.SIGKILL)
			}
		}
	}
}

type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 8000 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

func (s *super) solo(space, payload string) (*Result, string, bool) {
	return s.exec([]string{"-space", space, "-payload", payload, "-workers", "8"}, "", 60*time.Second, 10<<30)
}

func (s *super) run() int {
	start := time.Now()
	var res *Result
	var viol []Violation
	workers := s.workers
	for try := 0; try < 3; try++ {
		slots := filepath.Join(s.tmp, "slots")
		os.WriteFile(slots, make([]byte, slotSize*s.workers), 0o600)
		r, crash, killed := s.exec([]string{"-slots", slots, "-workers", strconv.Itoa(workers)}, slots, 60*time.Second, memCap)
		if r != nil {
			res = r
			break
		}
		// which of the inputs in progress did it?
		b, _ := os.ReadFile(slots)
		var where []string
		for i := 0; i < s.workers; i++ {
			m := b[i*slotSize:]
			if binary.LittleEndian.Uint32(m) == 0 {
				continue
			}
			space := string(m[8 : 8+binary.LittleEndian.Uint32(m[4:])])
			n := binary.LittleEndian.Uint32(m[256:])
			payload := string(m[260 : 260+n])
			where = append(where, space+" "+payload)
			_, c1, _ := s.solo(space, payload)
			if c1 == "" {
				continue
			}
			if _, c2, _ := s.solo(space, payload); c2 != "" {
				viol = append(viol, Violation{space, payload, "", "the code under test does not finish: " + c2})
				break
			}
		}
		fmt.Fprintf(os.Stderr, "mc: %s: explorer ended early (%.600s) at %q\n", s.c.ID, crash, where)
		if viol != nil {
			break
		}
		if !killed && try > 0 && (strings.Contains(crash, "fatal error") || strings.Contains(crash, "panic:") || strings.Contains(crash, "SIG")) {
			viol = append(viol, Violation{"", "", strings.Join(where, "\n"), "the code under test crashes the process: " + crash})
			break
		}
	}
	if res == nil {
		res = &Result{Timeout: true, Coverage: map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "exhaustive": false}}
		if viol == nil {
			s.evidence(res, 0, start)
			fmt.Fprintln(os.Stderr, "mc: the exploration could not be completed")
			return 2
		}
	}
	viol = append(viol, res.Violations...)
	s.evidence(res, len(viol), start)
	fmt.Printf("%s %s: states=%v transitions=%v traces=%v exhaustive=%v %.1fs\n", s.c.ID, s.tier, res.Coverage["states"],
		res.Coverage["transitions"], res.Coverage["traces_validated_against_impl"], res.Coverage["exhaustive"], time.Since(start).Seconds())
	sort.Strings(res.Known)
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.c.ID, k)
	}
	if len(viol) == 0 {
		return 0
	}
	od := filepath.Join(s.dir, "out")
	os.MkdirAll(od, 0o755)
	for i, v := range viol {
		p := filepath.Join(od, fmt.Sprintf("%s-%d.json", s.c.ID, i))
		b, _ := json.MarshalIndent(replayFile{s.c.ID, s.tier, v.Space, v.Payload, v.Source, v.Detail}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("  in %s: %.1500s\n  %.1500s\n", v.Space, v.Source, v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.c.ID, p)
	}
	return 1
}

func (s *super) evidence(r *Result, n int, start time.Time) {
	a := s.c.Assumptions
	if a == nil {
		a = []string{}
	}
	ev := map[string]any{"property": s.c.ID, "tier": s.tier, "seed": s.seed, "level": "model_checking",
		"coverage": r.Coverage, "assumptions": a, "wall_s": time.Since(start).Seconds(), "violations": n}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail(err)
	}
	os.MkdirAll(filepath.Join(s.dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(s.dir, "evidence", s.c.ID+".json"), b, 0o644); err != nil {
		fail(err)
	}
}
