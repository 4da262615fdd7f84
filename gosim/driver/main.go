// gosim checks property C20 by simulation: see DESIGN.md.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"possumsim/sched"
)

const prop = "C20"

type Replay struct {
	Property  string   `json:"property"`
	Engine    string   `json:"engine"`
	Seed      uint64   `json:"found_with_seed"`
	Violation string   `json:"violation"`
	All       []string `json:"all_violations"`
	Hash      string   `json:"hash"`
	Plan      *Plan    `json:"plan"`
	History   []string `json:"history"`
	Trace     []string `json:"trace"`
}

// Summary is what a worker reports.
type Summary struct {
	Runs, Ops, Away, Overlaps, Calls, Steps, Choices, Switches, Repeated int
	Faults                                                               map[string]int
	Profiles                                                             map[string]int
	Shapes                                                               []uint64
	Bad                                                                  []Bad
	Last                                                                 uint64
}

type Bad struct {
	Seed  uint64
	Viols []sched.Violation
	Same  bool
}

func seedOf(base uint64, i uint64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s %d %d", prop, base, i)
	return h.Sum64() >> 1
}

func hex(h uint64) string { return fmt.Sprintf("%016x", h) }

func viols(v []sched.Violation) (r []string) {
	for _, x := range v {
		r = append(r, x.Class+": "+x.Detail)
	}
	return
}

func worker(base, index, step uint64, secs float64, status string) {
	debug.SetTraceback("none")
	st, err := os.Create(status)
	if err != nil {
		panic(err)
	}
	s := Summary{Faults: map[string]int{}, Profiles: map[string]int{}}
	t0 := time.Now()
	seen := map[uint64]bool{}
	for i := index; time.Since(t0).Seconds() < secs && len(s.Bad) < 3; i += step {
		seed := seedOf(base, i)
		st.WriteAt([]byte(fmt.Sprintf("%20d\n", seed)), 0)
		p := generate(seed)
		r := execute(p, false)
		s.Runs++
		s.Ops += r.Ops
		s.Away += r.Away
		s.Overlaps += r.Overlaps
		s.Calls += r.Calls
		s.Steps += r.Steps
		s.Choices += r.Choices
		s.Switches += r.Switches
		s.Profiles[p.Profile]++
		for k, v := range r.Faults {
			s.Faults[k] += v
		}
		if (r.Overlaps > 0 || len(r.Faults) > 0) && !seen[r.Hash] && len(seen) < 400000 {
			seen[r.Hash] = true
			s.Shapes = append(s.Shapes, r.Hash)
		}
		if len(r.Viols) > 0 || i/step%20 == 0 {
			again := execute(generate(seed), false)
			s.Repeated++
			same := again.Hash == r.Hash && fmt.Sprint(again.Viols) == fmt.Sprint(r.Viols)
			if !same || len(r.Viols) > 0 {
				s.Bad = append(s.Bad, Bad{seed, r.Viols, same})
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(&s)
}

// A run in a process of its own, because the program under test may kill the process.
func isolated(p *Plan, trace bool) *Result {
	b, _ := json.Marshal(p)
	cmd := exec.Command(os.Args[0], "-mode", "one")
	if trace {
		cmd.Args = append(cmd.Args, "-trace")
	}
	cmd.Stdin = strings.NewReader(string(b))
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := output(cmd, 30)
	var r Result
	if err == nil && json.Unmarshal(out, &r) == nil {
		return &r
	}
	l := strings.TrimSpace(errb.String())
	if i := strings.Index(l, "\n\n"); i > 0 {
		l = l[:i]
	}
	if err != nil && err.Error() == "timeout" {
		return &Result{Viols: []sched.Violation{{Class: "hang", Detail: "the run does not end (waits for something that is not simulated)"}}}
	}
	return &Result{Viols: []sched.Violation{{Class: "crash", Detail: "the process died: " + l}}}
}

func output(cmd *exec.Cmd, secs int) ([]byte, error) {
	var b strings.Builder
	cmd.Stdout = &b
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case err := <-ch:
		return []byte(b.String()), err
	case <-time.After(time.Duration(secs) * time.Second):
		cmd.Process.Kill()
		<-ch
		return nil, fmt.Errorf("timeout")
	}
}

func clone(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

func withSchedule(p *Plan, dev map[int]int) *Plan {
	q := clone(p)
	q.Schedule = map[string]int{}
	for k, v := range dev {
		q.Schedule[strconv.Itoa(k)] = v
	}
	return q
}

// minimise drops clients, operations, faults and schedule deviations while the kind of violation stays.
func minimise(p *Plan, class string, exec func(*Plan) *Result, until time.Time) (*Plan, int) {
	tried := 0
	try := func(q *Plan) *Result {
		if time.Now().After(until) {
			return nil
		}
		tried++
		r := exec(q)
		if len(r.Viols) > 0 && r.Viols[0].Class == class {
			return r
		}
		return nil
	}
	// Any schedule will do for the smaller plan.
	search := func(q *Plan) *Plan {
		if r := try(q); r != nil {
			return q
		}
		q = clone(q)
		q.Schedule = nil
		for i := 0; i < 12; i++ {
			q.Seed = sched.NewRand(p.Seed + uint64(i)).Next()
			if r := try(q); r != nil {
				return withSchedule(q, r.Dev)
			}
		}
		return nil
	}
	for again := true; again; {
		again = false
		for i := len(p.Clients) - 1; i >= 0; i-- {
			q := clone(p)
			q.Clients = append(q.Clients[:i], q.Clients[i+1:]...)
			if q = search(q); q != nil {
				p, again = q, true
			}
		}
		for i := range p.Clients {
			for k := len(p.Clients[i]) - 1; k >= 0; k-- {
				q := clone(p)
				q.Clients[i] = append(q.Clients[i][:k], q.Clients[i][k+1:]...)
				if q = search(q); q != nil {
					p, again = q, true
				}
			}
		}
		for k := len(p.Prep) - 1; k >= 0; k-- {
			q := clone(p)
			q.Prep = append(q.Prep[:k], q.Prep[k+1:]...)
			if q = search(q); q != nil {
				p, again = q, true
			}
		}
	}
	for i := range p.Clients {
		for k := range p.Clients[i] {
			for _, f := range []func(*Op){func(o *Op) { o.Fail = nil }, func(o *Op) { o.Stall = nil }, func(o *Op) { o.To = "" }, func(o *Op) { o.Keys = nil }} {
				q := clone(p)
				f(q.Clients[i][k])
				if q = search(q); q != nil {
					p = q
				}
			}
		}
	}
	for _, k := range sortedKeys(p.Schedule) {
		q := clone(p)
		delete(q.Schedule, k)
		if try(q) != nil {
			p = q
		}
	}
	return p, tried
}

func main() {
	mode := flag.String("mode", "check", "")
	base := flag.Uint64("base", 1, "")
	secs := flag.Float64("secs", 40, "")
	tier := flag.String("tier", "quick", "")
	root := flag.String("root", ".", "")
	index := flag.Uint64("index", 0, "")
	step := flag.Uint64("step", 1, "")
	status := flag.String("status", "", "")
	trace := flag.Bool("trace", false, "")
	flag.Parse()
	switch *mode {
	case "work":
		worker(*base, *index, *step, *secs, *status)
	case "one":
		var p Plan
		if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		debug.SetTraceback("none")
		json.NewEncoder(os.Stdout).Encode(execute(&p, *trace))
	case "seed":
		n, _ := strconv.ParseUint(flag.Arg(0), 10, 64)
		p := generate(n)
		r := execute(p, true)
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		for _, l := range r.History {
			fmt.Println(l)
		}
		fmt.Println(viols(r.Viols), hex(r.Hash))
	case "selftest":
		// A run, its recorded schedule, and both in another process give the same execution.
		n := 0
		for i := uint64(0); i < 3000; i++ {
			p := generate(seedOf(*base, i))
			r := execute(p, false)
			q := withSchedule(p, r.Dev)
			l := []*Result{execute(q, false)}
			if i%20 == 0 {
				l = append(l, isolated(p, true), isolated(q, true))
			}
			for k, x := range l {
				if x.Hash != r.Hash || fmt.Sprint(viols(x.Viols)) != fmt.Sprint(viols(r.Viols)) {
					fmt.Println("seed", p.Seed, "differs", k, viols(r.Viols), viols(x.Viols))
					n++
				}
			}
		}
		fmt.Println(n, "differences")
	case "replay":
		b, err := os.ReadFile(flag.Arg(0))
		var f Replay
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r := isolated(f.Plan, true)
		for _, l := range r.History {
			fmt.Println("  " + l)
		}
		for _, v := range viols(r.Viols) {
			fmt.Println(v)
		}
		if len(r.Viols) > 0 && viols(r.Viols)[0] == f.Violation && hex(r.Hash) == f.Hash {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, flag.Arg(0))
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	case "check":
		os.Exit(check(*base, *secs, *tier, *root))
	}
}

func check(base uint64, secs float64, tier, root string) int {
	t0 := time.Now()
	const workers = 8
	type res struct {
		s    *Summary
		dead uint64
		note string
	}
	ch := make(chan res)
	dir, err := os.MkdirTemp("", "gosim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	for i := 0; i < workers; i++ {
		go func(i int) {
			st := filepath.Join(dir, strconv.Itoa(i))
			cmd := exec.Command(os.Args[0], "-mode", "work", "-base", fmt.Sprint(base), "-index", fmt.Sprint(i), "-step", fmt.Sprint(workers),
				"-secs", fmt.Sprint(secs), "-status", st)
			out, err := output(cmd, int(secs)+30)
			var s Summary
			if err == nil && json.Unmarshal(out, &s) == nil {
				ch <- res{s: &s}
				return
			}
			b, _ := os.ReadFile(st)
			n, _ := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64)
			ch <- res{dead: n, note: fmt.Sprint(err)}
		}(i)
	}
	var t Summary
	t.Faults, t.Profiles = map[string]int{}, map[string]int{}
	shapes := map[uint64]bool{}
	var bad []Bad
	code, nviol := 0, 0
	for i := 0; i < workers; i++ {
		r := <-ch
		if r.s == nil {
			bad = append(bad, Bad{Seed: r.dead, Same: true})
			continue
		}
		s := r.s
		t.Runs += s.Runs
		t.Ops += s.Ops
		t.Away += s.Away
		t.Overlaps += s.Overlaps
		t.Calls += s.Calls
		t.Steps += s.Steps
		t.Choices += s.Choices
		t.Switches += s.Switches
		t.Repeated += s.Repeated
		for k, v := range s.Faults {
			t.Faults[k] += v
		}
		for k, v := range s.Profiles {
			t.Profiles[k] += v
		}
		for _, h := range s.Shapes {
			shapes[h] = true
		}
		bad = append(bad, s.Bad...)
	}
	search := time.Since(t0).Seconds()
	for _, b := range bad {
		if code == 1 {
			break
		}
		if !b.Same {
			fmt.Printf("seed %d is not repeated exactly\n", b.Seed)
			code = 3
			continue
		}
		if report(b.Seed, root) {
			code = 1
			nviol++
		} else {
			code = 3
		}
	}
	if code == 0 && t.Runs < 100 {
		fmt.Fprintf(os.Stderr, "only %d runs\n", t.Runs)
		code = 3
	}
	var samples []any
	for i := uint64(0); i < 3 && code == 0; i++ {
		seed := seedOf(base, i)
		p := generate(seed)
		r := execute(p, true)
		samples = append(samples, map[string]any{"seed": seed, "profile": p.Profile, "steps": r.Steps, "hash": hex(r.Hash), "history": r.History})
	}
	perHour := int(float64(t.Runs) * 3600 / search)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": len(shapes),
			"rule": "A run is one simulated execution of a generated plan (Go handles, goroutines, their operations and closes, error codes and stalls of the C library) under one seed. " +
				"Counted as distinct by the hash of its whole schedule and all calls and results, non-trivial if operations of different goroutines overlapped or a fault was injected.",
			"samples":                            samples,
			"seeds_per_hour":                     perHour,
			"simulated_time":                     "the Go binding reads no clock; progress is counted in scheduling steps",
			"operations":                         t.Ops,
			"operations_turned_away":             t.Away,
			"overlapping_operation_pairs":        t.Overlaps,
			"library_calls":                      t.Calls,
			"scheduling_steps":                   t.Steps,
			"scheduling_choice_points":           t.Choices,
			"context_switches":                   t.Switches,
			"faults":                             t.Faults,
			"profiles":                           t.Profiles,
			"runs_repeated_to_check_determinism": t.Repeated,
			"real_components":                    []string{"the Go binding (go/*.go, go/cpossum, go/resource), Go runtime, cgo"},
			"stub_components": []string{"the possum C library (an in-memory store that checks what it is given)", "sync, sync/atomic and goroutine scheduling",
				"github.com/anacrolix/chansync, generics and missinggo/v2/resource, which are not available here"},
		},
		"assumptions": []string{"goroutines interleave at statements, synchronisation operations and library calls, under sequential consistency", "finalizers do not run"},
		"wall_s":      time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s %s: %d runs, %d operations, %d distinct interleavings, %d turned away, %v, %.0f s, exit %d\n", prop, tier, t.Runs, t.Ops, len(shapes), t.Away, t.Faults,
		time.Since(t0).Seconds(), code)
	return code
}

func report(seed uint64, root string) bool {
	p := generate(seed)
	r := isolated(p, false)
	if len(r.Viols) == 0 {
		fmt.Printf("seed %d: not repeated\n", seed)
		return false
	}
	class := r.Viols[0].Class
	if class == "harness" || class == "hang" {
		fmt.Printf("seed %d: %v\n", seed, r.Viols)
		return false
	}
	q, tried := p, 0
	if class == "crash" {
		q, tried = minimise(p, class, func(p *Plan) *Result { return isolated(p, false) }, time.Now().Add(20*time.Second))
	} else {
		q, tried = minimise(withSchedule(p, r.Dev), class, func(p *Plan) *Result { return execute(p, false) }, time.Now().Add(20*time.Second))
	}
	r = isolated(q, true)
	again := isolated(q, true)
	if len(r.Viols) == 0 || fmt.Sprint(viols(r.Viols)) != fmt.Sprint(viols(again.Viols)) || r.Hash != again.Hash {
		fmt.Printf("seed %d: the minimised run is not repeated exactly\n", seed)
		return false
	}
	v := viols(r.Viols)
	f := Replay{Property: prop, Engine: "gosim", Seed: seed, Violation: v[0], All: v, Hash: hex(r.Hash), Plan: q, History: r.History, Trace: r.Trace}
	b, _ := json.MarshalIndent(f, "", "  ")
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	path := filepath.Join(root, "replays", fmt.Sprintf("%s-%d.json", prop, seed))
	if os.WriteFile(path, b, 0o644) != nil {
		return false
	}
	fmt.Printf("seed %d, %d runs to minimise: %d operations, %d scheduling decisions, %d faults\n", seed, tried, q.nOps(), len(q.Schedule), q.nFaults())
	for _, l := range v {
		fmt.Println(l)
	}
	for _, l := range r.History {
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return true
}
