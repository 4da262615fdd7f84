package main

import (
	"fmt"
	"sort"
	"strconv"

	"github.com/anacrolix/chansync"
	possum "github.com/anacrolix/possum/go"
	"possumsim/cstub"
	"possumsim/sched"
	"possumsim/simsync"
)

// Plan is one simulated execution, but for the schedule.
type Plan struct {
	Seed     uint64         `json:"seed"`
	Profile  string         `json:"profile"`
	Den      int            `json:"switch_one_in"` // 0: priorities
	Depth    int            `json:"priority_changes"`
	Handles  []string       `json:"handles"` // the directory of each
	Prep     []*Op          `json:"prep"`
	Clients  [][]*Op        `json:"clients"`
	Schedule map[string]int `json:"schedule"` // choice -> goroutine, where not the default
}

func (p *Plan) nOps() (n int) {
	for _, c := range p.Clients {
		n += len(c)
	}
	return n + len(p.Prep)
}

func (p *Plan) nFaults() (n int) {
	for _, c := range append(append([][]*Op{}, p.Clients...), p.Prep) {
		for _, o := range c {
			n += len(o.Fail) + len(o.Stall)
		}
	}
	return
}

type run struct {
	all      []*handle
	vals     int
	away     int
	ops      int
	overlaps int
	active   int
	history  []string
}

type Result struct {
	Viols    []sched.Violation
	Hash     uint64
	Steps    int
	Choices  int
	Switches int
	Ops      int
	Away     int
	Overlaps int
	Calls    int
	Faults   map[string]int
	Dev      map[int]int
	History  []string
	Trace    []string
}

func (r *Result) class() string {
	if len(r.Viols) == 0 {
		return ""
	}
	return r.Viols[0].Class
}

func intmap(m map[string]int) map[int]int {
	r := map[int]int{}
	for k, v := range m {
		n, _ := strconv.Atoi(k)
		r[n] = v
	}
	return r
}

func execute(p *Plan, trace bool) *Result {
	var script map[int]int
	if p.Schedule != nil {
		script = intmap(p.Schedule)
	}
	s := sched.NewSim(p.Seed, p.Den, p.Depth, 60*p.nOps(), script)
	s.Tracing = trace
	r := &run{}
	cstub.W = cstub.NewWorld()
	chansync.Point = sched.Point
	do := func(name string, g *sched.G, h *handle, o *Op) {
		c := &ctx{op: o, name: name, run: r, h: h, script: cstub.Script{Fail: intmap(o.Fail), Stall: intmap(o.Stall)}}
		old := g.Op
		g.Op = c
		c.inv = s.Tick()
		r.ops++
		r.overlaps += r.active
		r.active++
		n := len(r.history)
		r.history = append(r.history, "")
		s.Log("%s %s", name, o)
		out := "panicked"
		defer func() {
			if e := recover(); e != nil {
				s.Panicked(e)
			}
			r.active--
			ret := s.Tick()
			s.Log("%s -> %s", name, out)
			r.history[n] = fmt.Sprintf("%s [%d..%d] %s -> %s", name, c.inv, ret, o, out)
			g.Op = old
		}()
		sched.Point()
		out = c.exec()
		sched.Point()
	}
	done := false
	s.Run(func() {
		for i, d := range p.Handles {
			hp, err := possum.Open(d)
			if err != nil {
				s.Fail("result", "Open: %v", err)
				return
			}
			if n := len(cstub.W.Handles); n != i+1 {
				s.Fail("result", "Open made %d handles", n-i)
				return
			}
			r.all = append(r.all, &handle{p: hp, c: cstub.W.Handles[i], opened: s.Tick()})
		}
		main := append([]*handle{}, r.all...)
		for _, o := range p.Prep {
			do("prep", s.Cur, main[o.H], o)
		}
		var wg simsync.WaitGroup
		for i, ops := range p.Clients {
			i, ops := i, ops
			wg.Add(1)
			sched.Go(func() {
				defer wg.Done()
				for _, o := range ops {
					do(fmt.Sprintf("c%d", i), s.Cur, main[o.H], o)
				}
			})
		}
		wg.Wait()
		// Faults have stopped: what was closed is gone, once everybody else has stopped too.
		sched.Stall(s.Limit)
		for i, h := range r.all {
			if len(h.closes) > 0 {
				r.gone(s, i, h)
			} else if h.c.Dropped > 0 {
				s.Fail("use-after-free", "handle %d was dropped, but nobody closed it", i)
			}
		}
		for i, h := range r.all {
			if len(h.closes) == 0 {
				do("end", s.Cur, h, &Op{Kind: "close", H: i})
				sched.Stall(s.Limit)
				r.gone(s, i, h)
			}
			do("end", s.Cur, h, &Op{Kind: "close", H: i})
			do("end", s.Cur, h, &Op{Kind: "put", H: i, Key: "late", N: 1})
			do("end", s.Cur, h, &Op{Kind: "stat", H: i, Key: "late"})
			do("end", s.Cur, h, &Op{Kind: "readat", H: i, Key: "late", N: 1})
		}
		done = true
	})
	if !done && len(s.Viols) == 0 {
		s.Fail("harness", "ended early")
	}
	cstub.W.Free()
	res := &Result{Viols: s.Viols, Hash: s.Hash, Steps: s.Steps, Choices: s.Choices, Switches: s.Switch, Ops: r.ops, Away: r.away,
		Overlaps: r.overlaps, Calls: cstub.W.Calls, Faults: cstub.W.Faults, Dev: s.Dev, History: r.history, Trace: s.Trace}
	return res
}

func (r *run) gone(s *sched.Sim, i int, h *handle) {
	if h.c.Dropped == 0 {
		s.Fail("leak", "handle %d was closed and all its uses are over, but it was not dropped (%d writers)", i, h.c.Writers)
	}
}

// --- plans

var keys = []string{"a", "a/b", "a/c", "b", "", "k\x00z", "\u00ff\u00ff", "long-key-long-key-long-key"}

func generate(seed uint64) *Plan {
	g := sched.NewRand(seed)
	p := &Plan{Seed: g.Next()}
	switch g.N(4) {
	case 0:
		p.Den = 2
	case 1:
		p.Den = 6
	case 2:
		p.Den = 25
	default:
		p.Depth = 1 + g.N(5)
	}
	p.Profile = []string{"mixed", "mixed", "closing", "errors", "writers"}[g.N(5)]
	for i := 0; i < 1+g.N(2); i++ {
		p.Handles = append(p.Handles, []string{"d0", "d0", "d1"}[g.N(3)])
	}
	kinds := map[string][]string{
		"mixed": {"put", "put", "readat", "readat", "stat", "list", "delete", "move", "delprefix", "limits", "cleanup", "reader", "reader",
			"writer", "rput", "rget", "rstat", "rdelete", "rnames", "open"},
		"closing": {"put", "readat", "stat", "list", "delete", "reader", "writer", "cleanup", "limits"},
		"errors": {"put", "readat", "list", "delete", "move", "delprefix", "limits", "cleanup", "reader", "reader",
			"writer", "writer", "rput", "rget", "rget", "rdelete", "rnames", "open"},
		"writers": {"writer", "writer", "rput", "rget", "reader", "put"},
	}[p.Profile]
	key := func() string { return keys[g.N(len(keys))] }
	size := func() int { return []int{0, 1, 2, 7, 100, 511, 4096, 9000}[g.N(8)] }
	op := func(kind string) *Op {
		o := &Op{Kind: kind, H: g.N(len(p.Handles)), Key: key()}
		switch kind {
		case "put", "rput", "writer", "limits":
			o.N = size()
		case "readat", "reader":
			o.N = size()
			o.Off = int64(size())
		case "move":
			o.To = key()
		case "open":
			o.Key = "d2"
		}
		if kind == "limits" {
			o.Off = int64(g.N(2))
		}
		if kind == "rput" && g.P(1, 5) {
			o.Off = 1
		}
		if kind == "reader" || kind == "writer" {
			for i := g.N(4); i > 0; i-- {
				o.Keys = append(o.Keys, key())
			}
		}
		if kind == "writer" && g.P(1, 3) {
			o.To = key()
		}
		rate := 12
		if p.Profile == "errors" {
			rate = 2
		}
		if kind != "close" && kind != "stat" && kind != "rstat" && g.P(1, rate) {
			o.Fail = map[string]int{strconv.Itoa(g.N(5)): []int{cstub.SqliteError, cstub.IoError, cstub.AnyhowError}[g.N(3)]}
		}
		if g.P(1, 6) {
			o.Stall = map[string]int{strconv.Itoa(g.N(4)): 1 + g.N(200)}
		}
		return o
	}
	for i := g.N(6); i > 0; i-- {
		o := op("put")
		o.Fail, o.Stall = nil, nil
		p.Prep = append(p.Prep, o)
	}
	for i := 2 + g.N(5); i > 0; i-- {
		var ops []*Op
		n := 1 + g.N(6)
		if p.Profile == "closing" {
			n = 1 + g.N(3)
		}
		for ; n > 0; n-- {
			ops = append(ops, op(kinds[g.N(len(kinds))]))
		}
		p.Clients = append(p.Clients, ops)
	}
	closers := g.N(4)
	if p.Profile == "closing" {
		closers = 1 + g.N(4)
	}
	for ; closers > 0; closers-- {
		i := g.N(len(p.Clients))
		at := g.N(len(p.Clients[i]) + 1)
		ops := append([]*Op{}, p.Clients[i][:at]...)
		ops = append(ops, op("close"))
		p.Clients[i] = append(ops, p.Clients[i][at:]...)
	}
	return p
}

func sortedKeys(m map[string]int) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}
