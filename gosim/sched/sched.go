// Package sched decides which goroutine runs: one at a time, handed over only at scheduling points,
// by a seeded strategy or by a recorded list of deviations.
package sched

import (
	"fmt"
	"runtime/debug"
	"strings"
)

// Rand is SplitMix64.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) N(n int) int         { return int(r.Next() % uint64(n)) }
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

type G struct {
	ID      int
	ch      chan struct{}
	blocked bool
	done    bool
	wake    int // not before this step, unless nobody else can run
	prio    int
	On      string
	// What the harness keeps with the goroutine.
	Op any
}

type Violation struct{ Class, Detail string }

type Sim struct {
	gs    []*G
	Cur   *G
	rnd   *Rand
	end   chan struct{}
	Steps int
	Limit int
	over  bool
	live  int
	// Strategy
	Den     int // switch with probability 1/Den; 0: priorities
	change  map[int]bool
	Script  map[int]int // decision -> goroutine, when replaying
	replay  bool
	Choices int
	Dev     map[int]int
	Switch  int
	Hash    uint64
	Viols   []Violation
	Trace   []string
	Tracing bool
	Clock   int // of invocations, returns and calls
	stalls  int
}

// S is the run in progress.
var S *Sim

func NewSim(seed uint64, den, depth, expect int, script map[int]int) *Sim {
	s := &Sim{rnd: NewRand(seed), end: make(chan struct{}), Limit: 200000, Den: den, Script: script, replay: script != nil,
		Dev: map[int]int{}, change: map[int]bool{}, Hash: 14695981039346656037}
	for i := 0; i < depth; i++ {
		s.change[s.rnd.N(expect+1)] = true
	}
	return s
}

func (s *Sim) Mix(x uint64) { s.Hash = (s.Hash ^ x) * 1099511628211 }

func (s *Sim) MixS(x string) {
	for i := 0; i < len(x); i++ {
		s.Mix(uint64(x[i]))
	}
}

func (s *Sim) Tick() int { s.Clock++; return s.Clock }

func (s *Sim) Log(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	s.MixS(m)
	if s.Tracing {
		id := -1
		if s.Cur != nil {
			id = s.Cur.ID
		}
		s.Trace = append(s.Trace, fmt.Sprintf("%d g%d %s", s.Steps, id, m))
	}
}

func (s *Sim) Fail(class, f string, a ...any) {
	s.Viols = append(s.Viols, Violation{class, fmt.Sprintf(f, a...)})
	s.Log("VIOLATION %s", class)
}

type Fatal string

func (s *Sim) spawn(f func()) *G {
	g := &G{ID: len(s.gs), ch: make(chan struct{}, 1), prio: int(s.rnd.Next() >> 40)}
	s.gs = append(s.gs, g)
	s.live++
	go func() {
		<-g.ch
		defer func() {
			if p := recover(); p != nil {
				s.Panicked(p)
			}
			g.done = true
			s.live--
			s.leave(g)
		}()
		f()
	}()
	return g
}

func (s *Sim) Panicked(p any) {
	if s.over {
		return
	}
	class := "panic"
	if _, ok := p.(Fatal); ok {
		class = "abort"
	}
	at := ""
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if i := strings.Index(l, "/gosim/possum/"); i >= 0 {
			at = strings.Fields(l[i+len("/gosim/"):])[0]
			break
		}
	}
	s.Fail(class, "%v at %s", p, at)
}

// Go starts a goroutine of the program under test or of the harness.
func Go(f func()) {
	if S == nil || S.Cur == nil {
		panic("sched.Go outside of a run")
	}
	S.spawn(f)
	Point()
}

// SetFinalizer: the collector's timing is not under control, so finalizers do not run.
func SetFinalizer(any, any) {}

// Run runs main and all it starts; it returns when everything has ended or nothing can run.
func (s *Sim) Run(main func()) {
	S = s
	g := s.spawn(main)
	s.Cur = g
	g.ch <- struct{}{}
	<-s.end
	s.over = true
	S = nil
}

func (s *Sim) runnable() (r []*G) {
	for pass := 0; pass < 2; pass++ {
		for _, g := range s.gs {
			if !g.done && !g.blocked && (pass == 1 || g.wake <= s.Steps) {
				r = append(r, g)
			}
		}
		if len(r) > 0 {
			break
		}
	}
	return
}

// The one that runs next; nil if none can.
func (s *Sim) pick(cur *G) *G {
	s.Steps++
	r := s.runnable()
	if len(r) == 0 {
		return nil
	}
	def := r[0]
	for _, g := range r {
		if g == cur {
			def = g
		}
	}
	next := def
	if len(r) > 1 {
		i := s.Choices
		s.Choices++
		if s.replay {
			if id, ok := s.Script[i]; ok {
				for _, g := range r {
					if g.ID == id {
						next = g
					}
				}
			}
		} else if s.Den > 0 {
			if def != cur || s.rnd.P(1, s.Den) {
				next = r[s.rnd.N(len(r))]
			}
		} else {
			if s.change[i] {
				for _, g := range r {
					if cur == g {
						g.prio = -i
					}
				}
			}
			for _, g := range r {
				if next == nil || g.prio > next.prio {
					next = g
				}
			}
		}
		if next != def {
			s.Dev[i] = next.ID
		}
	}
	if next != cur {
		s.Switch++
	}
	s.Mix(uint64(next.ID) + 1)
	return next
}

func (s *Sim) stop() {
	if !s.over {
		s.over = true
		close(s.end)
	}
}

func (s *Sim) leave(g *G) {
	if s.over {
		return
	}
	if s.live == 0 {
		s.stop()
		return
	}
	n := s.pick(g)
	if n == nil {
		s.deadlock()
		return
	}
	s.Cur = n
	n.ch <- struct{}{}
}

func (s *Sim) deadlock() {
	w := []string{}
	for _, g := range s.gs {
		if !g.done {
			w = append(w, fmt.Sprintf("g%d waits for %s", g.ID, g.On))
		}
	}
	s.Fail("deadlock", "no goroutine can run: %s", strings.Join(w, ", "))
	s.stop()
}

func (s *Sim) hand(g, n *G) {
	if n == g {
		return
	}
	s.Cur = n
	n.ch <- struct{}{}
	<-g.ch
}

// Point is a scheduling point.
func Point() {
	s := S
	if s == nil || s.over {
		return
	}
	g := s.Cur
	if s.Steps >= s.Limit {
		s.Fail("livelock", "not done after %d steps", s.Steps)
		s.stop()
		select {}
	}
	n := s.pick(g)
	s.hand(g, n)
}

// Stall keeps the goroutine off for a number of steps, if others can run.
func Stall(n int) {
	if S == nil || S.over || n == 0 {
		return
	}
	S.Cur.wake = S.Steps + n
	Point()
}

// Block waits until Wake.
func Block(on string) {
	s := S
	g := s.Cur
	g.blocked, g.On = true, on
	n := s.pick(g)
	if n == nil {
		s.deadlock()
		select {}
	}
	s.hand(g, n)
	g.On = ""
}

func Wake(g *G) { g.blocked = false }
