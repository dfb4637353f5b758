package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type PathSample struct {
	Values  map[string]string
	Obs     []string // label=value
	Covers  []string
	Outcome string
}

type HarnessStats struct {
	mu            sync.Mutex
	Paths         int
	Completed     int
	Infeasible    int
	Instr         int64
	Forks         int64
	AssertProved  int
	AssertTrivial int
	AssertLabels  map[string]int
	Covers        map[string]int
	Notes         map[string]map[string]int // kind -> msg -> count
	Funcs         map[*ssa.Function]bool
	ForkSites     map[string]int
	Queries       SolverStats
	Exhausted     bool
	Bounds        map[string]int64
	Left          int
	Wall          time.Duration
	Samples       []PathSample
	Cexs          []*Cex
}

func NewStats() *HarnessStats {
	return &HarnessStats{AssertLabels: map[string]int{}, Covers: map[string]int{}, Notes: map[string]map[string]int{}, Funcs: map[*ssa.Function]bool{}, ForkSites: map[string]int{}}
}
func (s *HarnessStats) note(k, m string) {
	if s.Notes[k] == nil {
		s.Notes[k] = map[string]int{}
	}
	s.Notes[k][m]++
}
func (s *HarnessStats) bound(n string, v int64) {
	if s.Bounds == nil {
		s.Bounds = map[string]int64{}
	}
	s.Bounds[n] = v
}
func (s *HarnessStats) assertSeen(l string)    { s.AssertLabels[l]++ }
func (s *HarnessStats) cover(l string)         { s.Covers[l]++ }
func (s *HarnessStats) fnSeen(f *ssa.Function) { s.Funcs[f] = true }
func (s *HarnessStats) forkAt(f string)        { s.ForkSites[f]++; s.Forks++ }

func (s *HarnessStats) merge(o *HarnessStats) {
	s.Paths += o.Paths
	s.Completed += o.Completed
	s.Infeasible += o.Infeasible
	s.Instr += o.Instr
	s.Forks += o.Forks
	s.AssertProved += o.AssertProved
	s.AssertTrivial += o.AssertTrivial
	for k, v := range o.AssertLabels {
		s.AssertLabels[k] += v
	}
	for k, v := range o.Covers {
		s.Covers[k] += v
	}
	for k, m := range o.Notes {
		for x, n := range m {
			if s.Notes[k] == nil {
				s.Notes[k] = map[string]int{}
			}
			s.Notes[k][x] += n
		}
	}
	for k, v := range o.Bounds {
		s.bound(k, v)
	}
	for f := range o.Funcs {
		s.Funcs[f] = true
	}
	for k, v := range o.ForkSites {
		s.ForkSites[k] += v
	}
	s.Queries.add(o.Queries)
	s.Samples = append(s.Samples, o.Samples...)
	s.Cexs = append(s.Cexs, o.Cexs...)
}

func (a *SolverStats) add(b SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.Fallback += b.Fallback
	a.Time += b.Time
}

type queue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	items  []prefix
	active int
	stop   bool
	total  int
}

func (q *queue) get() (prefix, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if q.stop {
			return prefix{}, false
		}
		if n := len(q.items); n > 0 {
			p := q.items[n-1]
			q.items = q.items[:n-1]
			q.active++
			return p, true
		}
		if q.active == 0 {
			q.cond.Broadcast()
			return prefix{}, false
		}
		q.cond.Wait()
	}
}
func (q *queue) done(alts []prefix) {
	q.mu.Lock()
	q.items = append(q.items, alts...)
	q.active--
	q.cond.Broadcast()
	q.mu.Unlock()
}

type RunOpts struct {
	Workers  int
	Deadline time.Time
	Samples  int
	Seed     int64
	SolverMS int
	FbSecs   int
	MaxCex   int
	Tier     string
}

// Explore runs one harness over all paths.
func (w *World) Explore(h *HarnessFn, o RunOpts) *HarnessStats {
	t0 := time.Now()
	q := &queue{items: []prefix{{}}}
	q.cond = sync.NewCond(&q.mu)
	total := NewStats()
	var wg sync.WaitGroup
	timer := time.AfterFunc(time.Until(o.Deadline), func() {
		q.mu.Lock()
		q.stop = true
		q.cond.Broadcast()
		q.mu.Unlock()
	})
	defer timer.Stop()
	var cexMu sync.Mutex
	seenCex := map[string]int{}
	for k := 0; k < o.Workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			ip := NewInterp(w)
			ip.sol = NewSolver(ip.c, o.SolverMS, o.FbSecs)
			defer func() { ip.sol.Close() }()
			inited := false
			st := NewStats()
			rnd := rand.New(rand.NewSource(o.Seed + int64(k)))
			for {
				p, ok := q.get()
				if !ok {
					break
				}
				if !inited {
					ip.RunInits()
					inited = true
				}
				ip.st = st
				out := ip.runPath(h, p)
				st.Paths++
				st.Instr += int64(ip.nInstr)
				alts := ip.alts
				switch out.kind {
				case "ok", "done":
					st.Completed++
				case "assume":
					st.Infeasible++
				default:
					st.note(out.kind, out.reason)
				}
				for _, c := range ip.cexs {
					key := c.Label + "|" + c.Known
					cexMu.Lock()
					seenCex[key]++
					n := seenCex[key]
					cexMu.Unlock()
					if n <= o.MaxCex {
						st.Cexs = append(st.Cexs, c)
					}
					if c.Kind == "endless" && n >= 40 {
						q.mu.Lock()
						q.stop = true
						q.cond.Broadcast()
						q.mu.Unlock()
					}
				}
				if out.kind == "ok" {
					// reservoir sampling of witnesses
					i := st.Completed - 1
					slot := -1
					if len(st.Samples) < o.Samples {
						st.Samples = append(st.Samples, PathSample{})
						slot = len(st.Samples) - 1
					} else if r := rnd.Intn(i + 1); r < o.Samples {
						slot = r
					}
					if slot >= 0 {
						if s, ok := ip.sample(); ok {
							st.Samples[slot] = s
						}
					}
				}
				ip.endPath()
				q.done(alts)
			}
			st.Queries = ip.sol.Stats
			total.mu.Lock()
			total.merge(st)
			total.mu.Unlock()
		}(k)
	}
	wg.Wait()
	total.Left = len(q.items)
	total.Exhausted = !q.stop && total.Left == 0
	total.Wall = time.Since(t0)
	return total
}

type outcome struct{ kind, reason string }

func (ip *Interp) runPath(h *HarnessFn, p prefix) (out outcome) {
	ip.resetPath()
	ip.pre = p.d
	if p.m != nil {
		ip.model = p.m
	}
	ip.sol.Reset()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathEnd:
			out = outcome{x.kind, x.reason}
			if x.kind == "bound" && strings.HasPrefix(x.reason, "instructions per path") {
				// beyond the claim, unless the real code does not end either
				ip.stack = nil
				ip.panicCex("it does not come to an end", "endless")
			}
			if x.kind == "deadlock" {
				ip.panicCex("deadlock: "+x.reason, "deadlock")
				out = outcome{"done", x.reason}
			}
		case goPanic:
			msg := x.rt
			if msg == "" {
				msg = "panic: " + ip.show(x.v, Model{})
			}
			ip.stack = nil
			ip.panicCex("panic: "+msg+" at "+x.tr, "panic")
			out = outcome{"done", "panic"}
		default:
			out = outcome{"internal", fmt.Sprint(r)}
		}
	}()
	ip.callFn(h.Fn, nil, nil, nil)
	return outcome{"ok", ""}
}

func (ip *Interp) panicCex(label, kind string) {
	if ip.noPanicCex {
		return
	}
	sat, ok := ip.needModel()
	if sat && ok {
		ip.addCex(label, kind, ip.model, nil)
	}
}

func (ip *Interp) sample() (PathSample, bool) {
	sat, ok := ip.needModel()
	if !sat || !ok {
		return PathSample{}, false
	}
	s := PathSample{Values: ip.ndValues(ip.model), Outcome: "ok"}
	for _, o := range ip.obs {
		s.Obs = append(s.Obs, o.label+"="+ip.show(o.v, ip.model))
	}
	for c := range ip.covers {
		s.Covers = append(s.Covers, c)
	}
	sort.Strings(s.Covers)
	return s, true
}

func (ip *Interp) endPath() {
	ip.killTasks()
	for i := len(ip.journal) - 1; i >= 0; i-- {
		ip.journal[i]()
	}
	ip.journal = nil
	if ip.c.next > 3000000 {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "large term table", ip.c.next)
		}
	}
}
