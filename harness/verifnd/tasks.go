package verifnd

// Native counterpart of the engine's cooperative tasks: one task runs at a
// time, hand-overs happen at the same points as in the engine.

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// free: goroutines run freely (harnesses whose outcome does not depend on the
// schedule and whose code uses channels).
var (
	free    bool
	pending int64
	freePan atomic.Value
)

// FreeGo lets goroutines run freely during native replay; the engine ignores it.
func FreeGo() { free = true }

type task struct {
	id     int
	f      func()
	start  bool
	done   bool
	ready  func() bool
	resume chan bool
}

var (
	tasks   []*task
	cur     *task
	sched   bool
	delays  bool
	preempt int
	swSeen  int
	taskPan interface{}
)

type taskAbort struct{}

func resetTasks() {
	tasks, cur, sched, preempt, swSeen, taskPan, naps = nil, nil, false, 0, 0, nil, false
	delays = false
	free, freePan = false, atomic.Value{}
	atomic.StoreInt64(&pending, 0)
}

func mainTask() {
	if cur == nil {
		t := &task{id: 0, start: true, resume: make(chan bool)}
		tasks = []*task{t}
		cur = t
	}
}

func (t *task) runnable() bool { return !t.done && (t.ready == nil || t.ready()) }

// Go starts a task (replaces go statements).
func Go(f func()) {
	if vals == nil {
		go f()
		return
	}
	if free {
		atomic.AddInt64(&pending, 1)
		go func() {
			defer atomic.AddInt64(&pending, -1)
			defer func() {
				if r := recover(); r != nil {
					freePan.Store(fmt.Sprint(r))
				}
			}()
			f()
		}()
		return
	}
	mainTask()
	tasks = append(tasks, &task{id: len(tasks), f: f, resume: make(chan bool)})
}

func switchTo(t *task) {
	me := cur
	if t == me {
		return
	}
	cur = t
	wake(t)
	if <-me.resume {
		panic(taskAbort{})
	}
	if me.id == 0 && taskPan != nil {
		panic(taskPan)
	}
}

func wake(t *task) {
	if t.start {
		t.resume <- false
		return
	}
	t.start = true
	go func() {
		defer func() {
			r := recover()
			t.done = true
			if _, ok := r.(taskAbort); ok {
				tasks[0].resume <- false
				return
			}
			if r != nil {
				taskPan = r
				cur = tasks[0]
				tasks[0].resume <- false
				return
			}
			n := pickNext(nil)
			if n == nil {
				taskPan = "deadlock: all goroutines are blocked"
				n = tasks[0]
			}
			cur = n
			if n.start {
				n.resume <- false
			} else {
				wake(n)
			}
		}()
		t.f()
	}()
}

func pickNext(me *task) *task {
	var rs []*task
	for _, t := range tasks {
		if t != me && t.runnable() {
			rs = append(rs, t)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	if sched && len(rs) > 1 {
		if delays && swSeen >= preempt {
			return rs[0]
		}
		k := Choice("sched", len(rs))
		if delays && k > 0 {
			swSeen++
		}
		return rs[k]
	}
	return rs[0]
}

func block(ready func() bool) {
	mainTask()
	for !ready() {
		me := cur
		me.ready = ready
		n := pickNext(me)
		if n == nil {
			panic("deadlock: blocked")
		}
		switchTo(n)
		me.ready = nil
	}
}

// Yield is a possible preemption point.
func Yield() {
	if !sched || cur == nil {
		return
	}
	var rs []*task
	for _, t := range tasks {
		if t != cur && t.runnable() {
			rs = append(rs, t)
		}
	}
	if len(rs) == 0 || swSeen >= preempt {
		return
	}
	k := Choice("preempt", len(rs)+1)
	if k == 0 {
		return
	}
	swSeen++
	switchTo(rs[k-1])
}

// Schedule turns on exploration of schedules with at most n preemptions.
func Schedule(n int) {
	mainTask()
	sched, delays, preempt = n >= 0, false, n
}

// Delays turns on exploration of the schedules that deviate at most n times
// from running the oldest task until it blocks.
func Delays(n int) {
	mainTask()
	sched, delays, preempt = true, true, n
}

// RunTasks runs every started task until it finishes or blocks.
func RunTasks() {
	if vals == nil {
		return
	}
	if free {
		for k := 0; k < 5000 && atomic.LoadInt64(&pending) > 0; k++ {
			time.Sleep(time.Millisecond)
		}
		if p := freePan.Load(); p != nil {
			panic(p)
		}
		return
	}
	mainTask()
	me := cur
	for {
		n := pickNext(me)
		if n == nil {
			return
		}
		me.ready = func() bool {
			for _, t := range tasks {
				if t != me && t.runnable() {
					return false
				}
			}
			return true
		}
		switchTo(n)
		me.ready = nil
	}
}

// DropTasks forgets tasks that have not started.
func DropTasks() {
	for _, t := range tasks {
		if t.id != 0 && !t.start {
			t.done = true
		}
	}
}

// Mutex, RWMutex and WaitGroup replace those of package sync during replay.
type Mutex struct {
	w bool
	r sync.Mutex
}

func isFree() bool { return free || vals == nil }

func (m *Mutex) Lock() {
	if isFree() {
		m.r.Lock()
		return
	}
	Yield()
	if m.w {
		block(func() bool { return !m.w })
	}
	m.w = true
}
func (m *Mutex) Unlock() {
	if isFree() {
		m.r.Unlock()
		return
	}
	if !m.w {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.w = false
}

type RWMutex struct {
	w bool
	n int
	r sync.RWMutex
}

func (m *RWMutex) Lock() {
	if isFree() {
		m.r.Lock()
		return
	}
	Yield()
	if m.w || m.n > 0 {
		block(func() bool { return !m.w && m.n == 0 })
	}
	m.w = true
}
func (m *RWMutex) Unlock() {
	if isFree() {
		m.r.Unlock()
		return
	}
	if !m.w {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	if isFree() {
		m.r.RLock()
		return
	}
	Yield()
	if m.w {
		block(func() bool { return !m.w })
	}
	m.n++
}
func (m *RWMutex) RUnlock() {
	if isFree() {
		m.r.RUnlock()
		return
	}
	if m.n == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.n--
}

type WaitGroup struct {
	n int
	r sync.WaitGroup
}

func (w *WaitGroup) Add(k int) {
	if isFree() {
		w.r.Add(k)
		return
	}
	w.n += k
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if isFree() {
		w.r.Wait()
		return
	}
	block(func() bool { return w.n == 0 })
}

// Gosched yields the processor.
func Gosched() { runtime.Gosched() }
