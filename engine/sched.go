package main

// Cooperative tasks (goroutines of the program under analysis), channels,
// select and locks.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Task struct {
	id     int
	f      *FuncV
	args   []Value
	start  bool
	done   bool
	ready  func() bool // nil = runnable
	late   bool        // runs only when nothing else can: a timer
	resume chan bool   // true = abort
	depth  int
	stack  []*ssa.Function
}

func (ip *Interp) mainTask() {
	if ip.cur == nil {
		t := &Task{id: 0, start: true, resume: make(chan bool)}
		ip.tasks = []*Task{t}
		ip.cur = t
	}
}

func (ip *Interp) spawn(f *FuncV, args []Value) {
	ip.mainTask()
	t := &Task{id: len(ip.tasks), f: f, args: args, resume: make(chan bool)}
	ip.tasks = append(ip.tasks, t)
}

func (t *Task) runnable() bool {
	return !t.done && (t.ready == nil || t.ready())
}

type taskAbort struct{}

// switchTo hands the baton to t and waits until it comes back.
func (ip *Interp) switchTo(t *Task) {
	me := ip.cur
	if t == me {
		return
	}
	me.depth, me.stack = ip.depth, ip.stack
	ip.cur = t
	ip.wake(t)
	if <-me.resume {
		panic(taskAbort{})
	}
	ip.depth, ip.stack = me.depth, me.stack
	if me.id == 0 && ip.abort != nil {
		panic(*ip.abort)
	}
	if me.id == 0 && ip.abortP != nil {
		panic(*ip.abortP)
	}
}

func (ip *Interp) wake(t *Task) {
	if t.start {
		t.resume <- false
		return
	}
	t.start = true
	go func() {
		defer func() {
			r := recover()
			t.done = true
			switch x := r.(type) {
			case nil:
			case taskAbort:
				ip.tasks[0].resume <- false // abort acknowledged
				return
			case pathEnd:
				ip.abort = &x
			case goPanic:
				ip.abortP = &x
			default:
				p := pathEnd{"internal", "task crashed"}
				ip.abort = &p
			}
			// hand over
			if ip.abort != nil || ip.abortP != nil {
				ip.cur = ip.tasks[0]
				ip.tasks[0].resume <- false
				return
			}
			n := ip.pickNext(nil)
			if n == nil { // deadlock of everything: main must report
				ip.cur = ip.tasks[0]
				p := pathEnd{"deadlock", "all goroutines are blocked"}
				ip.abort = &p
				ip.tasks[0].resume <- false
				return
			}
			ip.cur = n
			if n.start {
				n.resume <- false
			} else {
				ip.wake(n)
			}
		}()
		ip.depth, ip.stack = 1, nil
		ip.callValue(t.f, t.args, &frame{ip: ip})
	}()
}

// pickNext chooses a runnable task other than me (deterministic unless
// schedule exploration is on).
func (ip *Interp) pickNext(me *Task) (res *Task) {
	defer func() {
		// a solver-driven choice may end the path; turn that into an abort
		if r := recover(); r != nil {
			if me != nil {
				panic(r)
			}
			if p, ok := r.(pathEnd); ok {
				ip.abort = &p
				res = ip.tasks[0]
				return
			}
			panic(r)
		}
	}()
	var rs, late []*Task
	for _, t := range ip.tasks {
		if t != me && t.runnable() {
			if t.late {
				late = append(late, t)
			} else {
				rs = append(rs, t)
			}
		}
	}
	if len(rs) == 0 {
		rs = late
	}
	if len(rs) == 0 {
		return nil
	}
	if ip.sched && len(rs) > 1 {
		if ip.delays && ip.swSeen >= ip.preempt {
			return rs[0]
		}
		k := ip.choice("sched", len(rs))
		if ip.delays && k > 0 {
			ip.swSeen++
		}
		return rs[k]
	}
	return rs[0]
}

// block waits until ready() holds.
func (ip *Interp) block(ready func() bool) {
	ip.mainTask()
	for !ready() {
		me := ip.cur
		me.ready = ready
		n := ip.pickNext(me)
		if n == nil {
			panic(pathEnd{"deadlock", "blocked in " + ip.curFn()})
		}
		ip.switchTo(n)
		me.ready = nil
	}
}

// yield is a possible preemption point.
func (ip *Interp) yield() {
	if !ip.sched || ip.initing || ip.cur == nil {
		return
	}
	var rs []*Task
	for _, t := range ip.tasks {
		if t != ip.cur && !t.late && t.runnable() {
			rs = append(rs, t)
		}
	}
	if len(rs) == 0 || ip.swSeen >= ip.preempt {
		return
	}
	k := ip.choice("preempt", len(rs)+1)
	if k == 0 {
		return
	}
	ip.swSeen++
	ip.switchTo(rs[k-1])
}

// runTasks runs every spawned task until it finishes or blocks.
func (ip *Interp) runTasks() {
	ip.mainTask()
	me := ip.cur
	for {
		n := ip.pickNext(me)
		if n == nil {
			return
		}
		me.ready = func() bool {
			for _, t := range ip.tasks {
				if t != me && t.runnable() {
					return false
				}
			}
			return true
		}
		ip.switchTo(n)
		me.ready = nil
	}
}

// killTasks unwinds all parked tasks at the end of a path.
func (ip *Interp) killTasks() {
	for _, t := range ip.tasks {
		if t.id != 0 && t.start && !t.done {
			t.resume <- true
			<-ip.tasks[0].resume
		}
	}
}

// ---- channels

func (ip *Interp) chanSend(ch *ChanObj, v Value) {
	if ch == nil {
		panic(pathEnd{"deadlock", "send on nil channel"})
	}
	ip.mainTask()
	if ch.closed {
		panic(goPanic{rt: "send on closed channel", tr: ip.backtrace()})
	}
	if ch.cap == 0 {
		// rendezvous: wait for a free slot, then until taken
		ip.block(func() bool { return len(ch.buf) == 0 || ch.closed })
		if ch.closed {
			panic(goPanic{rt: "send on closed channel", tr: ip.backtrace()})
		}
		tok := new(int)
		ch.buf = append(ch.buf, TupleV{v, Opaque{"tok", tok}})
		ip.block(func() bool {
			return len(ch.buf) == 0 || ch.buf[0].(TupleV)[1].(Opaque).p != interface{}(tok)
		})
		return
	}
	ip.block(func() bool { return len(ch.buf) < ch.cap || ch.closed })
	if ch.closed {
		panic(goPanic{rt: "send on closed channel", tr: ip.backtrace()})
	}
	ch.buf = append(ch.buf, TupleV{v, nil})
}

func (ip *Interp) chanRecv(ch *ChanObj, et types.Type) (Value, bool) {
	if ch == nil {
		ip.block(func() bool { return false })
	}
	ch.recvq++
	ip.block(func() bool { return len(ch.buf) > 0 || ch.closed })
	ch.recvq--
	if len(ch.buf) > 0 {
		v := ch.buf[0].(TupleV)[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	return ip.zero(et), false
}

func (fr *frame) selectStmt(x *ssa.Select) Value {
	ip := fr.ip
	ip.mainTask()
	type st struct {
		ch  *ChanObj
		dir types.ChanDir
		v   Value
	}
	var ss []st
	for _, s := range x.States {
		e := st{dir: s.Dir}
		e.ch, _ = fr.get(s.Chan).(*ChanObj)
		if s.Dir == types.SendOnly {
			e.v = ip.copyVal(fr.get(s.Send))
		}
		ss = append(ss, e)
	}
	isReady := func(s st) bool {
		if s.ch == nil {
			return false
		}
		if s.dir == types.RecvOnly {
			return len(s.ch.buf) > 0 || s.ch.closed
		}
		if s.ch.cap == 0 {
			return s.ch.recvq > 0 && len(s.ch.buf) == 0
		}
		return len(s.ch.buf) < s.ch.cap
	}
	pick := -1
	if x.Blocking {
		for _, s := range ss {
			if s.ch != nil && s.dir == types.RecvOnly {
				s.ch.recvq++
			}
		}
		ip.block(func() bool {
			for _, s := range ss {
				if isReady(s) {
					return true
				}
			}
			return false
		})
		for _, s := range ss {
			if s.ch != nil && s.dir == types.RecvOnly {
				s.ch.recvq--
			}
		}
	}
	var rdy []int
	for i, s := range ss {
		if isReady(s) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		pick = rdy[0]
		if ip.sched && len(rdy) > 1 {
			pick = rdy[ip.choice("select", len(rdy))]
		}
	}
	res := TupleV{ip.c.Int(int64(pick)), ip.c.False}
	for i, s := range x.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == pick {
			v, ok := ip.chanRecv(ss[i].ch, et)
			res[1] = ip.c.Bool(ok)
			res = append(res, v)
		} else {
			res = append(res, ip.zero(et))
		}
	}
	if pick >= 0 && ss[pick].dir == types.SendOnly {
		ip.chanSend(ss[pick].ch, ss[pick].v)
	}
	return res
}

// ---- locks

type lockState struct {
	w bool
	r int
}

func (ip *Interp) lockOf(c *Cell) *lockState {
	if l, ok := ip.side[c].(*lockState); ok {
		return l
	}
	l := &lockState{}
	ip.side[c] = l
	return l
}
