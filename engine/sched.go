package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the interpreted program are host goroutines that hand a baton around:
// exactly one runs at a time and switches happen only where the program blocks, sleeps or yields.
type gor struct {
	id     int
	resume chan struct{}
	ready  func() bool
	asleep bool
	done   bool
}

type killed struct{}

type sched struct {
	w      *Worker
	gs     []*gor
	cur    *gor
	rr     int
	dead   bool
	locks  map[*Value]*lockState
	failed any // panic of another goroutine, raised in the main one
}

// main runs f as goroutine 0 on the calling host goroutine.
func (s *sched) main(f func()) {
	g := &gor{id: 0, resume: make(chan struct{}, 1)}
	s.gs = []*gor{g}
	s.cur = g
	f()
}

func (s *sched) killAll() {
	s.dead = true
	for _, g := range s.gs[min(1, len(s.gs)):] {
		if !g.done {
			g.done = true
			close(g.resume)
			<-s.killAck(g)
		}
	}
}

func (s *sched) killAck(g *gor) chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}

func (s *sched) spawn(f func()) {
	g := &gor{id: len(s.gs), resume: make(chan struct{}, 1)}
	s.gs = append(s.gs, g)
	go func() {
		<-g.resume
		if s.dead {
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(killed); ok || s.dead {
				return
			}
			g.done = true
			if r != nil {
				s.failed = r
				m := s.gs[0]
				m.ready = nil
				m.asleep = false
				s.cur = m
				m.resume <- struct{}{}
				return
			}
			s.switchAway(nil)
		}()
		f()
	}()
}

// pick chooses the next runnable goroutine, round robin after the current one.
func (s *sched) pick() *gor {
	n := len(s.gs)
	for pass := 0; pass < 2; pass++ {
		for i := 1; i <= n; i++ {
			g := s.gs[(s.rr+i)%n]
			if g.done {
				continue
			}
			if pass == 0 && g.asleep {
				continue
			}
			if g.ready == nil || g.ready() {
				s.rr = g.id
				return g
			}
		}
	}
	return nil
}

// switchAway gives the baton to another goroutine; me == nil when the current one has ended.
func (s *sched) switchAway(me *gor) {
	g := s.pick()
	if g == nil {
		// deadlock
		if me != nil && me.id == 0 {
			panic(pathEnd{"deadlock", "all goroutines are blocked"})
		}
		s.failed = pathEnd{"deadlock", "all goroutines are blocked"}
		g = s.gs[0]
		g.ready = nil
	}
	g.asleep = false
	if g == me {
		me.ready = nil
		return
	}
	s.cur = g
	g.resume <- struct{}{}
	if me == nil {
		return
	}
	<-me.resume
	if s.dead {
		panic(killed{})
	}
	me.ready = nil
	me.asleep = false
	if me.id == 0 && s.failed != nil {
		f := s.failed
		s.failed = nil
		panic(f)
	}
}

// block waits until ready holds.
func (s *sched) block(ready func() bool) {
	if ready() {
		return
	}
	me := s.cur
	me.ready = ready
	s.switchAway(me)
}

func (s *sched) yield(sleep bool) {
	me := s.cur
	me.ready = nil
	me.asleep = sleep
	s.switchAway(me)
}

func (w *Worker) spawn(fn Value, args []Value, c *ssa.CallCommon) {
	w.sched.spawn(func() {
		if b, ok := fn.(*ssa.Builtin); ok {
			w.builtin(&frame{}, b, args, c)
			return
		}
		w.call(nil, fn, args)
	})
}

// ---- channels ----

func (w *Worker) chanSend(c *Chan, v Value) {
	if c == nil {
		w.sched.block(func() bool { return false })
	}
	if c.closed {
		panic(w.rtPanic("send on closed channel"))
	}
	v = copyVal(v)
	if c.cap > 0 {
		w.sched.block(func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			panic(w.rtPanic("send on closed channel"))
		}
		c.buf = append(c.buf, v)
		return
	}
	// unbuffered: wait for the slot, then for a receiver to take it
	w.sched.block(func() bool { return c.closed || len(c.slot) == 0 })
	if c.closed {
		panic(w.rtPanic("send on closed channel"))
	}
	c.slot = append(c.slot, v)
	my := c.sent
	c.sent++
	w.sched.block(func() bool { return c.taken > my })
}

func (w *Worker) chanReady(c *Chan) bool {
	return c != nil && (len(c.buf) > 0 || len(c.slot) > 0 || c.closed)
}

func (w *Worker) chanRecv(c *Chan, et types.Type) (Value, bool) {
	if c == nil {
		w.sched.block(func() bool { return false })
	}
	c.rwait++
	w.sched.block(func() bool { return w.chanReady(c) })
	c.rwait--
	return w.chanTake(c, et)
}

func (w *Worker) chanTake(c *Chan, et types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if len(c.slot) > 0 {
		v := c.slot[0]
		c.slot = nil
		c.taken++
		return v, true
	}
	return zero(et), false
}

func (w *Worker) selectStmt(f *frame, in *ssa.Select, ci *cinstr) Value {
	type st struct {
		c    *Chan
		v    Value
		send bool
		et   types.Type
	}
	var sts []st
	k := 0
	for _, s := range in.States {
		c, _ := w.get(f, &ci.ops[k]).(*Chan)
		k++
		x := st{c: c, send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			x.v = w.get(f, &ci.ops[k])
		}
		k++ // Operands() reports Chan and Send for every state
		sts = append(sts, x)
	}
	find := func() int {
		for i, x := range sts {
			if x.c == nil {
				continue
			}
			if x.send {
				if x.c.closed || (x.c.cap > 0 && len(x.c.buf) < x.c.cap) || (x.c.cap == 0 && x.c.rwait > 0 && len(x.c.slot) == 0) {
					return i
				}
			} else if w.chanReady(x.c) {
				return i
			}
		}
		return -1
	}
	i := find()
	if i < 0 && in.Blocking {
		for _, x := range sts {
			if x.c != nil && !x.send {
				x.c.rwait++
			}
		}
		w.sched.block(func() bool { return find() >= 0 })
		for _, x := range sts {
			if x.c != nil && !x.send {
				x.c.rwait--
			}
		}
		i = find()
	}
	res := Tuple{Conc(uint64(int64(i))), Conc(0)}
	for j, x := range sts {
		if x.send {
			if j == i {
				w.chanSend(x.c, x.v)
			}
			continue
		}
		if j == i {
			v, ok := w.chanTake(x.c, x.et)
			res[1] = Conc(b2u(ok))
			res = append(res, v)
		} else {
			res = append(res, zero(x.et))
		}
	}
	return res
}
