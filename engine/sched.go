package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type timer struct {
	when   *Term // nanoseconds
	seq    int
	fire   func()
	active bool
}

func (w *Worker) newG() *Goroutine {
	g := &Goroutine{id: w.gseq}
	w.gseq++
	w.gs = append(w.gs, g)
	w.readyNext(g)
	return g
}

// readyNext makes g the next goroutine to run, as the Go scheduler does on one P.
func (w *Worker) readyNext(g *Goroutine) {
	if w.nextG != nil {
		w.runq = append(w.runq, w.nextG)
	}
	w.nextG = g
}

func (w *Worker) spawn(cl *Closure, args []Value) {
	if w.spec > 0 {
		panic(specAbort{"go"})
	}
	if w.initDepth > 0 {
		return // background goroutines of package initialisers are not modelled
	}
	if cl.nat != nil || cl.fn == nil {
		w.unsupported("go of native function")
	}
	fi := w.fnInfo(cl.fn)
	if fi.intr != nil {
		call := &Closure{nat: func(w *Worker, g *Goroutine, _ []Value) Value {
			if _, ctl := fi.intr(w, g, g.frames[len(g.frames)-1], args); ctl != iDone {
				w.unsupported("go of intrinsic %s", fi.name)
			}
			return nil
		}}
		g := w.newG()
		saved := w.cur
		w.pushFrame(g, w.fnInfo(w.E.lookupFn(vmodelPath, "goCall")), []Value{call}, nil, -1)
		w.cur = saved
		return
	}
	g := w.newG()
	saved := w.cur
	w.pushFrame(g, fi, args, cl.free, -1)
	w.cur = saved
}

func (w *Worker) block(g *Goroutine, why string) {
	if g.nested {
		w.unsupported("blocking operation (%s) in nested call", why)
	}
	if w.initDepth > 0 {
		w.unsupported("blocking operation (%s) in initialiser", why)
	}
	g.status = gBlocked
	g.why = why
}

func (w *Worker) wake(g *Goroutine) {
	if g.status == gBlocked {
		g.status = gRun
		g.waitOn = nil
		w.readyNext(g)
	}
}

// blockUntil blocks g until pred holds; the current instruction is then re-executed.
func (w *Worker) blockUntil(g *Goroutine, why string, pred func() bool) {
	w.block(g, why)
	g.waitOn = pred
}

// pick returns the next goroutine to run, nil if all are blocked.
func (w *Worker) pick() *Goroutine {
	for _, g := range w.gs {
		if g.status == gBlocked && g.waitOn != nil && g.waitOn() {
			g.status = gRun
			g.waitOn = nil
			w.runq = append(w.runq, g)
		}
	}
	if g := w.nextG; g != nil {
		w.nextG = nil
		return g
	}
	if len(w.runq) > 0 {
		g := w.runq[0]
		w.runq = w.runq[1:]
		return g
	}
	return nil
}

func (w *Worker) runAll() {
	for {
		if w.main.status == gDone {
			return
		}
		g := w.pick()
		if g == nil {
			if w.main.quiesce {
				w.main.quiesce = false
				w.wake(w.main)
				continue
			}
			if !w.fireTimer() {
				why := ""
				for _, b := range w.gs {
					if b.status == gBlocked {
						w.cur = b
						why += fmt.Sprintf("[g%d %s at %s] ", b.id, b.why, w.where())
					}
				}
				w.end("deadlock", "deadlock", "all goroutines are blocked: "+why)
			}
			continue
		}
		if g.status != gRun {
			panic(engineErr{"scheduled goroutine is not runnable"})
		}
		w.cur = g
		if g.wakePanic != nil {
			p := g.wakePanic
			g.wakePanic = nil
			w.goPanic(g, p)
			w.unwound = false
		}
		w.runG(g)
		if g.status == gDone {
			for i, x := range w.gs {
				if x == g {
					w.gs = append(w.gs[:i:i], w.gs[i+1:]...)
					break
				}
			}
		} else if g.status == gRun {
			w.runq = append(w.runq, g) // yielded
		}
	}
}

// fireTimer advances the time to the earliest timer. Which one that is may
// depend on unknown durations: then it is decided by the solver, one path for
// every feasible order. Timers that are due at the same instant fire in the
// order they were set; that two unknown instants coincide is left out.
func (w *Worker) fireTimer() bool {
	var best *timer
	live := w.timers[:0:0]
	for _, t := range w.timers {
		if !t.active {
			continue
		}
		live = append(live, t)
		if best == nil {
			best = t
			continue
		}
		lt := w.c.Slt(t.when, best.when)
		if lt.isConst() {
			if lt.isTrue() {
				best = t
			}
			continue
		}
		if w.branch(lt) {
			best = t
		} else if eq := w.c.Eq(t.when, best.when); !eq.isConst() && w.branch(eq) {
			w.end("assume", "", "two timers at the same instant")
		}
	}
	w.timers = live
	if best == nil {
		return false
	}
	best.active = false
	w.now = best.when // not in the past
	best.fire()
	return true
}

func (w *Worker) addTimer(d *Term, fire func()) *timer {
	zero := w.c.Const(64, 0)
	if neg := w.c.Slt(d, zero); neg.isTrue() || !neg.isConst() && w.branch(neg) {
		d = zero
	}
	w.tseq++
	t := &timer{when: w.c.Bin(OAdd, w.now, d), seq: w.tseq, fire: fire, active: true}
	w.timers = append(w.timers, t)
	return t
}

// yieldPoint is a point of the code under test at which the running goroutine may
// be held until all others are blocked.
func (w *Worker) yieldPoint(g *Goroutine, site string) ictl {
	n := w.yocc[site]
	w.yocc[site] = n + 1
	if w.budget <= 0 || g == w.main && false {
		return iDone
	}
	if w.choose("yield", 2) == 0 {
		return iDone
	}
	w.budget--
	key := site + "#" + strconv.Itoa(n)
	v := w.c.Var("held at "+key, 16)
	w.assume(w.c.And(w.c.Ult(w.c.Const(16, 0), v), w.c.Ult(v, w.c.Const(16, 1000))))
	d := w.c.Zext(v, 64)
	w.delays[key] = d
	w.schedT = append(w.schedT, SchedEv{G: g.id, Why: "goroutine held until the others block", Site: key})
	w.block(g, "held")
	w.addTimer(d, func() { w.wake(g) })
	return iBlock
}

func (w *Worker) site(g *Goroutine) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if !fr.fi.target || fr.pc >= len(fr.block.instrs) {
			continue
		}
		p := w.E.prog.Fset.Position(fr.block.instrs[fr.pc].in.Pos())
		return fmt.Sprintf("%s %s:%d", fr.fi.name, p.Filename, p.Line)
	}
	return ""
}

// ---- channels

func (w *Worker) popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel != nil {
			if x.sel.done {
				continue
			}
			x.sel.done = true
		}
		return x
	}
	return nil
}

func (w *Worker) hasWaiter(q []*waiter, g *Goroutine) bool {
	for _, x := range q {
		if x.sel == nil || !x.sel.done {
			return true
		}
	}
	return false
}

func (w *Worker) closedSendPanic() *panicVal {
	return &panicVal{v: Iface{t: w.E.runtimeErrType, v: concStr("send on closed channel")}, msg: "panic: send on closed channel"}
}

// trySend performs a send if it can proceed; 0 no, 1 done, 2 panicked.
func (w *Worker) trySend(g *Goroutine, ch *ChanObj, v Value) int {
	if ch.closed {
		w.goPanic(g, w.closedSendPanic())
		return 2
	}
	if r := w.popWaiter(&ch.recvq); r != nil {
		r.deliver(v, true)
		w.wake(r.g)
		return 1
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return 1
	}
	return 0
}

// tryRecv performs a receive if it can proceed.
func (w *Worker) tryRecv(ch *ChanObj) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		if s := w.popWaiter(&ch.sendq); s != nil {
			ch.buf = append(ch.buf, s.val)
			s.deliver(nil, true)
			w.wake(s.g)
		}
		return v, true, true
	}
	if s := w.popWaiter(&ch.sendq); s != nil {
		v := s.val
		s.deliver(nil, true)
		w.wake(s.g)
		return v, true, true
	}
	if ch.closed {
		return ch.zero, false, true
	}
	return nil, false, false
}

func (w *Worker) chanSend(g *Goroutine, fr *Frame, ch *ChanObj, v Value) {
	if w.spec > 0 {
		panic(specAbort{"send"})
	}
	if ch == nil {
		w.block(g, "send on nil channel")
		return
	}
	switch w.trySend(g, ch, v) {
	case 1:
		fr.pc++
		return
	case 2:
		return
	}
	w.block(g, "chan send")
	wt := &waiter{g: g, val: v, ch: ch, isSend: true}
	wt.deliver = func(_ Value, ok bool) {
		if !ok {
			g.wakePanic = w.closedSendPanic()
			return
		}
		fr.pc++
	}
	ch.sendq = append(ch.sendq, wt)
}

func (w *Worker) chanRecv(g *Goroutine, fr *Frame, dst int, ch *ChanObj, commaOk bool) {
	if w.spec > 0 {
		panic(specAbort{"recv"})
	}
	put := func(v Value, ok bool) {
		if dst >= 0 {
			if commaOk {
				fr.env[dst] = Tuple{v, w.c.Bool(ok)}
			} else {
				fr.env[dst] = v
			}
		}
		fr.pc++
	}
	if ch == nil {
		w.block(g, "receive from nil channel")
		return
	}
	if v, ok, done := w.tryRecv(ch); done {
		put(v, ok)
		return
	}
	w.block(g, "chan receive")
	ch.recvq = append(ch.recvq, &waiter{g: g, ch: ch, deliver: put})
}

func (w *Worker) chanClose(g *Goroutine, ch *ChanObj) {
	if w.spec > 0 {
		panic(specAbort{"close"})
	}
	if ch == nil {
		w.goPanic(g, &panicVal{v: Iface{t: w.E.runtimeErrType, v: concStr("close of nil channel")}, msg: "panic: close of nil channel"})
		return
	}
	if ch.closed {
		w.goPanic(g, &panicVal{v: Iface{t: w.E.runtimeErrType, v: concStr("close of closed channel")}, msg: "panic: close of closed channel"})
		return
	}
	ch.closed = true
	for {
		r := w.popWaiter(&ch.recvq)
		if r == nil {
			break
		}
		r.deliver(ch.zero, false)
		w.wake(r.g)
	}
	for {
		s := w.popWaiter(&ch.sendq)
		if s == nil {
			break
		}
		s.deliver(nil, false)
		w.wake(s.g)
	}
}

func (w *Worker) selectOp(g *Goroutine, fr *Frame, ins *Instr, in *ssa.Select) {
	if w.spec > 0 {
		panic(specAbort{"select"})
	}
	var ready []int
	nrecv := 0
	recvIdx := make([]int, len(in.States))
	for i, st := range in.States {
		recvIdx[i] = -1
		if st.Dir == types.RecvOnly {
			recvIdx[i] = nrecv
			nrecv++
		}
		ch, _ := w.get(fr, &ins.ops[2*i]).(*ChanObj)
		if ch == nil {
			continue
		}
		if st.Dir == types.RecvOnly {
			if len(ch.buf) > 0 || ch.closed || w.hasWaiter(ch.sendq, g) {
				ready = append(ready, i)
			}
		} else if ch.closed || len(ch.buf) < ch.cap || w.hasWaiter(ch.recvq, g) {
			ready = append(ready, i)
		}
	}
	result := func(i int, ok bool, v Value) Tuple {
		t := make(Tuple, 2+nrecv)
		t[0] = w.c.Int(i)
		t[1] = w.c.Bool(ok)
		for j, st := range in.States {
			if recvIdx[j] >= 0 {
				if j == i {
					t[2+recvIdx[j]] = v
				} else {
					t[2+recvIdx[j]] = w.zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
				}
			}
		}
		return t
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = w.choose("select", len(ready))
			w.nselect++
			{
				w.schedT = append(w.schedT, SchedEv{G: g.id, Why: "select case " + strconv.Itoa(ready[k]), Site: w.site(g)})
			}
		}
		i := ready[k]
		ch := w.get(fr, &ins.ops[2*i]).(*ChanObj)
		if in.States[i].Dir == types.RecvOnly {
			v, ok, done := w.tryRecv(ch)
			if !done {
				panic(engineErr{"select: receive not ready"})
			}
			fr.env[ins.dst] = result(i, ok, v)
			fr.pc++
			return
		}
		switch w.trySend(g, ch, w.get(fr, &ins.ops[2*i+1])) {
		case 1:
			fr.env[ins.dst] = result(i, false, nil)
			fr.pc++
		case 2:
		default:
			panic(engineErr{"select: send not ready"})
		}
		return
	}
	if !in.Blocking {
		fr.env[ins.dst] = result(-1, false, nil)
		fr.pc++
		return
	}
	sel := &selState{}
	w.block(g, "select")
	for i, st := range in.States {
		ch, _ := w.get(fr, &ins.ops[2*i]).(*ChanObj)
		if ch == nil {
			continue
		}
		i := i
		if st.Dir == types.RecvOnly {
			ch.recvq = append(ch.recvq, &waiter{g: g, ch: ch, sel: sel, deliver: func(v Value, ok bool) {
				fr.env[ins.dst] = result(i, ok, v)
				fr.pc++
			}})
		} else {
			ch.sendq = append(ch.sendq, &waiter{g: g, ch: ch, sel: sel, isSend: true, val: w.get(fr, &ins.ops[2*i+1]), deliver: func(_ Value, ok bool) {
				if !ok {
					g.wakePanic = w.closedSendPanic()
					return
				}
				fr.env[ins.dst] = result(i, false, nil)
				fr.pc++
			}})
		}
	}
}
