package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Threads: goroutines run one at a time. Before every visible operation (channel, mutex, wait group,
// atomic, goroutine start, zzsym.Yield) the scheduler picks the next thread; the choice is a symbolic
// variable "sched#k" whose every feasible value is explored.

func (st *State) liveThreads() int {
	n := 0
	for _, t := range st.threads {
		if !t.done {
			n++
		}
	}
	return n
}

func (e *Engine) enabled(st *State, t *Thread) bool {
	if t.done {
		return false
	}
	return t.wait == nil || t.wait(e, st)
}

// visible is called at the start of a visible operation. It returns true when the current thread may
// go on; otherwise another thread was selected (the operation is retried later).
func (e *Engine) visible(st *State) bool {
	if st.isInit || len(st.threads) == 1 {
		return true
	}
	if st.tok {
		st.tok = false
		return true
	}
	e.schedule(st, true)
	if st.off {
		return false
	}
	if st.tok && st.pickedSelf {
		st.tok = false
		st.pickedSelf = false
		return true
	}
	return false
}

// schedule picks the next thread (forking over all enabled ones). curEnabled: the current thread could go on.
func (e *Engine) schedule(st *State, curEnabled bool) bool {
	var cand []int
	self := st.cur
	for i, t := range st.threads {
		if i == self && curEnabled {
			cand = append(cand, i)
			continue
		}
		if e.enabled(st, t) {
			if curEnabled && e.cfg.Preempt >= 0 && st.preempt >= e.cfg.Preempt {
				continue
			}
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		d := ""
		for i, t := range st.threads {
			if !t.done {
				d += fmt.Sprintf(" thread %d blocked on %s;", i, t.desc)
			}
		}
		e.violation(st, "deadlock", "all goroutines are blocked:"+d, e.ctx.True)
		e.finish(st, "deadlock")
		return false
	}
	if e.cfg.OneSchedule {
		// go on as long as possible, then the first thread that can
		k := cand[0]
		if curEnabled {
			k = self
		}
		cand = []int{k}
	}
	// the decision is a symbolic variable
	name := "sched#" + strconv.Itoa(st.sched)
	v := e.ctx.Var(name, "sched", 16)
	st.sched++
	e.illegal(st, v, cand)
	if len(cand) > 1 {
		for _, k := range cand[1:] {
			n := e.clone(st)
			n.pc.add(e.ctx, e.ctx.Eq(v, e.ctx.K(16, uint64(k))))
			n.model = n.model.with(int32(v.k), uint64(k))
			n.choose(k, self, curEnabled)
			e.spawn(st, n)
		}
	}
	k := cand[0]
	st.pc.add(e.ctx, e.ctx.Eq(v, e.ctx.K(16, uint64(k))))
	st.model = st.model.with(int32(v.k), uint64(k))
	st.choose(k, self, curEnabled)
	return true
}

// illegal records, for the coverage query, that other values of the decision are no schedules.
func (e *Engine) illegal(st *State, v *Term, cand []int) {
	if !e.cfg.Coverage || len(e.leaves) > 40000 || e.cfg.OneSchedule && len(e.leaves) > 1000 {
		return
	}
	t := e.pcTerm(st)
	for _, k := range cand {
		t = e.ctx.And(t, e.ctx.Not(e.ctx.Eq(v, e.ctx.K(16, uint64(k)))))
	}
	e.leaves = append(e.leaves, t)
}

func (st *State) choose(k, self int, curEnabled bool) {
	if curEnabled && k != self {
		st.preempt++
	}
	st.cur = k
	st.threads[k].wait = nil
	st.threads[k].desc = ""
	st.threads[k].recvOn = nil
	st.threads[k].selSend = nil
	st.tok = true
	st.pickedSelf = k == self && curEnabled
}

// block marks the current thread as waiting and switches.
func (e *Engine) block(st *State, desc string, cond func(*Engine, *State) bool) {
	t := st.thread()
	t.wait = cond
	t.desc = desc
	t.recvOn, t.selSend = e.recvOn, e.selSend
	st.tok = false
	e.schedule(st, false)
}

// awaitOp performs a blocking visible operation.
func (e *Engine) awaitOp(st *State, desc string, ready func(*Engine, *State) bool, do func() Value) (Value, int) {
	if st.isInit {
		return do(), actDone
	}
	if !e.visible(st) {
		return nil, actRetry
	}
	if !ready(e, st) {
		e.block(st, desc, ready)
		return nil, actRetry
	}
	return do(), actDone
}

// threadDone handles the end of the current thread; false when the whole path is over.
func (e *Engine) threadDone(st *State) bool {
	t := st.thread()
	t.done = true
	if st.cur == 0 || st.isInit {
		if !st.isInit {
			e.finish(st, "ok")
		}
		return false
	}
	st.tok = false
	return e.schedule(st, false)
}

func (e *Engine) goInstr(st *State, f *Frame, x *Instr, in *ssa.Go) bool {
	args := make([]Value, len(x.ops)-1)
	for i := range args {
		args[i] = f.get(&x.ops[i+1])
	}
	fv, args, ok := e.resolve(st, &in.Call, f.get(&x.ops[0]), args)
	if !ok {
		return true
	}
	if st.isInit {
		f.pc++ // goroutines started by package init are not modelled
		return true
	}
	if fv.builtin != nil {
		unsup("go builtin")
	}
	fi := e.info(fv.fn)
	if fi.redir != nil {
		fi = e.info(fi.redir)
	}
	f.pc++
	t := &Thread{id: len(st.threads)}
	st.threads = append(st.threads, t)
	cur := st.cur
	st.cur = len(st.threads) - 1
	e.pushFrame(st, fi, args, fv.bind, -1, retThread)
	st.cur = cur
	st.tok = false
	return true
}

// ---------- mutexes, wait groups (state kept beside the objects) ----------

func (st *State) syncGet(p PtrV, k int) int { return st.sync[[3]int{p.obj, p.off, k}] }
func (st *State) syncSet(p PtrV, k, v int) {
	n := make(map[[3]int]int, len(st.sync)+1)
	for a, b := range st.sync {
		n[a] = b
	}
	n[[3]int{p.obj, p.off, k}] = v
	st.sync = n
}

func intrLock(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	return e.awaitOp(st, "mutex", func(e *Engine, s *State) bool { return s.syncGet(p, 0) == 0 && s.syncGet(p, 1) == 0 },
		func() Value { st.syncSet(p, 0, 1); return nil })
}

func intrTryLock(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	if !e.visible(st) {
		return nil, actRetry
	}
	if st.syncGet(p, 0) == 0 && st.syncGet(p, 1) == 0 {
		st.syncSet(p, 0, 1)
		return e.ctx.True, actDone
	}
	return e.ctx.False, actDone
}

func intrUnlock(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	if !e.visible(st) {
		return nil, actRetry
	}
	if st.syncGet(p, 0) == 0 {
		e.rtPanic(st, "sync: unlock of unlocked mutex")
		return nil, actHandled
	}
	st.syncSet(p, 0, 0)
	return nil, actDone
}

func intrRLock(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	return e.awaitOp(st, "rwmutex", func(e *Engine, s *State) bool { return s.syncGet(p, 0) == 0 },
		func() Value { st.syncSet(p, 1, st.syncGet(p, 1)+1); return nil })
}

func intrRUnlock(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	if !e.visible(st) {
		return nil, actRetry
	}
	st.syncSet(p, 1, st.syncGet(p, 1)-1)
	return nil, actDone
}

func intrTryRLock(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	if !e.visible(st) {
		return nil, actRetry
	}
	if st.syncGet(p, 0) == 0 {
		st.syncSet(p, 1, st.syncGet(p, 1)+1)
		return e.ctx.True, actDone
	}
	return e.ctx.False, actDone
}

// Condition variables: 3 is the number of waits so far, 4 how many of them were woken, as in the
// runtime's notifyList.
func intrNotifyAdd(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	n := st.syncGet(p, 3)
	st.syncSet(p, 3, n+1)
	return e.ctx.K(32, uint64(n)), actDone
}

func intrNotifyWait(e *Engine, st *State, c *callCtx) (Value, int) {
	p, t := c.args[0].(PtrV), e.concInt(st, c.args[1])
	return e.awaitOp(st, "condition variable", func(e *Engine, s *State) bool { return t < s.syncGet(p, 4) }, func() Value { return nil })
}

func intrNotifyOne(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	if !e.visible(st) {
		return nil, actRetry
	}
	if n := st.syncGet(p, 4); n < st.syncGet(p, 3) {
		st.syncSet(p, 4, n+1)
	}
	return nil, actDone
}

func intrNotifyAll(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	if !e.visible(st) {
		return nil, actRetry
	}
	st.syncSet(p, 4, st.syncGet(p, 3))
	return nil, actDone
}

func wgAdd(e *Engine, st *State, c *callCtx, d int) (Value, int) {
	p := c.args[0].(PtrV)
	if !e.visible(st) {
		return nil, actRetry
	}
	n := st.syncGet(p, 2) + d
	if n < 0 {
		e.rtPanic(st, "sync: negative WaitGroup counter")
		return nil, actHandled
	}
	st.syncSet(p, 2, n)
	return nil, actDone
}

func intrWgAdd(e *Engine, st *State, c *callCtx) (Value, int) {
	return wgAdd(e, st, c, e.concInt(st, c.args[1]))
}
func intrWgDone(e *Engine, st *State, c *callCtx) (Value, int) { return wgAdd(e, st, c, -1) }
func intrWgWait(e *Engine, st *State, c *callCtx) (Value, int) {
	p := c.args[0].(PtrV)
	return e.awaitOp(st, "waitgroup", func(e *Engine, s *State) bool { return s.syncGet(p, 2) == 0 }, func() Value { return nil })
}

// ---------- atomics ----------

func atomicPtr(e *Engine, st *State, v Value) (PtrV, bool) {
	p, ok := v.(PtrV)
	if !ok {
		unsup("atomic on %T", v)
	}
	if p.obj == 0 {
		e.rtPanic(st, "invalid memory address or nil pointer dereference")
		return p, false
	}
	return p, true
}

func atomicLoad(e *Engine, st *State, c *callCtx) (Value, int) {
	p, ok := atomicPtr(e, st, c.args[0])
	if !ok {
		return nil, actHandled
	}
	if !e.visible(st) {
		return nil, actRetry
	}
	return e.obj(st, p.obj).cells[p.off], actDone
}

func atomicStore(e *Engine, st *State, c *callCtx) (Value, int) {
	p, ok := atomicPtr(e, st, c.args[0])
	if !ok {
		return nil, actHandled
	}
	if !e.visible(st) {
		return nil, actRetry
	}
	e.wobj(st, p.obj).cells[p.off] = c.args[1]
	return nil, actDone
}

func atomicRMW(e *Engine, st *State, c *callCtx, f func(old Value) Value, retNew bool) (Value, int) {
	p, ok := atomicPtr(e, st, c.args[0])
	if !ok {
		return nil, actHandled
	}
	if !e.visible(st) {
		return nil, actRetry
	}
	o := e.wobj(st, p.obj)
	old := o.cells[p.off]
	n := f(old)
	o.cells[p.off] = n
	if retNew {
		return n, actDone
	}
	return old, actDone
}

func atomicSwap(e *Engine, st *State, c *callCtx) (Value, int) {
	return atomicRMW(e, st, c, func(Value) Value { return c.args[1] }, false)
}
func atomicAdd(e *Engine, st *State, c *callCtx) (Value, int) {
	return atomicRMW(e, st, c, func(o Value) Value { return e.ctx.Bin(OAdd, o.(*Term), c.args[1].(*Term)) }, true)
}
func atomicAnd(e *Engine, st *State, c *callCtx) (Value, int) {
	return atomicRMW(e, st, c, func(o Value) Value { return e.ctx.Bin(OAnd, o.(*Term), c.args[1].(*Term)) }, false)
}
func atomicOr(e *Engine, st *State, c *callCtx) (Value, int) {
	return atomicRMW(e, st, c, func(o Value) Value { return e.ctx.Bin(OOr, o.(*Term), c.args[1].(*Term)) }, false)
}

func atomicCAS(e *Engine, st *State, c *callCtx) (Value, int) {
	p, ok := atomicPtr(e, st, c.args[0])
	if !ok {
		return nil, actHandled
	}
	if !e.visible(st) {
		return nil, actRetry
	}
	cond := e.eq(st, e.obj(st, p.obj).cells[p.off], c.args[1])
	if cond.op != OConst {
		unsup("symbolic CAS")
	}
	if cond.k != 0 {
		e.wobj(st, p.obj).cells[p.off] = c.args[2]
		return e.ctx.True, actDone
	}
	return e.ctx.False, actDone
}

// ---------- channels ----------

func (e *Engine) chanSendReady(s *State, id int) bool {
	ch := e.obj(s, id).ch
	if ch.closed {
		return true
	}
	if ch.cap > 0 {
		return len(ch.buf) < ch.cap
	}
	return len(ch.buf) == 0
}

func (e *Engine) chanRecvReady(s *State, id, self int) bool {
	if g := s.threads[self].grant; g != 0 {
		return g == id
	}
	ch := e.obj(s, id).ch
	return ch.closed || len(ch.buf) > 0 && ch.resv == 0
}

// waitingReceiver finds a thread that is blocked in a receive from an unbuffered channel, -1 if there
// is none. Only a select needs it: any other send may go first and wait.
func (e *Engine) waitingReceiver(s *State, id int) int {
	if ch := e.obj(s, id).ch; ch.closed || len(ch.buf) > 0 {
		return -1
	}
	for i, t := range s.threads {
		if t.done || t.wait == nil || t.grant != 0 {
			continue
		}
		for _, c := range t.recvOn {
			if c == id {
				return i
			}
		}
	}
	return -1
}

func never(*Engine, *State) bool { return false }

func (e *Engine) sendInstr(st *State, f *Frame, x *Instr) bool {
	ch := f.get(&x.ops[0]).(ChanV)
	if ch.obj == 0 {
		e.block(st, "send on nil channel", never)
		return !st.off
	}
	fr := f
	if fr.aux != nil {
		want := fr.aux.(*Term).k
		ready := func(e *Engine, s *State) bool { return uint64(e.obj(s, ch.obj).ch.recvd) >= want }
		v, act := e.awaitOp(st, "chan send", ready, func() Value { return nil })
		_ = v
		if act == actDone {
			g := st.top()
			g.aux = nil
			g.pc++
		}
		return !st.off
	}
	_, act := e.awaitOp(st, "chan send", func(e *Engine, s *State) bool { return e.chanSendReady(s, ch.obj) }, func() Value { return nil })
	if act != actDone {
		return !st.off
	}
	o := e.wobj(st, ch.obj)
	if o.ch.closed {
		return e.rtPanic(st, "send on closed channel")
	}
	g := st.top()
	o.ch.buf = append(o.ch.buf, g.get(&x.ops[1]))
	o.ch.sent++
	if o.ch.cap == 0 {
		g.aux = e.ctx.K(64, uint64(o.ch.sent))
		return true
	}
	g.pc++
	return true
}

func (e *Engine) takeChan(st *State, id int) (Value, bool) {
	o := e.wobj(st, id)
	if len(o.ch.buf) > 0 {
		v := o.ch.buf[0]
		o.ch.buf = append([]Value(nil), o.ch.buf[1:]...)
		o.ch.recvd++
		o.ch.resv = 0
		st.thread().grant = 0
		return v, true
	}
	return nil, false
}

func (e *Engine) recvInstr(st *State, f *Frame, x *Instr, in *ssa.UnOp) bool {
	ch := f.get(&x.ops[0]).(ChanV)
	if ch.obj == 0 {
		e.block(st, "receive on nil channel", never)
		return !st.off
	}
	self := st.cur
	e.recvOn, e.selSend = []int{ch.obj}, nil
	_, act := e.awaitOp(st, "chan receive", func(e *Engine, s *State) bool { return e.chanRecvReady(s, ch.obj, self) }, func() Value { return nil })
	e.recvOn = nil
	if act != actDone {
		return !st.off
	}
	v, ok := e.takeChan(st, ch.obj)
	g := st.top()
	el := in.X.Type().Underlying().(*types.Chan).Elem()
	if !ok {
		v = e.zero(el)
	}
	if in.CommaOk {
		g.regs[x.dst] = TupleV{v, e.ctx.B(ok)}
	} else {
		g.regs[x.dst] = v
	}
	g.pc++
	return true
}

func (e *Engine) closeChan(st *State, ch ChanV) (Value, int) {
	if ch.obj == 0 {
		e.rtPanic(st, "close of nil channel")
		return nil, actHandled
	}
	if !e.visible(st) {
		return nil, actRetry
	}
	o := e.wobj(st, ch.obj)
	if o.ch.closed {
		e.rtPanic(st, "close of closed channel")
		return nil, actHandled
	}
	o.ch.closed = true
	return nil, actDone
}

func (e *Engine) selectInstr(st *State, f *Frame, x *Instr, in *ssa.Select) bool {
	// ops: for each state Chan, Send
	type sc struct {
		ch   ChanV
		send Value
		dir  types.ChanDir
	}
	var cs []sc
	for i, s := range in.States {
		c := sc{ch: f.get(&x.ops[2*i]).(ChanV), dir: s.Dir}
		if s.Dir == types.SendOnly {
			c.send = f.get(&x.ops[2*i+1])
		}
		cs = append(cs, c)
	}
	self := st.cur
	e.recvOn, e.selSend = nil, nil
	for _, c := range cs {
		if c.dir == types.SendOnly {
			e.selSend = append(e.selSend, c.ch.obj)
		} else {
			e.recvOn = append(e.recvOn, c.ch.obj)
		}
	}
	defer func() { e.recvOn, e.selSend = nil, nil }()
	readySet := func(e *Engine, s *State) []int {
		var r []int
		for i, c := range cs {
			if c.ch.obj == 0 {
				continue
			}
			if c.dir == types.SendOnly {
				if s.threads[self].grant != 0 {
					continue
				}
				ch := e.obj(s, c.ch.obj).ch
				if ch.cap == 0 && !ch.closed {
					if e.waitingReceiver(s, c.ch.obj) >= 0 {
						r = append(r, i)
					}
				} else if e.chanSendReady(s, c.ch.obj) {
					r = append(r, i)
				}
			} else if e.chanRecvReady(s, c.ch.obj, self) {
				r = append(r, i)
			} else if !in.Blocking {
				for _, t := range s.threads {
					for _, sc := range t.selSend {
						if sc == c.ch.obj && t.wait != nil {
							unsup("select on both ends of an unbuffered channel")
						}
					}
				}
			}
		}
		return r
	}
	if in.Blocking {
		_, act := e.awaitOp(st, "select", func(e *Engine, s *State) bool { return len(readySet(e, s)) > 0 }, func() Value { return nil })
		if act != actDone {
			return !st.off
		}
	} else if !e.visible(st) {
		return !st.off
	}
	r := readySet(e, st)
	res := func(s *State, k int) {
		g := s.top()
		out := TupleV{e.ctx.K(64, uint64(int64(k))), e.ctx.False}
		for i, stt := range in.States {
			if stt.Dir != types.RecvOnly {
				continue
			}
			el := stt.Chan.Type().Underlying().(*types.Chan).Elem()
			var v Value
			if i == k {
				vv, ok := e.takeChan(s, cs[i].ch.obj)
				if ok {
					v = vv
				} else {
					v = e.zero(el)
				}
				out[1] = e.ctx.B(ok)
			} else {
				v = e.zero(el)
			}
			out = append(out, v)
		}
		if k >= 0 && cs[k].dir == types.SendOnly {
			if e.obj(s, cs[k].ch.obj).ch.closed {
				e.rtPanic(s, "send on closed channel")
				return
			}
			if w := e.waitingReceiver(s, cs[k].ch.obj); w >= 0 && e.obj(s, cs[k].ch.obj).ch.cap == 0 {
				e.wobj(s, cs[k].ch.obj).ch.resv = w + 1
				s.threads[w].grant = cs[k].ch.obj
			}
			o := e.wobj(s, cs[k].ch.obj)
			o.ch.buf = append(o.ch.buf, cs[k].send)
			o.ch.sent++
		}
		g.regs[x.dst] = out
		g.pc++
	}
	if len(r) == 0 {
		res(st, -1)
		return true
	}
	if len(r) > 1 {
		name := "select#" + strconv.Itoa(st.sched)
		v := e.ctx.Var(name, "select", 8)
		st.sched++
		e.illegal(st, v, r)
		for _, k := range r[1:] {
			n := e.clone(st)
			n.pc.add(e.ctx, e.ctx.Eq(v, e.ctx.K(16, uint64(k))))
			n.model = n.model.with(int32(v.k), uint64(k))
			res(n, k)
			e.spawn(st, n)
		}
		st.pc.add(e.ctx, e.ctx.Eq(v, e.ctx.K(8, uint64(r[0]))))
		st.model = st.model.with(int32(v.k), uint64(r[0]))
	}
	res(st, r[0])
	return true
}

var _ = token.ADD
