package zzsym

import (
	"reflect"
	"strconv"
	"sync"
	"time"
)

// The native counterpart of the engine's scheduler. In a replay of a concurrent harness the code
// under test is compiled with its synchronisation operations redirected here (same operations, one
// thread at a time); the decisions sched#k come from the solver's model.

type thread struct {
	id   int
	wake chan struct{}
	done bool
	// channels a blocked receiver waits for, and (the channel of) a value handed to it by a select
	recvOn []*chanState
	grant  *chanState
}

var (
	smu     sync.Mutex // protects nothing that runs concurrently: only one thread runs at a time
	threads = []*thread{{wake: make(chan struct{}, 1)}}
	cur     int
	tok     bool
	nsched  int
)

func decision() int {
	m, given := in.Model["sched#"+strconv.Itoa(nsched)]
	k := int(m)
	nsched++
	if !given || k >= len(threads) || threads[k].done {
		// past the schedule of the model: round robin
		for i := range threads {
			if k = (cur + 1 + i) % len(threads); !threads[k].done {
				return k
			}
		}
	}
	return k
}

// pick switches to the thread the model names and returns when this one is chosen again.
func pick(self int, ended bool) bool {
	k := decision()
	cur = k
	tok = true
	if k == self && !ended {
		return true
	}
	threads[k].wake <- struct{}{}
	if !ended {
		<-threads[self].wake
	}
	return false
}

// Visible is called before every visible operation.
func Visible() {
	if len(threads) == 1 {
		return
	}
	self := cur
	for {
		if tok {
			tok = false
			return
		}
		if pick(self, false) {
			tok = false
			return
		}
	}
}

var stuck int

// AwaitCond performs a blocking visible operation.
func AwaitCond(ready func() bool) {
	for {
		Visible()
		if ready() {
			stuck = 0
			return
		}
		if stuck++; stuck > 10000 {
			Fail("all goroutines are blocked")
		}
		tok = false
		pick(cur, false)
	}
}

// Go starts a thread.
func Go(f func()) {
	t := &thread{id: len(threads), wake: make(chan struct{}, 1)}
	threads = append(threads, t)
	tok = false
	go func() {
		<-t.wake
		f()
		t.done = true
		tok = false
		pick(t.id, true)
	}()
}

// Yield is a visible operation without effect.
func Yield() { Visible() }

// Await blocks until *p is true.
func Await(p *bool) { AwaitCond(func() bool { return *p }) }

// ---------- channels ----------

type chanState struct {
	buf         []reflect.Value
	cap         int
	sent, recvd int
	closed      bool
	resv        bool // the value was handed by a select to a waiting receiver
}

var chans = map[uintptr]*chanState{}

func stateOf(ch reflect.Value) *chanState {
	p := ch.Pointer()
	s := chans[p]
	if s == nil {
		s = &chanState{cap: ch.Cap()}
		chans[p] = s
	}
	return s
}

func (s *chanState) canSend() bool {
	return s.closed || s.cap > 0 && len(s.buf) < s.cap || s.cap == 0 && len(s.buf) == 0
}

func (s *chanState) take() (reflect.Value, bool) {
	if len(s.buf) == 0 {
		return reflect.Value{}, false
	}
	v := s.buf[0]
	s.buf = s.buf[1:]
	s.recvd++
	s.resv = false
	threads[cur].grant = nil
	return v, true
}

func (s *chanState) canRecv() bool {
	if g := threads[cur].grant; g != nil {
		return g == s
	}
	return s.closed || len(s.buf) > 0 && !s.resv
}

// receiver finds a thread that is blocked in a receive from the unbuffered channel.
func (s *chanState) receiver() *thread {
	if s.closed || len(s.buf) > 0 {
		return nil
	}
	for _, t := range threads {
		if t.done || t.grant != nil {
			continue
		}
		for _, c := range t.recvOn {
			if c == s {
				return t
			}
		}
	}
	return nil
}

// Send is ch <- v.
func Send[C ~chan T | ~chan<- T, T any](ch C, v T) {
	rc := reflect.ValueOf(ch)
	if rc.IsNil() {
		AwaitCond(func() bool { return false })
	}
	s := stateOf(rc)
	AwaitCond(s.canSend)
	if s.closed {
		panic("send on closed channel")
	}
	s.buf = append(s.buf, reflect.ValueOf(&v).Elem())
	s.sent++
	if s.cap == 0 {
		n := s.sent
		AwaitCond(func() bool { return s.recvd >= n })
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	var z T
	rc := reflect.ValueOf(ch)
	if rc.IsNil() {
		AwaitCond(func() bool { return false })
	}
	s := stateOf(rc)
	awaitRecv(s.canRecv, s)
	v, ok := s.take()
	if !ok {
		return z, false
	}
	reflect.ValueOf(&z).Elem().Set(v)
	return z, true
}

// Recv is <-ch.
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := Recv2[C, T](ch)
	return v
}

// CloseChan is close(ch).
func CloseChan[C ~chan T | ~chan<- T, T any](ch C) {
	Visible()
	s := stateOf(reflect.ValueOf(ch))
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
}

// Sel is the outcome of a select.
type Sel struct {
	v  reflect.Value
	ok bool
}

func awaitRecv(ready func() bool, chs ...*chanState) {
	for {
		Visible()
		if ready() {
			stuck = 0
			return
		}
		if stuck++; stuck > 10000 {
			Fail("all goroutines are blocked")
		}
		tok = false
		self := threads[cur]
		self.recvOn = chs
		pick(cur, false)
		self.recvOn = nil
	}
}

// Case is a case of a select.
type Case struct {
	ch   reflect.Value
	send bool
	v    reflect.Value
}

// RecvCase is case <-ch.
func RecvCase[C ~chan T | ~<-chan T, T any](ch C) Case { return Case{ch: reflect.ValueOf(ch)} }

// SendCase is case ch <- v.
func SendCase[C ~chan T | ~chan<- T, T any](ch C, v T) Case {
	return Case{reflect.ValueOf(ch), true, reflect.ValueOf(&v).Elem()}
}

// Select performs one of the communications.
func Select(block bool, cs ...Case) (int, Sel) {
	var recvs []*chanState
	for _, c := range cs {
		if !c.send && !c.ch.IsNil() {
			recvs = append(recvs, stateOf(c.ch))
		}
	}
	ready := func() []int {
		var r []int
		for i, c := range cs {
			if c.ch.IsNil() {
				continue
			}
			s := stateOf(c.ch)
			switch {
			case !c.send:
				if s.canRecv() {
					r = append(r, i)
				}
			case threads[cur].grant != nil:
			case s.closed || s.cap > 0:
				if s.canSend() {
					r = append(r, i)
				}
			case s.receiver() != nil:
				r = append(r, i)
			}
		}
		return r
	}
	if block {
		awaitRecv(func() bool { return len(ready()) > 0 }, recvs...)
	} else {
		Visible()
	}
	r := ready()
	if len(r) == 0 {
		return -1, Sel{}
	}
	k := r[0]
	if len(r) > 1 {
		k = int(in.Model["select#"+strconv.Itoa(nsched)])
		nsched++
	}
	s := stateOf(cs[k].ch)
	if !cs[k].send {
		v, ok := s.take()
		return k, Sel{v, ok}
	}
	if s.closed {
		panic("send on closed channel")
	}
	if s.cap == 0 {
		s.receiver().grant = s
		s.resv = true
	}
	s.buf = append(s.buf, cs[k].v)
	s.sent++
	return k, Sel{}
}

// Len is len(ch).
func Len[C ~chan T | ~chan<- T | ~<-chan T, T any](ch C) int {
	s := stateOf(reflect.ValueOf(ch))
	if s.cap == 0 {
		return 0
	}
	return len(s.buf)
}

// Got extracts the value a select received from ch.
func Got[C ~chan T | ~<-chan T, T any](ch C, s Sel) (T, bool) {
	var z T
	if s.ok {
		reflect.ValueOf(&z).Elem().Set(s.v)
	}
	return z, s.ok
}

// Got1 is Got without the flag.
func Got1[C ~chan T | ~<-chan T, T any](ch C, s Sel) T {
	v, _ := Got[C, T](ch, s)
	return v
}

// ---------- timers: may expire at any moment ----------

var timersN = map[*time.Timer]*timerState{}

func fireN(t *time.Timer, f func()) {
	s := &timerState{}
	timersN[t] = s
	Go(func() {
		Yield()
		if !s.stopped {
			s.fired = true
			f()
		}
	})
}

// NNewTimer is time.NewTimer.
func NNewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	fireN(t, func() { Send(c, time.Time{}) })
	return t
}

// NAfter is time.After.
func NAfter(d time.Duration) <-chan time.Time { return NNewTimer(d).C }

// NAfterFunc is time.AfterFunc.
func NAfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	fireN(t, f)
	return t
}
