// Package zzsync stands for package sync in replays of concurrent counterexamples.
package zzsync

import (
	"sync"

	"github.com/indigo-web/indigo/internal/zzatomic"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

type (
	Pool   = sync.Pool
	Map    = sync.Map
	Locker = sync.Locker
)

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sym.AwaitCond(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	sym.Visible()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	sym.Visible()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	sym.AwaitCond(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) Unlock() {
	sym.Visible()
	if !m.w {
		panic("sync: unlock of unlocked mutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	sym.AwaitCond(func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) RUnlock() {
	sym.Visible()
	m.r--
}

func (m *RWMutex) TryLock() bool {
	sym.Visible()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	sym.Visible()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Cond struct {
	L             Locker
	waits, notify int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := c.waits
	c.waits++
	c.L.Unlock()
	sym.AwaitCond(func() bool { return t < c.notify })
	c.L.Lock()
}

func (c *Cond) Signal() {
	sym.Visible()
	if c.notify < c.waits {
		c.notify++
	}
}

func (c *Cond) Broadcast() {
	sym.Visible()
	c.notify = c.waits
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	sym.Visible()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { sym.AwaitCond(func() bool { return w.n == 0 }) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sym.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done zzatomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var v T
	o := new(Once)
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var (
		v T
		u U
	)
	o := new(Once)
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
