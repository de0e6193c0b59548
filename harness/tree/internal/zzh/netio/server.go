package netio

import (
	"errors"
	"net"
	"time"

	"github.com/indigo-web/indigo/internal/tcp"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

var errAccept = errors.New("accept failed")

// timeoutErr is a failure of the kind an expired deadline causes.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type conn struct {
	id       int
	accepted bool
	handled  int
	closed   int
	running  bool
	fails    bool
	onClose  func()
}

func (c *conn) Read([]byte) (int, error)         { return 0, errRead }
func (c *conn) Write(b []byte) (int, error)      { return len(b), nil }
func (c *conn) LocalAddr() net.Addr              { return nil }
func (c *conn) RemoteAddr() net.Addr             { return addr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }
func (c *conn) Close() error {
	sym.Yield()
	sym.Assert(!c.running, "a connection is closed while its handler runs")
	c.closed++
	if c.onClose != nil {
		c.onClose()
	}
	if c.fails {
		return errClose
	}
	return nil
}

// listener hands out its connections, then blocks until it is closed.
type listener struct {
	conns       []*conn
	next        int
	closed      bool
	closes      int
	interrupted bool
	ready       bool
	failAt      int
	failed      bool
	closeErr    error
	dlErr       error
	acceptErr   error
	onUpdate    func()
}

func (l *listener) update() {
	l.ready = l.closed || l.interrupted || l.next < len(l.conns) || l.failAt == l.next
	if l.onUpdate != nil {
		l.onUpdate()
	}
}

func (l *listener) Accept() (net.Conn, error) {
	l.update()
	sym.Await(&l.ready)
	if l.closed || l.interrupted {
		return nil, l.acceptErr
	}
	if l.failAt == l.next {
		l.failed = true
		return nil, l.acceptErr
	}
	c := l.conns[l.next]
	l.next++
	l.update()
	c.accepted = true
	sym.Yield() // the connection is accepted, the caller not yet resumed
	return c, nil
}

func (l *listener) Close() error {
	sym.Yield()
	l.closes++
	l.closed = true
	l.update()
	return l.closeErr
}

func (l *listener) Addr() net.Addr { return addr{} }

type deadliner struct{ *listener }

func (d deadliner) SetDeadline(t time.Time) error {
	sym.Yield()
	// a deadline in the future or none at all would not wake up whoever waits
	d.interrupted = !t.IsZero() && !t.After(time.Now())
	d.update()
	return d.dlErr
}

type world struct {
	ls        []*listener
	servers   []*tcp.Server
	stopped   bool
	started   []bool
	errs      []error
	handled   int
	begun     int
	allBegun  bool
	total     int
	allServed bool
	together  bool
	quiet     bool // no listener accepts anything any more
}

func newWorld(servers, conns int, dl bool) *world {
	w := &world{total: servers * conns}
	for i := 0; i < servers; i++ {
		l := &listener{failAt: -1, closeErr: errClose, acceptErr: errAccept}
		faults := sym.Param("faults", 0)
		if faults&1 != 0 {
			l.closeErr, l.dlErr = nil, errDeadline
		}
		if faults&2 != 0 {
			l.acceptErr = timeoutErr{}
		}
		for j := 0; j < conns; j++ {
			l.conns = append(l.conns, &conn{id: j, fails: faults&4 != 0})
		}
		w.ls = append(w.ls, l)
		var nl net.Listener = l
		if dl {
			nl = deadliner{l}
		}
		w.servers = append(w.servers, tcp.NewServer(nl, func(c net.Conn) {
			cc := c.(*conn)
			sym.Assert(!w.stopped, "a connection is served after the server was stopped and waited for")
			sym.Assert(cc.closed == 0, "a closed connection is served")
			cc.handled++
			cc.running = true
			if w.begun++; w.begun == w.total {
				w.allBegun = true
			}
			sym.Yield()
			if w.together {
				sym.Await(&w.quiet)
			}
			sym.Assert(!w.stopped, "waiting returned while a connection is still served")
			cc.running = false
			if w.handled++; w.handled == w.total {
				w.allServed = true
			}
		}))
	}
	w.started = make([]bool, servers)
	w.errs = make([]error, servers)
	return w
}

func (w *world) start(i int) {
	go func() {
		w.errs[i] = w.servers[i].Start()
		w.started[i] = true
	}()
}

func (w *world) settle() {
	for i := range w.servers {
		sym.Await(&w.started[i])
	}
	for i := 0; i < sym.Param("settle", 2); i++ {
		sym.Yield()
	}
	handled := 0
	for _, l := range w.ls {
		for _, c := range l.conns {
			sym.Assert(c.handled <= 1, "a connection is served twice")
			handled += c.handled
			if c.accepted {
				sym.Assert(c.closed == 1, "an accepted connection is not closed exactly once")
			} else {
				sym.Assert(c.handled == 0 && c.closed == 0, "a connection is served that was never accepted")
			}
		}
	}
	sym.ObserveInt("handled", handled)
	sym.Reach("settled")
}

// Stop: the servers are stopped at any moment (mode 0), paused and then stopped (1), or stopped
// after every connection was served (2).
func Stop() {
	n, k := sym.Param("servers", 1), sym.Param("conns", 2)
	w := newWorld(n, k, sym.Param("deadliner", 0) == 1)
	for i := range w.servers {
		w.start(i)
	}
	switch sym.Param("mode", 0) {
	case 0:
		tcp.StopAll(w.servers)
	case 1:
		tcp.PauseAll(w.servers)
		for _, l := range w.ls {
			sym.Assert(l.closes == 0, "pausing closes the listener")
		}
		w.stopped = true
		tcp.StopAll(w.servers)
	case 2:
		sym.Await(&w.allServed)
		sym.Reach("all served")
		tcp.StopAll(w.servers)
	}
	w.stopped = true
	for _, l := range w.ls {
		sym.Assert(l.closes == 1, "stopping does not close every listener exactly once")
	}
	w.settle()
	for i := range w.servers {
		sym.Assert(w.errs[i] == nil || w.errs[i] == w.ls[i].acceptErr, "the accept loop invents an error")
	}
}

// Together: several servers are stopped or paused while their connections last for as long as any
// of them goes on accepting.
func Together() {
	w := newWorld(sym.Param("servers", 2), sym.Param("conns", 1), true)
	w.together = true
	update := func() {
		w.quiet = true
		for _, l := range w.ls {
			w.quiet = w.quiet && (l.closed || l.interrupted)
		}
	}
	for i := range w.servers {
		w.ls[i].onUpdate = update
		w.start(i)
	}
	if sym.Param("crowd", 0) == 1 {
		// everything is being served by now
		sym.Await(&w.allBegun)
	}
	if sym.Param("mode", 0) == 0 {
		tcp.StopAll(w.servers)
	} else {
		tcp.PauseAll(w.servers)
	}
	w.stopped = true
	w.settle()
}

// AcceptError: a failing accept ends the loop with that very error, and waiting still waits.
func AcceptError() {
	k := sym.Param("conns", 2)
	w := newWorld(1, k, sym.Param("deadliner", 0) == 1)
	w.ls[0].failAt = sym.Choice("fail", k+1)
	w.start(0)
	sym.Await(&w.started[0])
	sym.Assert(w.errs[0] == w.ls[0].acceptErr, "an accept error is not returned")
	w.servers[0].Wait()
	w.stopped = true
	for i, c := range w.ls[0].conns {
		sym.Assert((c.handled == 1) == (i < w.ls[0].failAt), "a connection accepted before the error is not served")
	}
	sym.Assert(w.servers[0].Stop() == w.ls[0].closeErr, "the error of closing the listener is lost")
	w.settle()
}

// Pause: a paused server finishes what it serves; nothing is accepted afterwards.
func Pause() {
	w := newWorld(1, sym.Param("conns", 2), true)
	w.start(0)
	w.servers[0].Pause()
	w.servers[0].Wait()
	w.stopped = true
	accepted := w.ls[0].next
	w.settle()
	sym.Assert(w.ls[0].closes == 0, "pausing closes the listener")
	sym.Assert(w.ls[0].next == accepted, "a paused server goes on accepting")
}

// Independent: one connection lasts until all the others were served and closed, or all of them
// last until all are being served: nobody waits for another connection to end.
func Independent() {
	n, k := sym.Param("servers", 1), sym.Param("conns", 2)
	var (
		conns   []*conn
		servers []*tcp.Server
		ls      []*listener
		meet    = sym.Bool("meet")
		slow    = 0
		begun   = 0
		closed  = 0
		served  = 0
		ready   = false
		done    = make([]bool, n)
		all     = false
	)
	if !meet {
		if n*k > 6 {
			// a crowd: the first one, one in the middle or the last one lasts
			slow = []int{0, n * k / 2, n*k - 1}[sym.Choice("slow", 3)]
		} else {
			slow = sym.Choice("slow", n*k)
		}
	}
	for i := 0; i < n; i++ {
		l := &listener{failAt: -1, closeErr: errClose, acceptErr: errAccept}
		for j := 0; j < k; j++ {
			c := &conn{id: i*k + j, fails: sym.Param("faults", 0)&4 != 0}
			c.onClose = func() {
				if closed++; !meet && c.id != slow && closed == n*k-1 {
					ready = true
				}
			}
			l.conns = append(l.conns, c)
			conns = append(conns, c)
		}
		ls = append(ls, l)
		servers = append(servers, tcp.NewServer(deadliner{l}, func(nc net.Conn) {
			c := nc.(*conn)
			c.handled++
			c.running = true
			if begun++; meet && begun == n*k {
				ready = true
			}
			if meet || c.id == slow {
				sym.Await(&ready)
			}
			c.running = false
			if served++; served == n*k {
				all = true
			}
		}))
	}
	if n*k == 1 {
		ready = true
	}
	for i := range servers {
		i := i
		go func() {
			_ = servers[i].Start()
			done[i] = true
		}()
	}
	sym.Await(&all)
	sym.Reach("served")
	tcp.StopAll(servers)
	for i := range servers {
		sym.Await(&done[i])
	}
	for _, c := range conns {
		sym.Assert(c.handled == 1 && c.closed == 1, "a connection is not served and closed exactly once")
	}
}
