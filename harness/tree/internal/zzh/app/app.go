// Package app holds the harnesses of the application.
package app

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/zznet"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/simple"
)

var (
	errAccept = errors.New("accept failed")
	errBind   = errors.New("bind failed")
)

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "peer" }

type conn struct {
	from    *listener
	data    string
	written int
	served  int
	closed  int
}

func (c *conn) Read(b []byte) (int, error) {
	if c.data == "" {
		return 0, io.EOF
	}
	n := copy(b, c.data)
	c.data = c.data[n:]
	return n, nil
}
func (c *conn) Write(b []byte) (int, error)      { c.written += len(b); return len(b), nil }
func (c *conn) LocalAddr() net.Addr              { return addr{} }
func (c *conn) RemoteAddr() net.Addr             { return addr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }
func (c *conn) Close() error                     { c.closed++; return nil }

// listener hands out its connections, then fails or blocks until it is closed.
type listener struct {
	addr        string
	conns       []*conn
	next        int
	closed      bool
	interrupted bool
	failing     bool
	ready       bool
}

func (l *listener) update() {
	l.ready = l.closed || l.interrupted || l.next < len(l.conns) || l.failing
}

func (l *listener) Accept() (net.Conn, error) {
	l.update()
	sym.Await(&l.ready)
	if l.closed || l.interrupted || l.next >= len(l.conns) {
		return nil, errAccept
	}
	c := l.conns[l.next]
	l.next++
	l.update()
	return c, nil
}
func (l *listener) Close() error   { l.closed = true; l.update(); return nil }
func (l *listener) Addr() net.Addr { return addr{} }
func (l *listener) SetDeadline(time.Time) error {
	l.interrupted = true
	l.update()
	return nil
}

type world struct {
	app      *indigo.App
	ls       []*listener
	bound    []string
	started  int
	stopped  int
	served   int
	total    int
	all      bool
	up       bool
	handled  []int // per listener: requests that reached the router
	custom   []int // per listener: connections of its own handler
	bindFail int
}

func (w *world) listen(_, a string) (net.Listener, error) {
	if len(w.ls) == w.bindFail {
		return nil, errBind
	}
	l := &listener{addr: a}
	for i := 0; i < sym.Param("conns", 1); i++ {
		l.conns = append(l.conns, &conn{from: l, data: "GET / HTTP/1.1\r\n\r\n"})
		w.total++
	}
	w.ls = append(w.ls, l)
	return l, nil
}

func (w *world) serve(c net.Conn) {
	cc := c.(*conn)
	sym.Assert(cc.closed == 0, "a closed connection is served")
	sym.Assert(w.stopped == 0, "a connection is served after the application was stopped")
	cc.served++
	if w.served++; w.served == w.total {
		w.all = true
	}
}

func newWorld(addrs int) *world {
	w := &world{bindFail: -1}
	zznet.OnListen = w.listen
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = 32
	w.app = indigo.New("one:1").Tune(cfg)
	for i := 1; i < addrs; i++ {
		i := i
		w.app.Listen([]string{"", "two:2", "three:3"}[i], indigo.Listener{
			Listen: w.listen,
			Handler: func(c net.Conn, r router.Router) {
				sym.Assert(c.(*conn).from == w.ls[i], "a connection is handled by the handler of another listener")
				sym.Yield()
				w.serve(c)
				w.custom[i]++
			},
		})
	}
	w.custom = make([]int, addrs)
	w.app.OnBind(func(a string) {
		sym.Assert(w.started == 0, "an address is bound after the start")
		w.bound = append(w.bound, a)
	}).OnStart(func() {
		w.started++
		w.up = true
		sym.Assert(len(w.bound) == addrs, "the start is announced before every address is bound")
	}).OnStop(func() {
		w.stopped++
		for _, l := range w.ls {
			sym.Assert(l.closed, "the stop is announced while a listener is open")
			for i, c := range l.conns {
				if i < l.next {
					sym.Assert(c.closed == 1, "the stop is announced while a connection is open")
				}
			}
		}
	})
	return w
}

func (w *world) router() router.Fabric {
	return simple.New(func(r *http.Request) *http.Response {
		sym.Assert(r.Env.Encryption == encryption.Plain, "a plain listener is taken for an encrypted one")
		sym.Yield()
		w.handled = append(w.handled, 1)
		w.served++
		if w.served == w.total {
			w.all = true
		}
		return r.Respond()
	}, func(r *http.Request) *http.Response {
		return r.Respond().Error(r.Env.Error)
	})
}

func (w *world) settle(addrs int) {
	sym.Assert(w.started == 1 && w.stopped == 1, "start and stop are not announced exactly once")
	names := []string{"one:1", "two:2", "three:3"}
	for i := 0; i < addrs; i++ {
		sym.Assert(w.bound[i] == names[i] && w.ls[i].addr == names[i], "an address is bound out of order or altered")
	}
	for i, l := range w.ls {
		sym.Assert(l.closed, "a listener stays open")
		for j, c := range l.conns {
			if j >= l.next {
				sym.Assert(c.closed == 0 && c.written == 0, "a connection is served that was never accepted")
				continue
			}
			sym.Assert(c.closed == 1, "a connection is not closed exactly once")
			if i == 0 && sym.Param("mode", 0) == 2 {
				sym.Assert(c.written > 0, "a request on the first listener is not answered")
			}
		}
	}
}

// Run: the application is stopped at any moment (mode 0 at once, 1 gracefully), or after every
// connection was served (2 at once, 3 gracefully), or one of its listeners fails (4); optionally it
// is run again.
func Run() {
	addrs, mode := sym.Param("addrs", 1), sym.Param("mode", 0)
	for round := 0; round < sym.Param("rounds", 1); round++ {
		var w *world
		if round == 0 {
			w = newWorld(addrs)
			again = w.app
		} else {
			w = current
			w.ls, w.bound, w.started, w.stopped, w.served, w.total, w.all, w.up = nil, nil, 0, 0, 0, 0, false, false
		}
		current = w
		asked := false
		switch mode {
		case 0, 1, 2, 3:
			go func() {
				if mode >= 2 {
					sym.Await(&w.all)
				} else {
					sym.Await(&w.up)
				}
				asked = true
				if mode%2 == 0 {
					w.app.Stop()
				} else {
					w.app.GracefulStop()
				}
			}()
		case 4:
			which := sym.Choice("which", addrs)
			go func() {
				sym.Await(&w.up)
				asked = true
				w.ls[which].failing = true
				w.ls[which].update()
			}()
		}
		err := w.app.Serve(w.router())
		sym.Assert(asked, "the application stops although nobody asked it to")
		switch mode {
		case 0, 2:
			sym.Assert(err == status.ErrShutdown, "stopping does not return the shutdown error")
		case 1, 3:
			sym.Assert(err == status.ErrGracefulShutdown, "stopping gracefully does not return the graceful shutdown error")
		case 4:
			sym.Assert(err == errAccept, "the error of a listener is not returned")
		}
		if mode == 2 || mode == 3 {
			sym.Reach("served")
			for i := 1; i < addrs; i++ {
				sym.Assert(w.custom[i] == (round+1)*sym.Param("conns", 1), "the connections of a listener are not served by its own handler")
			}
		}
		w.settle(addrs)
		sym.Reach("stopped")
	}
}

var (
	again   *indigo.App
	current *world
)

// Bind: if an address cannot be bound, Serve reports it and leaves nothing open.
func Bind() {
	addrs := sym.Param("addrs", 2)
	w := newWorld(addrs)
	w.bindFail = sym.Choice("fail", addrs)
	err := w.app.Serve(w.router())
	sym.Assert(err == errBind, "the error of binding is not returned")
	sym.Assert(w.started == 0 && w.stopped == 0, "the start is announced although binding failed")
	sym.Assert(len(w.bound) == w.bindFail, "an address is announced as bound although it is not")
	for _, l := range w.ls {
		sym.Assert(l.closed, "a listener stays open after binding failed")
		sym.Assert(l.next == 0, "a connection is accepted although binding failed")
	}
	sym.Reach("failed")
}
