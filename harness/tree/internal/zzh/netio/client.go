// Package netio holds the harnesses of the network layer.
package netio

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

var (
	errRead     = errors.New("read failed")
	errDeadline = errors.New("deadline failed")
	errWrite    = errors.New("write failed")
	errClose    = errors.New("close failed")
)

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

// scripted is a connection with arbitrary behaviour.
type scripted struct {
	reads     int
	deadlines []time.Time
	fresh     bool // a deadline was set since the last read
	last      []byte
	lastErr   error
	written   []byte
	writeErr  error
	closed    int
	dlErr     bool
	fixed     bool // a well-behaved connection
}

func (s *scripted) Read(b []byte) (int, error) {
	s.reads++
	sym.Assert(s.fresh, "the connection is read without renewing the deadline")
	s.fresh = false
	n := 0
	if s.fixed {
		n = copy(b, filler(1+s.reads%len(b)))
		s.last, s.lastErr = append([]byte(nil), b[:n]...), nil
		return n, nil
	}
	if len(b) > 8 {
		// a large buffer: a byte, half of it, or all of it, the last byte of which is arbitrary
		n = []int{0, 1, len(b) / 2, len(b)}[sym.Choice("rn", 4)]
		for i := 0; i < n; i++ {
			b[i] = byte('a' + (s.reads*5+i)%26)
		}
		if n > 0 {
			b[n-1] = sym.Byte("rb")
		}
	} else {
		n = sym.Choice("rn", len(b)+1)
		for i := 0; i < n; i++ {
			b[i] = sym.Byte("rb")
		}
	}
	s.last = append([]byte(nil), b[:n]...)
	s.lastErr = nil
	if n == 0 || sym.Bool("rerr") {
		s.lastErr = []error{errRead, io.EOF, timeoutErr{}}[sym.Choice("rkind", 3)]
	}
	return n, s.lastErr
}

func (s *scripted) Write(b []byte) (int, error) {
	s.written = append(s.written, b...)
	if !s.fixed && sym.Bool("werr") {
		s.writeErr = errWrite
		return sym.Choice("wpart", 2) * len(b) / 2, errWrite
	}
	s.writeErr = nil
	return len(b), nil
}

func (s *scripted) Close() error                       { s.closed++; return errClose }
func (s *scripted) LocalAddr() net.Addr                { return nil }
func (s *scripted) RemoteAddr() net.Addr               { return addr{} }
func (s *scripted) SetDeadline(t time.Time) error {
	sym.Fail("the time to read in is imposed on writing")
	return nil
}
func (s *scripted) SetWriteDeadline(t time.Time) error {
	sym.Fail("the time to read in is imposed on writing")
	return nil
}
func (s *scripted) SetReadDeadline(t time.Time) error {
	s.deadlines = append(s.deadlines, t)
	if s.dlErr {
		return errDeadline
	}
	s.fresh = true
	return nil
}

// Client: any history of k reads, unreads and writes over a connection with any behaviour.
func Client() {
	k, size := sym.Param("k", 3), sym.Param("size", 2)
	conn := &scripted{}
	timeout := time.Duration(sym.Param("timeout", 5))*time.Second + time.Duration(sym.Param("ms", 0))*time.Millisecond
	memory := make([]byte, size+3) // the rest is somebody else's
	c := tcp.NewClient(conn, timeout, memory[:size])
	var pending, given []byte
	big := sym.Param("big", 0)
	// a long life before
	for i := 0; i < sym.Param("warm", 0); i++ {
		conn.fixed = true
		t0 := time.Now()
		data, err := c.Read()
		sym.Assert(err == nil && conn.reads == i+1 && string(data) == string(conn.last), "the bytes returned are not those received")
		d := conn.deadlines[len(conn.deadlines)-1]
		sym.Assert(len(conn.deadlines) == i+1 && !d.Before(t0.Add(timeout)) && !d.After(time.Now().Add(timeout)), "the deadline is not the configured timeout from now")
		if i%3 == 1 {
			rest := data[len(data)/2:]
			c.Unread(rest)
			again, err := c.Read()
			sym.Assert(err == nil && conn.reads == i+1 && string(again) == string(rest), "bytes that were put back are not returned next")
		}
		conn.written = nil
		sym.Assert(c.Write(data) == nil && string(conn.written) == string(data), "the bytes written are not those given")
		conn.fixed = false
	}
	for i := 0; i < k; i++ {
		switch sym.Choice("op", 5) {
		case 0:
			before, t0 := conn.reads, time.Now()
			conn.dlErr = len(pending) == 0 && sym.Bool("dlerr")
			nd := len(conn.deadlines)
			data, err := c.Read()
			t1 := time.Now()
			if len(pending) > 0 {
				sym.Reach("pending")
				sym.Assert(err == nil && string(data) == string(pending), "bytes that were put back are not returned next")
				sym.Assert(conn.reads == before, "the connection is read although bytes were put back")
				pending, given = nil, data
				continue
			}
			if conn.dlErr {
				sym.Reach("deadline error")
				sym.Assert(err == errDeadline && len(data) == 0 && conn.reads == before, "a failure to set the deadline is not reported")
				continue
			}
			sym.Reach("read")
			sym.Assert(conn.reads == before+1, "one read does not read the connection once")
			sym.Assert(string(data) == string(conn.last), "the bytes returned are not those received")
			if len(conn.last) > 0 {
				// what comes together with an error is not to be taken for lost: the next read fails
				sym.Reach("data")
				sym.Assert(err == nil, "bytes are received together with an error, so that nobody looks at them")
			} else {
				sym.Assert(err == conn.lastErr, "the error of the connection is lost or replaced")
			}
			sym.Assert(len(conn.deadlines) == nd+1, "the deadline is not renewed exactly once")
			given = data
			d := conn.deadlines[nd]
			sym.Assert(!d.Before(t0.Add(timeout)) && !d.After(t1.Add(timeout)), "the deadline is not the configured timeout from now")
		case 1:
			n := sym.Choice("un", 3)
			b := sym.Bytes("u", n)
			if n == 2 {
				b = append(b, filler(big)...)
			}
			c.Unread(b)
			pending = append([]byte(nil), b...)
		case 2:
			b := append(filler(big), sym.Bytes("w", sym.Choice("wn", 3))...)
			conn.written = nil
			err := c.Write(b)
			sym.Reach("write")
			sym.Assert(string(conn.written) == string(b), "the bytes written are not those given")
			sym.Assert(err == conn.writeErr, "the error of a write is lost or made up")
		case 4:
			// a part of what was read is put back, as it lies in the buffer of the client
			given = given[sym.Choice("cut", min(len(given), 2)+1):]
			pending = append([]byte(nil), given...)
			c.Unread(given)
			sym.Reach("part")
		case 3:
			n := conn.closed
			err := c.Close()
			sym.Assert(conn.closed == n+1 && err == errClose, "closing the client does not close its connection")
			sym.Assert(c.Conn() == net.Conn(conn) && c.Remote() == net.Addr(addr{}), "the client names another connection")
		}
	}
	sym.Assert(string(memory[size:]) == "\x00\x00\x00", "memory behind the buffer of the client is overwritten")
	sym.ObserveInt("reads", conn.reads)
	sym.Reach("done")
}

func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + i%26)
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Circular: the in-memory client replays its pieces in a circle, bytes put back come first.
func Circular() {
	k, p := sym.Param("k", 5), sym.Param("pieces", 2)
	var data [][]byte
	for i := 0; i < p; i++ {
		data = append(data, sym.Bytes("d", sym.Param("size", 2)))
	}
	c := dummy.NewCircularClient(data...)
	one := sym.Bool("one")
	if one {
		c = c.OneTime()
	}
	next, reads, closed := 0, 0, false
	var pending []byte
	for i := 0; i < k; i++ {
		switch sym.Choice("op", 4) {
		case 0, 3:
			b, err := c.Read()
			if closed || one && reads > 0 {
				sym.Reach("eof")
				sym.Assert(err != nil && len(b) == 0, "a closed client still returns data")
				continue
			}
			reads++
			sym.Assert(err == nil, "an open client fails")
			if len(pending) > 0 {
				sym.Assert(string(b) == string(pending), "bytes that were put back are not returned next")
				pending = nil
				continue
			}
			sym.Reach("piece")
			sym.Assert(string(b) == string(data[next]), "the pieces are not replayed in order")
			next = (next + 1) % p
		case 1:
			b := sym.Bytes("u", sym.Choice("un", 3))
			c.Unread(b)
			pending = b
		case 2:
			sym.Assert(c.Close() == nil, "closing fails")
			closed = true
		}
	}
	w := dummy.NewSinkholeWriter()
	a, b := sym.Bytes("a", 2), sym.Bytes("b", 1)
	sym.Assert(w.Write(a) == nil && w.Write(nil) == nil && w.Write(b) == nil, "the sink fails")
	sym.Assert(string(w.Data) == string(a)+string(b), "the sink loses data")
	sym.ObserveInt("reads", reads)
	sym.Reach("done")
}
