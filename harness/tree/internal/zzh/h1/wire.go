package h1

import (
	"errors"
	"io"
	"net"
	"time"

	sym "github.com/indigo-web/indigo/internal/zzsym"
)

var (
	errReset = errors.New("connection reset")
	errWrite = errors.New("broken pipe")
)

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

// wire is a connection whose peer has sent stream, in pieces that end at the cuts, and then
// nothing but end.
type wire struct {
	stream  []byte
	cuts    []int
	pos     int
	end     error
	out     []byte
	writes  int
	failAt  int // the write which fails, from 1
	closed  int
	reads   int
	ended   int
	noReads bool
	fin     bool // the last bytes come together with the end
}

func (w *wire) Read(b []byte) (int, error) {
	sym.Assert(!w.noReads, "the connection is read although nothing more is wanted")
	w.reads++
	if w.pos == len(w.stream) {
		w.ended++
		sym.Assert(w.ended < 4, "a closed connection is read over and over")
		return 0, w.end
	}
	end := len(w.stream)
	for _, c := range w.cuts {
		if c > w.pos && c < end {
			end = c
		}
	}
	n := copy(b, w.stream[w.pos:end])
	w.pos += n
	if w.fin && w.pos == len(w.stream) {
		return n, w.end
	}
	return n, nil
}

func (w *wire) Write(b []byte) (int, error) {
	w.writes++
	if w.writes == w.failAt {
		return 0, errWrite
	}
	w.out = append(w.out, b...)
	return len(b), nil
}

func (w *wire) Close() error                     { w.closed++; return nil }
func (w *wire) LocalAddr() net.Addr              { return addr{} }
func (w *wire) RemoteAddr() net.Addr             { return addr{} }
func (w *wire) SetDeadline(time.Time) error      { return nil }
func (w *wire) SetReadDeadline(time.Time) error  { return nil }
func (w *wire) SetWriteDeadline(time.Time) error { return nil }

// chop chooses up to k cuts of a stream of n bytes.
func chop(k, n int) (cuts []int) {
	prev := 0
	for i := 0; i < k; i++ {
		c := sym.Choice("cut", n+1)
		sym.Assume(c >= prev)
		prev = c
		cuts = append(cuts, c)
	}
	return cuts
}

// ending chooses how the peer goes away.
func ending() error {
	if sym.Bool("reset") {
		return errReset
	}
	return io.EOF
}
