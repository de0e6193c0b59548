package h1

import (
	"errors"
	"io"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/protocol/http1"
	"github.com/indigo-web/indigo/internal/tcp"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// consume reads a body in one of the ways a handler can and returns what it got.
func consume(body http.Body, mode int) (got []byte, err error) {
	switch mode {
	case 0:
		got, err = body.Bytes()
		again, err2 := body.Bytes()
		if err == nil {
			sym.Assert(err2 == nil && string(again) == string(got), "asking for the whole body twice yields another body")
		}
		return append([]byte(nil), got...), err
	case 1:
		s, err := body.String()
		return append([]byte(nil), s...), err
	case 2:
		err = body.Callback(func(b []byte) error {
			got = append(got, b...)
			return nil
		})
		return got, err
	case 3:
		for {
			b, err := body.Retrieve()
			got = append(got, b...)
			if err == io.EOF {
				return got, nil
			}
			if err != nil {
				return got, err
			}
		}
	case 4:
		buff := make([]byte, sym.Param("r", 2))
		for {
			n, err := body.Read(buff)
			sym.Assert(n >= 0 && n <= len(buff), "a read returns an impossible count")
			got = append(got, buff[:n]...)
			if err == io.EOF {
				return got, nil
			}
			if err != nil {
				return got, err
			}
		}
	case 5:
		err = body.Discard()
		return nil, err
	}
	return nil, nil
}

type bodyWorld struct {
	w      *wire
	client tcp.Client
	body   *http1.Body
	req    *http.Request
}

func newBody(cfg config.Config, stream []byte, cuts int) *bodyWorld {
	w := &wire{stream: stream, cuts: chop(cuts, len(stream)), end: ending(), fin: sym.Bool("fin")}
	client := tcp.NewClient(w, time.Second, make([]byte, cfg.TCP.ReadBufferSize))
	body := http1.NewBody(client, construct.Chunked(cfg.Body), cfg.Body)
	return &bodyWorld{w, client, body, construct.Request(cfg, client, body)}
}

// rest reads what the connection still has.
func (b *bodyWorld) rest() (rest []byte) {
	for i := 0; ; i++ {
		data, err := b.client.Read()
		rest = append(rest, data...)
		if err != nil {
			return rest
		}
	}
}

// Plain: a body of l announced bytes in a stream of n bytes, read in any way.
func Plain() {
	n := sym.Param("n", 3)
	mode := sym.Param("mode", 0)
	cfg := smallConfig()
	cfg.TCP.ReadBufferSize = sym.Param("buff", 2)
	max := sym.Param("max", 2)
	cfg.Body.MaxSize = uint(max)
	stream := sym.Bytes("s", n)
	b := newBody(cfg, stream, sym.Param("cuts", 1))
	l := sym.Choice("len", n+2)
	b.req.ContentLength = l
	b.body.Init(b.req)
	got, err := consume(b.body, mode)
	sym.ObserveBytes("got", got)
	sym.ObserveBool("err", err != nil)
	switch {
	case l > max:
		sym.Reach("too large")
		sym.Assert(err == status.ErrBodyTooLarge, "a body over the limit is not refused")
		sym.Assert(len(got) == 0, "a body over the limit is delivered")
		sym.Assert(b.body.Discard() != nil, "a refused body can be skipped")
	case l > n:
		sym.Reach("truncated")
		sym.Assert(err != nil, "a truncated body is taken for a complete one")
		sym.Assert(len(got) <= n && string(got) == string(stream[:len(got)]), "a truncated body delivers other bytes")
		sym.Assert(b.body.Discard() != nil, "a truncated body can be skipped")
	default:
		sym.Reach("complete")
		sym.Assert(err == nil, "a complete body is refused")
		if mode != 5 {
			sym.Assert(string(got) == string(stream[:l]), "the body is not the announced bytes")
		}
		reads := b.w.reads
		data, err := b.body.Retrieve()
		sym.Assert(len(data) == 0 && err == io.EOF, "there is something after the end of the body")
		k, err := b.body.Read(make([]byte, 2))
		sym.Assert(k == 0 && err == io.EOF, "there is something after the end of the body")
		sym.Assert(b.body.Discard() == nil, "a complete body cannot be skipped")
		sym.Assert(b.w.reads == reads, "the connection is read after the end of the body")
		sym.Assert(string(b.rest()) == string(stream[l:]), "what follows the body is lost or repeated")
	}
}

// Callbacks: an error of the callback ends the reading and is returned as it is.
func Callbacks() {
	n := sym.Param("n", 3)
	cfg := smallConfig()
	cfg.TCP.ReadBufferSize = sym.Param("buff", 2)
	cfg.Body.MaxSize = 16
	data := sym.Bytes("s", n)
	stream := append([]byte(nil), data...)
	chunked := sym.Param("chunked", 0) == 1
	if chunked {
		if n > 0 {
			stream = append(append([]byte{hexDigits[n], '\r', '\n'}, data...), "\r\n"...)
		}
		stream = append(stream, "0\r\n\r\n"...)
	}
	end := len(stream)
	stream = append(stream, "xy"...)
	b := newBody(cfg, stream, sym.Param("cuts", 1))
	b.req.Encoding.Chunked = chunked
	if !chunked {
		b.req.ContentLength = n
	}
	b.body.Init(b.req)
	own := [...]error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, status.ErrBadRequest}[sym.Choice("error", 4)]
	after := sym.Choice("after", n+1)
	var got []byte
	failed := false
	err := b.body.Callback(func(p []byte) error {
		sym.Assert(!failed, "the callback is called again after it failed")
		got = append(got, p...)
		if len(got) > after {
			failed = true
			return own
		}
		return nil
	})
	sym.ObserveBytes("got", got)
	sym.ObserveBool("err", err != nil)
	sym.Assert(len(got) <= n && string(got) == string(data[:len(got)]), "the callback gets other bytes than the body's")
	if failed {
		sym.Reach("failed")
		sym.Assert(errors.Is(err, own), "the error of the callback is lost")
	} else {
		sym.Reach("complete")
		sym.Assert(err == nil && len(got) == n, "the callback does not get the whole body")
	}
	sym.Assert(b.body.Discard() == nil, "the rest of a body cannot be skipped")
	sym.Assert(string(b.rest()) == string(stream[end:]), "what follows the body is lost or repeated")
}

// Damaged: an error in the chunks is reported and stays reported, whatever follows.
func Damaged() {
	mode := sym.Param("mode", 0)
	cfg := smallConfig()
	cfg.TCP.ReadBufferSize = sym.Param("buff", 3)
	cfg.Body.MaxSize = 16
	x := sym.String("x", 1)
	valid := "2\r\nab\r\n0\r\n\r\n"
	bad := [...]string{
		"x\r\n", "1\r\nab", "1\r\na\r" + x, "\r\n", "-1\r\n",
	}[sym.Param("bad", 0)]
	if sym.Param("bad", 0) == 2 {
		sym.Assume(x[0] != '\n')
	}
	before := ""
	if sym.Param("before", 0) == 1 {
		before = "1\r\nq\r\n"
	}
	b := newBody(cfg, []byte(before+bad+valid+valid), sym.Param("cuts", 0))
	b.req.Encoding.Chunked = true
	b.body.Init(b.req)
	got, err := consume(b.body, mode)
	sym.ObserveBytes("got", got)
	sym.Assert(err != nil, "broken chunks are not reported")
	sym.Assert(len(got) <= 2, "bytes behind broken chunks are delivered")
	sym.Reach("refused")
	for i := 0; i < 3; i++ {
		data, err := b.body.Retrieve()
		sym.Assert(len(data) == 0 && err != nil && err != io.EOF, "broken chunks are reported only once")
	}
	data, err := b.body.Bytes()
	sym.Assert(len(data) == 0 && err != nil, "broken chunks are reported only once")
	sym.Assert(b.body.Discard() != nil, "a broken body can be skipped")
}

const hexDigits = "0123456789abcdef"

// Chunked: a body of k chunks of any sizes, cut anywhere, followed by x bytes.
func Chunked() {
	k, m, x := sym.Param("k", 1), sym.Param("m", 2), sym.Param("x", 1)
	mode := sym.Param("mode", 0)
	cfg := smallConfig()
	cfg.TCP.ReadBufferSize = sym.Param("buff", 3)
	max := sym.Param("max", 3)
	cfg.Body.MaxSize = uint(max)
	var stream, want []byte
	for i := 0; i < k; i++ {
		n := 1 + sym.Choice("n", m)
		data := sym.Bytes("d", n)
		stream = append(stream, hexDigits[n])
		if sym.Param("ext", 0) == 1 {
			stream = append(stream, ";e"...)
		}
		stream = append(stream, "\r\n"...)
		stream = append(stream, data...)
		stream = append(stream, "\r\n"...)
		want = append(want, data...)
	}
	stream = append(stream, "0\r\n"...)
	trailer := sym.Param("trailer", 0) == 1
	if trailer {
		stream = append(stream, "T: v\r\n"...)
	}
	stream = append(stream, "\r\n"...)
	end := len(stream)
	stream = append(stream, sym.Bytes("x", x)...)
	full := stream
	if t := sym.Param("cutoff", 0); t > 0 {
		stream = stream[:end-t]
	}
	b := newBody(cfg, stream, sym.Param("cuts", 1))
	b.req.Encoding.Chunked = true
	b.req.Encoding.HasTrailer = trailer
	b.body.Init(b.req)
	got, err := consume(b.body, mode)
	sym.ObserveBytes("got", got)
	sym.ObserveBool("err", err != nil)
	switch {
	case len(want) > max:
		sym.Reach("too large")
		sym.Assert(err != nil, "a body over the limit is not refused")
		sym.Assert(len(got) <= max && string(got) == string(want[:len(got)]), "more than the limit is delivered")
		sym.Assert(b.body.Discard() != nil, "a refused body can be skipped")
	case len(stream) < end:
		sym.Reach("truncated")
		sym.Assert(err != nil, "a truncated body is taken for a complete one")
		sym.Assert(len(got) <= len(want) && string(got) == string(want[:len(got)]), "a truncated body delivers other bytes")
		sym.Assert(b.body.Discard() != nil, "a truncated body can be skipped")
	default:
		sym.Reach("complete")
		sym.Assert(err == nil, "a complete body is refused")
		if mode != 5 {
			sym.Assert(string(got) == string(want), "the body is not the concatenation of its chunks")
		}
		reads := b.w.reads
		data, err := b.body.Retrieve()
		sym.Assert(len(data) == 0 && err == io.EOF, "there is something after the end of the body")
		sym.Assert(b.body.Discard() == nil, "a complete body cannot be skipped")
		sym.Assert(b.w.reads == reads, "the connection is read after the end of the body")
		sym.Assert(string(b.rest()) == string(full[end:]), "what follows the body is lost or repeated")
	}
}

// Huge: any announced length over the limit is refused at once, without memory or reading.
func Huge() {
	cfg := smallConfig()
	max := sym.Uint64("max")
	sym.Assume(max < 1<<62)
	cfg.Body.MaxSize = uint(max)
	b := newBody(cfg, []byte("ab"), 0)
	b.w.noReads = true
	l := sym.Uint64("len")
	sym.Assume(l < 1<<63 && l > max)
	b.req.ContentLength = int(l)
	b.body.Init(b.req)
	got, err := consume(b.body, sym.Param("mode", 0))
	sym.Reach("refused")
	sym.ObserveInt("got", len(got))
	sym.Assert(err == status.ErrBodyTooLarge && len(got) == 0, "a body over the limit is not refused")
}
