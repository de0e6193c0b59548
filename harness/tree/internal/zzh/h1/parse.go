// Package h1 holds the harnesses of the HTTP/1 implementation.
package h1

import (
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/protocol/http1"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// smallConfig has the default limits, but small initial buffers, so that they grow.
func smallConfig() config.Config {
	cfg := config.Default()
	cfg.URL.BufferSize.Default = 4
	cfg.Headers.KeySpace.Default = 4
	cfg.Headers.ValueSpace.Default = 4
	cfg.Headers.Number.Default = 1
	cfg.URL.Query.PreAlloc = 0
	cfg.Headers.MaxEncodingTokens = 3
	cfg.HTTP.ResponseBuffSize = 16
	cfg.HTTP.FileBuffSize = 16
	cfg.TCP.ReadBufferSize = 16
	return cfg
}

type outcome struct {
	req   *http.Request
	state int // 0: more data is wanted, 1: complete, 2: refused
	err   error
	extra []byte
}

func newParser(cfg config.Config) (*http1.Parser, *http.Request) {
	client := dummy.NewNopClient()
	body := http1.NewBody(client, construct.Chunked(cfg.Body), cfg.Body)
	req := construct.Request(cfg, client, body)
	k, v, l := construct.Buffers(cfg)
	return http1.NewParser(req, k, v, l, cfg.Headers), req
}

// feed gives the pieces to the parser; what follows the piece which completes the request is extra.
// The network buffer is reused between the pieces, as the real client does.
func feed(cfg config.Config, pieces [][]byte) (o outcome) {
	p, req := newParser(cfg)
	o.req = req
	biggest := 0
	for _, piece := range pieces {
		if len(piece) > biggest {
			biggest = len(piece)
		}
	}
	buff := make([]byte, biggest)
	for _, piece := range pieces {
		if o.state == 1 {
			o.extra = append(o.extra, piece...)
			continue
		}
		if o.state == 2 {
			return o
		}
		n := copy(buff, piece)
		state, extra, err := p.Parse(buff[:n])
		switch state {
		case http1.Pending:
			sym.Assert(err == nil, "an unfinished request is reported with an error")
		case http1.HeadersCompleted:
			sym.Assert(err == nil, "a complete request is reported with an error")
			o.state = 1
			o.extra = append(o.extra, extra...)
		case http1.Error:
			sym.Assert(err != nil, "a refused request comes without an error")
			o.state, o.err = 2, err
		default:
			sym.Fail("the parser reports an unknown state")
		}
	}
	return o
}

func raw() []byte {
	n := sym.Param("n", 2)
	s := sym.String("b", n)
	end := "\r\n\r\nxy"
	switch sym.Param("t", 0) {
	case 0:
		s = s + " / HTTP/1.1" + end
	case 1:
		s = "GET " + s + " HTTP/1.1" + end
	case 2:
		s = "GET / " + s + end
	case 3:
		s = "GET / HTTP/1.1\r\n" + s + end
	case 4:
		s = "GET / HTTP/1.1\r\nContent-Length:" + s + end
	case 5:
		s = "GET / HTTP/1.1\nTransfer-Encoding:" + s + "chunked" + end
	case 6:
		s = "GET / HTTP/1.1\r\nA: b\r\n" + s + ": v" + end
	case 7:
		s = "GET / HTTP/1.1\r\nA" + s + "b" + end
	case 8:
		s = "POST / HTTP/1.0\r\nContent-Length: 1\r\nContent-Length: " + s + end
	case 9:
		s = "GET /a?b" + s + "c HTTP/1.1" + end
	case 10:
		// nothing but arbitrary bytes
	case 11:
		s = "PUT /%" + s + "/ HTTP/1.1\n\nx"
	case 12:
		s = "GET / HTTP/1.1\r\nUpgrade:" + s + "http/1.0" + end
	case 13:
		s = "GET / HTTP/1.1\r\nContent-Encoding:" + s + ",b\nContent-Encoding:c" + end
	case 14:
		s = "GET / HTTP/1.1\r\nTransfer-Encoding: chunked\nTransfer-Encoding:" + s + end
	}
	switch sym.Param("t", 0) {
	case 20:
		s = "GET /?" + s + " HTTP/1.1\r\nCookie: a" + end
	case 21:
		s = "GET / HTTP/1.1\r\nCookie:" + s + end
	case 22:
		s = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + s
	case 23:
		s = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTrailer: a\r\n\r\n1\r\na" + s + "0\r\n" + s
	case 24:
		s = "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\n" + s + "GET / HTTP/1.1\r\n\r\n"
	case 25:
		s = "POST / HTTP/1.1\r\nContent-Length: 3\r\nTransfer-Encoding: " + s + end
	case 26:
		s = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nf" + s + "fffffffffffff\r\n"
	case 27:
		s = "GET / HTTP/1.1\r\nHost: " + s + "\r\nAccept: " + s + ";q=0.1,b;c" + end
	}
	return []byte(s)
}

// Cuts: a request cut anywhere is treated like the uncut one.
func Cuts() {
	b := raw()
	cfg := smallConfig()
	whole := feed(cfg, [][]byte{b})
	var parts [][]byte
	switch pieces := sym.Param("pieces", 2); pieces {
	case 0: // byte by byte
		for i := range b {
			parts = append(parts, b[i:i+1])
		}
	case 2:
		i := sym.Choice("i", len(b)+1)
		parts = append(parts, b[:i], b[i:])
	case 3:
		i := sym.Choice("i", len(b)+1)
		j := sym.Choice("j", len(b)+1)
		sym.Assume(i <= j)
		parts = append(parts, b[:i], b[i:j], b[j:])
	}
	cut := feed(cfg, parts)
	sym.ObserveInt("state", whole.state)
	sym.Assert(cut.state == whole.state, "a request is accepted or refused depending on how it is cut")
	switch whole.state {
	case 0:
		sym.Reach("pending")
	case 1:
		sym.Reach("complete")
		same(whole, cut)
	case 2:
		sym.Reach("refused")
	}
}

func same(a, b outcome) {
	sym.Assert(string(a.extra) == string(b.extra), "the bytes after the head depend on how it is cut")
	x, y := a.req, b.req
	sym.ObserveStr("path", x.Path)
	sym.Assert(x.Method == y.Method, "the method depends on how the request is cut")
	sym.Assert(x.Path == y.Path, "the path depends on how the request is cut")
	sym.Assert(string(x.Query.Raw()) == string(y.Query.Raw()), "the query depends on how the request is cut")
	sym.Assert(x.Proto == y.Proto, "the protocol depends on how the request is cut")
	sym.Assert(x.ContentLength == y.ContentLength, "the content length depends on how the request is cut")
	sym.Assert(x.ContentType == y.ContentType, "the content type depends on how the request is cut")
	sym.Assert(x.Connection == y.Connection, "the connection header depends on how the request is cut")
	sym.Assert(x.Upgrade == y.Upgrade, "the upgrade depends on how the request is cut")
	sym.Assert(x.Encoding.Chunked == y.Encoding.Chunked && x.Encoding.HasTrailer == y.Encoding.HasTrailer, "the framing depends on how the request is cut")
	sameStrings(x.Encoding.Transfer, y.Encoding.Transfer)
	sameStrings(x.Encoding.Content, y.Encoding.Content)
	hx, hy := x.Headers.Unwrap(), y.Headers.Unwrap()
	sym.Assert(len(hx) == len(hy), "the number of headers depends on how the request is cut")
	for i := range hx {
		sym.Assert(hx[i].Key == hy[i].Key && hx[i].Value == hy[i].Value, "a header depends on how the request is cut")
	}
}

func sameStrings(a, b []string) {
	sym.Assert(len(a) == len(b), "the encodings depend on how the request is cut")
	for i := range a {
		sym.Assert(a[i] == b[i], "the encodings depend on how the request is cut")
	}
}
