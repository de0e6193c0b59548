package h1

import (
	"io"
	"net"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router/simple"
)

// tuned is a connection that watches how it is read.
type tuned struct {
	*wire
	size     int
	timeout  time.Duration
	begin    time.Time
	deadline time.Time
	fresh    bool
	from     net.Addr
}

func (t *tuned) RemoteAddr() net.Addr { return t.from }

func (t *tuned) SetReadDeadline(d time.Time) error {
	t.deadline, t.fresh = d, true
	return nil
}

func (t *tuned) SetDeadline(d time.Time) error { return t.SetReadDeadline(d) }

func (t *tuned) Read(b []byte) (int, error) {
	sym.Assert(t.fresh, "the connection is read without renewing the deadline")
	t.fresh = false
	sym.Assert(len(b) == t.size, "the read buffer is not as large as configured")
	now := time.Now()
	sym.Assert(!t.deadline.Before(t.begin.Add(t.timeout)) && !t.deadline.After(now.Add(t.timeout)), "the read timeout is not the configured one")
	t.begin = now
	return t.wire.Read(b)
}

// bulk is an attachment that watches how it is read.
type bulk struct {
	max  int
	left int
}

func (s *bulk) Read(b []byte) (int, error) {
	if len(b) > s.max {
		s.max = len(b)
	}
	if s.left == 0 {
		return 0, io.EOF
	}
	n := s.left
	if n > len(b) {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		b[i] = 'z'
	}
	s.left -= n
	return n, nil
}

type peer struct{ addr }

// Settings: a connection is read, limited and answered as configured, and the handlers of a simple
// router see every request, or the error that ends the connection.
func Settings() {
	cfg := smallConfig()
	cfg.TCP.ReadBufferSize = sym.Param("size", 64)
	cfg.TCP.ReadTimeout = time.Duration(sym.Param("timeout", 5)) * time.Second
	cfg.HTTP.FileBuffSize = 20
	cfg.HTTP.ResponseBuffSize = sym.Param("resp", 16)
	cfg.Headers.Default = map[string]string{"X-Def": "d"}
	n := sym.Choice("n", 12)
	x := string([]byte{sym.Byte("x")})
	sym.Assume(x[0] >= 'a' && x[0] <= 'z')
	var (
		req    string
		length int
		code   status.Code = status.HeaderFieldsTooLarge
		bad    bool // refused before a handler sees it
		broken bool // its body is refused
	)
	chunked := sym.Param("kind", 0) == 1 // the error is the one of the chunked-body library
	switch sym.Param("kind", 0) {
	case 0: // the body as a whole
		cfg.Body.MaxSize = 5
		req, length = "POST / HTTP/1.1\r\nContent-Length: "+num(n)+"\r\n\r\n"+repeat(x, n), n
		broken = n > 5
	case 1: // a chunk of it
		cfg.Body.MaxChunkSize = 5
		req, length = "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"+"0123456789ab"[n:n+1]+"\r\n"+repeat(x, n)+"\r\n", n
		if n == 0 {
			break
		}
		req += "0\r\n\r\n"
		broken = n > 5
	case 2:
		cfg.Headers.MaxKeyLength = 5
		req, bad = "GET / HTTP/1.1\r\n"+repeat(x, n+1)+": v\r\n\r\n", n+1 > 5
	case 3:
		cfg.Headers.MaxValueLength = 5
		req, bad = "GET / HTTP/1.1\r\nK:"+repeat(x, n)+"\r\n\r\n", n > 5
		sym.Assume(n != 5)
	case 4:
		cfg.Headers.Number.Maximal = 5
		req, bad = "GET / HTTP/1.1\r\n"+repeat(x+": v\r\n", n)+"\r\n", n > 5
	case 5:
		cfg.Headers.KeySpace.Maximal = 5
		req, bad = "GET / HTTP/1.1\r\n"+repeat(x+": v\r\n", n)+"\r\n", n > 5
	case 6:
		cfg.Headers.ValueSpace.Maximal = 16
		req, bad = "GET / HTTP/1.1\r\nA: abcd\r\nB:"+repeat(x, n)+"\r\n\r\n", n+4 > 14
		sym.Assume(n < 7 || n > 10)
	case 7:
		cfg.URL.BufferSize.Maximal = 20
		req, bad, code = "GET /"+repeat(x, n)+" HTTP/1.1\r\n\r\n", n > 7, status.RequestURITooLong
		sym.Assume(n < 4 || n > 8)
	}
	enc := encryption.Token(sym.Byte("enc"))
	again := "GET /again HTTP/1.1\r\n\r\n"
	t := &tuned{wire: &wire{stream: []byte(req + again), end: ending(), fin: sym.Bool("fin")}, size: cfg.TCP.ReadBufferSize, timeout: cfg.TCP.ReadTimeout, from: peer{}}
	file := &bulk{left: 50}
	var (
		errs []error
		seen int
	)
	look := func(r *http.Request) {
		sym.Assert(r.Env.Encryption == enc, "a handler sees another encryption than the one of the connection")
		sym.Assert(r.Remote == net.Addr(peer{}), "a handler sees another address than the one of the peer")
	}
	t.begin = time.Now()
	serve.HTTP1(cfg, t, enc, simple.New(func(r *http.Request) *http.Response {
		seen++
		look(r)
		sym.Assert(r.Env.Error == nil, "a request is shown with an error")
		if seen == 2 {
			sym.Assert(r.Path == "/again", "another request than the next one is shown")
			return http.Respond(r).Attachment(file, 50)
		}
		body, err := r.Body.Bytes()
		if broken {
			sym.Reach("broken")
			he, ok := err.(status.HTTPError)
			sym.Assert(err != nil && (chunked || ok && he.Code == status.RequestEntityTooLarge), "a body beyond the limit is accepted")
		} else {
			sym.Assert(err == nil && string(body) == repeat(x, length), "a body within the limit is refused")
		}
		return http.Error(r, err)
	}, func(r *http.Request) *http.Response {
		errs = append(errs, r.Env.Error)
		look(r)
		return http.Error(r, r.Env.Error)
	}).Initialize())
	sym.ObserveInt("seen", seen)
	sym.Assert(len(errs) == 1, "the end of a connection is not told exactly once")
	he, ok := errs[0].(status.HTTPError)
	sym.Assert(ok, "the end of a connection is not an HTTP error")
	reply, rest := readHead(string(t.out))
	sym.Assert(reply.has(pair{"X-Def", "d"}) == 1, "a default header is missing")
	switch {
	case bad:
		sym.Reach("bad")
		sym.Assert(seen == 0 && he.Code == code && reply.code == num(int(code)), "a request beyond the limits is not refused by its code")
		return
	case broken:
		sym.Assert(seen == 1 && (chunked || reply.code == "413"), "a body beyond the limit is not refused")
		return
	}
	sym.Reach("good")
	sym.Assert(seen == 2 && reply.code == "200" && he == status.ErrCloseConnection, "a request within the limits is refused")
	reply, rest = readHead(rest)
	sym.Assert(reply.code == "200" && rest == repeat("z", 50), "an attachment is not sent whole")
	sym.Assert(file.max <= 20, "a file is read into a larger buffer than configured")
}

func num(n int) (s string) {
	for ; n > 9; n /= 10 {
		s = string([]byte{byte('0' + n%10)}) + s
	}
	return string([]byte{byte('0' + n%10)}) + s
}
