package h1

import (
	"context"
	"io"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// taint is a context a handler has put on.
type taint struct{ context.Context }

type pair struct{ key, val string }

// seen is everything a handler can learn about a request.
type seen struct {
	method      method.Method
	path, query string
	proto       proto.Proto
	headers     []pair
	params      int
	length      int
	transfer    []string
	content     []string
	chunked     bool
	trailer     bool
	ctype, conn string
	upgrade     proto.Proto
	freshCtx    bool
	env         http.Environment
	body        string
	bodyErr     error
}

func clone(s string) string { return string(append([]byte(nil), s...)) }

func clones(l []string) (r []string) {
	for _, s := range l {
		r = append(r, clone(s))
	}
	return r
}

func look(r *http.Request) (s seen) {
	s.method, s.proto, s.upgrade, s.length = r.Method, r.Proto, r.Upgrade, r.ContentLength
	s.path, s.query, s.ctype, s.conn = clone(r.Path), string(r.Query.Raw()), clone(r.ContentType), clone(r.Connection)
	for _, h := range r.Headers.Unwrap() {
		s.headers = append(s.headers, pair{clone(h.Key), clone(h.Value)})
	}
	s.params = len(r.Params.Unwrap())
	s.transfer, s.content = clones(r.Encoding.Transfer), clones(r.Encoding.Content)
	s.chunked, s.trailer = r.Encoding.Chunked, r.Encoding.HasTrailer
	s.freshCtx = r.Ctx == context.Background()
	s.env = r.Env
	return s
}

// app is a router; act answers the i-th request.
type app struct {
	seen []seen
	errs []error
	lost pair
	act  func(i int, r *http.Request, s *seen) *http.Response
}

func (a *app) OnRequest(r *http.Request) *http.Response {
	i := len(a.seen)
	a.seen = append(a.seen, look(r))
	return a.act(i, r, &a.seen[i])
}

func (a *app) OnError(r *http.Request, err error) *http.Response {
	a.errs = append(a.errs, err)
	if len(a.errs) == 1 {
		a.lost = pair{r.Method.String(), clone(r.Path)}
	}
	return r.Respond().Error(err)
}

// converse serves a connection until the server gives it up.
func converse(cfg config.Config, w *wire, act func(i int, r *http.Request, s *seen) *http.Response) *app {
	a := &app{act: act}
	serve.HTTP1(cfg, w, encryption.TLS, a)
	return a
}

func sameRequest(a, b seen) {
	sym.Assert(a.method == b.method && a.path == b.path && a.query == b.query && a.proto == b.proto, "a request line is seen differently after another request")
	sym.Assert(len(a.headers) == len(b.headers), "headers leak from or are lost after another request")
	for i := range a.headers {
		sym.Assert(a.headers[i] == b.headers[i], "a header is seen differently after another request")
	}
	sym.Assert(a.params == b.params, "path parameters leak from another request")
	sym.Assert(a.length == b.length && a.chunked == b.chunked && a.trailer == b.trailer, "the framing of a body leaks from another request")
	sameStrings(a.transfer, b.transfer)
	sameStrings(a.content, b.content)
	sym.Assert(a.ctype == b.ctype && a.conn == b.conn && a.upgrade == b.upgrade, "a property of another request leaks")
	sym.Assert(a.freshCtx == b.freshCtx, "the context of another request leaks")
	sym.Assert(a.env == b.env, "the environment of another request leaks")
	sym.Assert(a.body == b.body && a.bodyErr == b.bodyErr, "the body of a request is seen differently after another request")
}

// firstRequests are requests which leave something behind if the server forgets to clean up.
func first(kind int) string {
	v := sym.String("x", sym.Param("n", 1))
	for i := 0; i < len(v); i++ {
		sym.Assume(v[i] > 0x20 && v[i] < 0x7f && v[i] != '%' && v[i] != '?')
	}
	switch kind {
	case 0:
		return "GET /a" + v + "?q" + v + " HTTP/1.1\r\nHost: " + v + "\r\nCookie: a=" + v + "\r\n\r\n"
	case 1:
		return "POST /b HTTP/1.1\r\nContent-Length: 3\r\nContent-Type: t" + v + "\r\n\r\nabc"
	case 2:
		return "PUT /c HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTrailer: z\r\n\r\n2\r\nde\r\n1\r\nf\r\n0\r\nz: y\r\n\r\n"
	case 3:
		return "HEAD /d HTTP/1.1\r\nContent-Encoding: g" + v + "\r\nAccept: " + v + "\r\n\r\n"
	case 4:
		return "GET /e HTTP/1.0\r\nConnection: keep-alive\r\nX: " + v + "\r\n\r\n"
	case 5:
		return "GET /f HTTP/1.1\r\nConnection: upgrade\r\nUpgrade: HTTP/1.0\r\n\r\n"
	case 6:
		return "GET /g HTTP/1.1\r\nConnection: upgrade\r\nUpgrade: h2c\r\n\r\n"
	case 7:
		return "POST /b HTTP/1.1\r\nContent-Length: 20\r\n\r\nGET / HTTP/1.1\r\nA: " + "b"
	}
	switch kind {
	case 8:
		return "FOO / HTTP/1.1\r\n\r\n"
	case 9:
		return "POST /b HTTP/7.1\r\n\r\n"
	case 10:
		return "GET /" + v + " HTTP/1.1\r\nA\r\n\r\n"
	case 11:
		return "POST / HTTP/1.1\r\nContent-Length: x\r\n\r\n"
	case 12:
		return "PUT / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nx"
	case 15:
		return "GET /f HTTP/1.1\r\nConnection: upgrade\r\nUpgrade: HTTP/1.1\r\n\r\n"
	case 16:
		return "PUT /c HTTP/1.1\r\nTransfer-Encoding: gzip, chunked\r\n\r\n2\r\nde\r\n0\r\n\r\n"
	case 14:
		return " / HTTP/1.1\r\n\r\n"
	}
	return "OPTIONS / HTTP/1.1\r\n\r\n"
}

// answer makes one of many responses; it has all that can be left behind.
func answer(kind int, r *http.Request, s *seen) *http.Response {
	switch kind {
	case 0:
		return http.Respond(r)
	case 1:
		b, err := r.Body.Bytes()
		s.body, s.bodyErr = string(b), err
		return http.Bytes(r, []byte("got "+string(b)))
	case 2: // a part of the body
		b, err := r.Body.Retrieve()
		s.body, s.bodyErr = string(b), err
		if err == io.EOF {
			s.bodyErr = nil
		}
		return http.Code(r, 404).Header("X-One", "1").Header("accept-encodings", "mine").ContentType("x/y")
	case 3:
		r.Ctx = taint{r.Ctx}
		r.Env.Error = io.ErrUnexpectedEOF
		r.Env.AllowedMethods = "GET"
		r.Env.AliasFrom = "/z"
		r.Params.Add("p", "q")
		return http.Respond(r).Cookie(cookie.New("c", "d")).Status("Fine").TransferEncoding("identity")
	case 4:
		return http.Respond(r).Attachment(&source{pieces: []string{"one", "two"}}, -1)
	case 5:
		return http.Respond(r).Attachment(&source{pieces: []string{"three"}}, 5).Header("X-Two", "2")
	case 6:
		return http.Error(r, status.ErrTooLarge)
	}
	return nil
}

// source is a reader of pieces.
type source struct {
	pieces []string
	end    error // io.EOF if nil
	with   bool  // the end comes with the last piece
	closed int
	reads  int
}

func (s *source) Read(b []byte) (int, error) {
	s.reads++
	sym.Assert(s.closed == 0, "a closed attachment is read")
	end := s.end
	if end == nil {
		end = io.EOF
	}
	if len(s.pieces) == 0 {
		return 0, end
	}
	n := copy(b, s.pieces[0])
	if s.pieces[0] = s.pieces[0][n:]; s.pieces[0] == "" {
		s.pieces = s.pieces[1:]
	}
	if s.with && len(s.pieces) == 0 {
		return n, end
	}
	return n, nil
}

func (s *source) Close() error { s.closed++; return nil }

// Pipeline: two requests on one connection are seen and answered as on two connections.
func Pipeline() {
	cfg := smallConfig()
	cfg.TCP.ReadBufferSize = sym.Param("buff", 64)
	ka, kb := sym.Param("a", 0), sym.Param("b", 0)
	a, b := first(ka), first(kb)
	if sym.Param("tight", 0) == 1 {
		// what a request needs alone is there, what two need together is not
		cfg.URL.BufferSize.Maximal = 28
		cfg.Headers.Number.Maximal = 2
		cfg.Headers.KeySpace.Maximal = 28
		cfg.Headers.ValueSpace.Maximal = 20
		cfg.Headers.MaxEncodingTokens = 1
		cfg.Body.MaxSize = 4
	}
	actA := sym.Choice("acta", 8)
	acts := [...]int{1, 4, 5, 7, 0, 2, 3, 6}
	actB := acts[sym.Choice("actb", sym.Param("acts", 4))]
	both := &wire{stream: []byte(a + b), end: io.EOF}
	both.cuts = chop(sym.Param("cuts", 0), len(both.stream))
	at := func(act, kind int) int {
		if act == 1 || act == 2 {
			// what the peer sends piecewise may be retrieved piecewise
			return 1
		}
		return act
	}
	x := converse(cfg, both, func(i int, r *http.Request, s *seen) *http.Response {
		if i == 0 {
			return answer(actA, r, s)
		}
		return answer(at(actB, kb), r, s)
	})
	onlyA := &wire{stream: []byte(a), end: io.EOF}
	y := converse(cfg, onlyA, func(i int, r *http.Request, s *seen) *http.Response { return answer(actA, r, s) })
	onlyB := &wire{stream: []byte(b), end: io.EOF}
	z := converse(cfg, onlyB, func(i int, r *http.Request, s *seen) *http.Response { return answer(at(actB, kb), r, s) })
	sym.ObserveBytes("out", both.out)
	sym.Assert(len(y.seen) == 1 && len(x.seen) == 1+len(z.seen), "a request on a kept connection is lost or invented")
	sym.Assert(len(z.seen) == 1 || kb >= 8 && kb < 15, "a well-formed request is refused")
	if actA == 1 {
		sym.Assert(x.seen[0].body == y.seen[0].body, "the first body depends on what follows")
	}
	if len(z.seen) == 1 {
		sym.Reach("served")
		sameRequest(x.seen[1], z.seen[0])
	} else {
		sym.Reach("refused")
		sym.Assert(len(x.errs) == len(z.errs) && x.errs[0] == z.errs[0], "an error depends on the requests before it")
		sym.Assert(x.lost == z.lost, "a refused request is shown with data of another one")
	}
	sym.Assert(string(both.out) == string(onlyA.out)+string(onlyB.out), "a response depends on the requests before it")
}

// use reads a body in one of the ways a handler can, wholly or in part.
func use(r *http.Request, mode int) (string, error) {
	if mode < 6 {
		got, err := consume(r.Body, mode)
		return string(got), err
	}
	b := make([]byte, 1)
	switch mode {
	case 6: // one byte
		n, _ := r.Body.Read(b)
		return string(b[:n]), nil
	case 7: // one byte, then a piece
		n, _ := r.Body.Read(b)
		p, _ := r.Body.Retrieve()
		return string(b[:n]) + string(p), nil
	case 8: // a callback that gives up
		return "", r.Body.Callback(func([]byte) error { return io.ErrShortWrite })
	case 9: // beyond the end
		got, err := consume(r.Body, 4)
		r.Body.Read(b)
		r.Body.Retrieve()
		return string(got), err
	}
	return "", nil
}

// Bodies: how the body of a request was read does not influence the bodies after it, whose sizes
// do not add up.
func Bodies() {
	cfg := smallConfig()
	cfg.TCP.ReadBufferSize = sym.Param("buff", 64)
	cfg.Body.MaxSize = 4
	k := sym.Param("k", 2)
	var stream string
	var want []string
	var modes []int
	kinds := [...]int{sym.Param("a", 0), sym.Param("b", 0), sym.Param("c", 0)}
	for i := 0; i < k; i++ {
		body := sym.String("body", 3)
		switch kinds[i] {
		case 0:
			stream += "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\n" + body
		case 1:
			stream += "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n" + body[:2] + "\r\n1\r\n" + body[2:] + "\r\n0\r\n\r\n"
		case 2:
			stream += "GET / HTTP/1.1\r\n\r\n"
			body = ""
		case 3:
			stream += "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTrailer: x\r\n\r\n3\r\n" + body + "\r\n0\r\nx: y\r\n\r\n"
		}
		want = append(want, body)
		if i == k-1 {
			modes = append(modes, sym.Choice("last", 5))
		} else {
			modes = append(modes, sym.Choice("mode", 11))
		}
	}
	w := &wire{stream: []byte(stream), end: io.EOF}
	w.cuts = chop(sym.Param("cuts", 0), len(w.stream))
	a := converse(cfg, w, func(i int, r *http.Request, s *seen) *http.Response {
		sym.Assert(i < k, "a request is invented")
		s.body, s.bodyErr = use(r, modes[i])
		if modes[i] < 5 {
			sym.Assert(s.bodyErr == nil, "a body is refused because of the requests before it")
			sym.Assert(s.body == want[i], "a body is seen differently after another request")
		}
		return http.Respond(r)
	})
	sym.ObserveInt("served", len(a.seen))
	sym.Assert(len(a.seen) == k, "a request is lost")
	sym.Reach("done")
}

// inquire asks for everything that is computed on demand.
func inquire(r *http.Request) (s string) {
	params, err := r.Query.Unwrap()
	if err != nil {
		s += "bad query;"
	} else {
		for _, p := range params.Unwrap() {
			s += p.Key + "=" + p.Value + ";"
		}
	}
	v, err := r.Query.Get("b")
	if err != nil {
		s += "no b;"
	}
	s += v + ";"
	jar, err := r.Cookies()
	if err != nil {
		return s + "bad cookies"
	}
	for _, p := range jar.Unwrap() {
		s += p.Key + "=" + p.Value + ";"
	}
	for _, k := range r.Headers.Keys() {
		s += k + ","
	}
	for _, v := range r.Headers.Values("a") {
		s += v + ","
	}
	return s + r.Params.Value("p") + r.Env.AliasFrom
}

// Inquiries: queries, cookies and header lists, asked for or not, are those of the request.
func Inquiries() {
	cfg := smallConfig()
	pick := func(label string, u int) string {
		x := sym.String(label, 1)
		sym.Assume(x[0] > 0x20 && x[0] < 0x7f && x[0] != '?')
		uris := [...]string{"/", "/?b=" + x, "/?" + x + "&c=d", "/?=" + x, "/?"}
		heads := [...]string{"", "Cookie: a=" + x + "; b=c\r\n", "Cookie: =" + x + "\r\n", "A: " + x + "\r\nB: 1\r\na: 2\r\n", "Cookie: q\r\n"}
		return "GET " + uris[u] + " HTTP/1.1\r\n" + heads[sym.Choice(label+"-head", len(heads))] + "\r\n"
	}
	one, two := pick("one", sym.Param("u", 0)), pick("two", sym.Choice("uri", 5))
	ask := sym.Bool("ask")
	var got, alone string
	act := func(i int, r *http.Request, s *seen) *http.Response {
		if i == 0 && !ask {
			return nil
		}
		got = inquire(r)
		r.Params.Add("p", "leak")
		r.Env.AliasFrom = "leak"
		return nil
	}
	x := converse(cfg, &wire{stream: []byte(one + two), end: io.EOF}, act)
	sym.Assert(len(x.seen) == 2, "a request is lost")
	got, alone = "", got
	ask = true
	converse(cfg, &wire{stream: []byte(two), end: io.EOF}, act)
	sym.ObserveStr("two", got)
	sym.Assert(got == alone, "what is computed on demand depends on the requests before it")
	sym.Reach("done")
}
