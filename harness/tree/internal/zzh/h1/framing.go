package h1

import (
	"io"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// Framing: a request whose end could be understood in two ways is refused, and nothing behind it is
// taken for another request; any other one ends where it has to. The whole server is run over a
// request, its body and a request behind it.
func Framing() {
	cfg := smallConfig()
	var (
		lines   string
		refused bool
		maybe   bool // both refusing and ignoring the header are right
		wire1   = "abc"
		body    = "abc"
	)
	const (
		length  = "Content-Length"
		chunked = "Transfer-Encoding: chunked\r\n"
	)
	wire2 := "3\r\nabc\r\n0\r\n\r\n"
	x := sym.String("x", sym.Param("n", 1))
	for i := 0; i < len(x); i++ {
		sym.Assume(x[i] != '\n' && x[i] != ':')
	}
	blank := false
	for i := 0; i < len(x); i++ {
		blank = blank || x[i] == ' ' || x[i] == '\t'
	}
	switch sym.Param("kind", 0) {
	case 0: // something between a name and its colon
		sym.Assume(len(x) > 0)
		name := []string{length, "Transfer-Encoding", "A"}[sym.Param("name", 0)]
		val := "3"
		if name == "Transfer-Encoding" {
			val = "chunked"
		}
		lines = name + x + ": " + val + "\r\n"
		refused, maybe = blank, true
		wire1, body = "", ""
	case 1: // a folded line
		sym.Assume(x == "" || x[0] != '\r')
		lines = "A: b\r\n" + []string{" ", "\t"}[sym.Choice("fold", 2)] + x + length + ": 3\r\n"
		refused = true
	case 2: // two lengths
		a, b := sym.String("a", 1), sym.String("b", 1)
		sym.Assume(a[0] >= '0' && a[0] <= '9' && b[0] >= '0' && b[0] <= '9')
		lines = length + ": " + a + "\r\n" + length + ": " + b + "\r\n"
		refused = a != b
		wire1 = repeat("z", int(a[0]-'0'))
		body = wire1
	case 3: // a length and chunks
		lines = length + ": 1\r\n"
		if sym.Bool("order") {
			lines = chunked + lines
		} else {
			lines += chunked
		}
		wire1 = wire2
	case 4: // chunks that are not the last encoding
		toks := []string{"gzip", "chunked", "x"}
		last := ""
		for i := 0; i < sym.Param("k", 2); i++ {
			if sym.Bool("header") || i == 0 {
				if i > 0 {
					lines += "\r\n"
				}
				lines += "Transfer-Encoding: "
			} else {
				lines += ", "
			}
			last = toks[sym.Choice("tok", 3)]
			lines += last
		}
		lines += "\r\n"
		if sym.Bool("length") {
			lines += length + ": 3\r\n"
		}
		refused = last != "chunked"
		wire1 = wire2
	case 5: // an odd length
		lines = length + ":" + x + "\r\n"
		digits := 0
		ok := true
		i, j := 0, len(x)
		for i < j && x[i] == ' ' {
			i++
		}
		for j > i && (x[j-1] == ' ' || x[j-1] == '\r' && j == len(x)) {
			j--
		}
		n := 0
		for ; i < j; i++ {
			digits++
			ok = ok && x[i] >= '0' && x[i] <= '9'
			n = n*10 + int(x[i]-'0')
		}
		ok = ok && digits > 0
		sym.Assume(!ok || n <= 12)
		if ok {
			wire1 = repeat("z", n)
			body = wire1
		}
		refused = !ok
		maybe = len(x) > 0 && x[len(x)-1] == '\r'
	}
	head := "POST /first HTTP/1.1\r\n" + lines + "\r\n"
	w := &wire{stream: []byte(head + wire1 + "GET /next HTTP/1.1\r\n\r\n"), end: io.EOF}
	w.cuts = chop(sym.Param("cuts", 0), len(head)+1)
	a := converse(cfg, w, func(i int, r *http.Request, s *seen) *http.Response {
		s.body, s.bodyErr = r.Body.String()
		s.body = clone(s.body)
		return http.Respond(r)
	})
	sym.ObserveInt("served", len(a.seen))
	if maybe && !refused && len(a.seen) == 0 {
		refused = true
	}
	if refused {
		sym.Reach("refused")
		sym.Assert(len(a.seen) == 0, "an ambiguous request, or a part of it, is served")
		sym.Assert(len(a.errs) > 0, "an ambiguous request is not refused")
		e, ok := a.errs[0].(status.HTTPError)
		sym.Assert(ok && e.Code >= 400 && e.Code < 500, "an ambiguous request is not refused as the fault of the client")
		return
	}
	sym.Reach("served")
	sym.Assert(len(a.seen) == 2 && a.seen[0].path == "/first" && a.seen[1].path == "/next", "a request does not end where its body does")
	sym.Assert(a.seen[0].bodyErr == nil && a.seen[0].body == body, "the body of a request is another one")
	sym.Assert(a.seen[1].bodyErr == nil && a.seen[1].body == "", "a request has the body of the one before it")
}
