package h1

import (
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/headers"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// Network: whatever a peer sends, the server neither panics nor hangs, and answers with responses.
func Network() {
	cfg := smallConfig()
	cfg.Body.MaxSize = 8
	cfg.Body.MaxChunkSize = 4
	w := &wire{stream: raw(), end: ending(), fin: sym.Bool("fin")}
	w.cuts = chop(sym.Param("cuts", 0), len(w.stream))
	mode := sym.Param("mode", 0)
	a := converse(cfg, w, func(i int, r *http.Request, s *seen) *http.Response {
		s.body = ""
		switch mode {
		case 0:
			for _, v := range r.Headers.Values("accept") {
				headers.ValueOf(v)
				headers.QualityOf(v)
			}
			_, _ = r.Query.Get("b")
			_, _ = r.Query.Unwrap()
			_, _ = r.Cookies()
			_, s.bodyErr = r.Body.Bytes()
		case 1:
			_, s.bodyErr = consume(r.Body, sym.Param("read", 2))
		}
		return http.Error(r, s.bodyErr)
	})
	sym.ObserveInt("seen", len(a.seen))
	sym.ObserveInt("errs", len(a.errs))
	sym.Assert(len(a.errs) == 1, "a connection ends without telling the router once")
	rest := string(w.out)
	n := 0
	for rest != "" {
		var r reply
		r, rest = readHead(rest)
		c, v := r.count("content-length")
		if r.code == "101" {
			sym.Assert(c == 0, "an interim response has a body")
			continue
		}
		sym.Assert(c == 1, "a response is not framed")
		size := 0
		for i := 0; i < len(v); i++ {
			size = size*10 + int(v[i]-'0')
		}
		sym.Assert(len(rest) >= size, "a response is cut")
		rest = rest[size:]
		n++
	}
	sym.Assert(n >= len(a.seen), "a request is not answered")
	sym.Assert(n <= len(a.seen)+1, "a response without a request")
	sym.Reach("ended")
}
