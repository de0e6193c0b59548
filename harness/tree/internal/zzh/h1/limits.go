package h1

import (
	"github.com/indigo-web/indigo/http/status"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

func repeat(c string, n int) (s string) {
	for i := 0; i < n; i++ {
		s += c
	}
	return s
}

// Limits: what is within the configured limits is accepted and what is beyond them refused,
// however it is cut.
func Limits() {
	cfg := smallConfig()
	n := sym.Choice("n", 16)
	head, eol := "GET / HTTP/1.1\r\n", "\r\n"
	// within and beyond leave out the separators, which may count or not
	within, beyond := false, false
	var code status.Code = status.HeaderFieldsTooLarge
	x := token("x", 1)
	sym.Assume(x != "%")
	switch sym.Param("kind", 0) {
	case 0: // the request line
		cfg.URL.BufferSize.Maximal = 24
		line := "GET /" + repeat("a", n) + x + " HTTP/1.1"
		head = line + eol
		within, beyond = len(line)+1 <= 24, len(line)-2 > 24
		code = status.RequestURITooLong
	case 1: // a header name
		cfg.Headers.MaxKeyLength = 8
		head += "A: b\r\n" + repeat("k", n) + x + ": v\r\nC: d" + eol
		within, beyond = n+1 <= 8, n+1 > 8
	case 2: // a header value
		cfg.Headers.MaxValueLength = 8
		head += "A: b\r\nK:" + repeat("v", n) + x + "\r\nC: d" + eol
		within, beyond = n+2 <= 8, n+1 > 8
	case 3: // the number of headers
		cfg.Headers.Number.Maximal = 5
		k := 0
		for ; k < n; k++ {
			if k == sym.Param("at", 1) {
				head += "Content-Length: 0\r\n"
			} else {
				head += "k" + x + ": v\r\n"
			}
		}
		within, beyond = n <= 5, n > 5
	case 4: // the names altogether
		cfg.Headers.KeySpace.Default = 2
		cfg.Headers.KeySpace.Maximal = 16
		head += repeat("k", n) + x + ": v\r\nabcdef: w" + eol
		within, beyond = n+1+6 <= 16, n+1+6 > 16
	case 5: // the values altogether
		cfg.Headers.ValueSpace.Default = 2
		cfg.Headers.ValueSpace.Maximal = 16
		head += "A:" + repeat("v", n) + x + "\r\nB:abcdef" + eol
		within, beyond = n+1+6+2 <= 16, n+1+6 > 16
	case 6: // the encodings
		cfg.Headers.MaxEncodingTokens = 3
		names := [...]string{"Content-Encoding: ", "Transfer-Encoding: "}
		last := sym.Choice("header", 2)
		head += names[last] + repeat("a,", n) + []string{x, "chunked"}[last] + eol
		within, beyond = n+1 <= 3, n+1 > 3
	case 7: // the method without a blank
		cfg.URL.BufferSize.Maximal = 8
		head = repeat("G", n) + x + x
		o := feed(cfg, halves(head))
		sym.ObserveInt("state", o.state)
		if n+2 > 8 {
			sym.Reach("beyond")
			sym.Assert(o.state == 2, "an endless method is read on")
		} else {
			sym.Reach("within")
			sym.Assert(o.state == 0, "a short method is refused")
		}
		return
	case 8, 9, 10, 11: // a path, a query, a name or a value without an end
		head, want := "GET /", 8
		switch sym.Param("kind", 0) {
		case 8:
			cfg.URL.BufferSize.Maximal = 12
			want = 6
		case 9:
			cfg.URL.BufferSize.Maximal = 12
			head, want = "GET /?", 5
		case 10:
			cfg.Headers.MaxKeyLength = 8
			head = "GET / HTTP/1.1\r\n"
		case 11:
			cfg.Headers.MaxValueLength = 8
			head = "GET / HTTP/1.1\r\nK:"
		}
		o := feed(cfg, halves(head+repeat("a", n)+x))
		sym.ObserveInt("state", o.state)
		if n+1 > want+2 {
			sym.Reach("beyond")
			sym.Assert(o.state == 2, "a token without an end is read on")
		} else if n+1 <= want {
			sym.Reach("within")
			sym.Assert(o.state == 0, "a short token is refused")
		}
		return
	}
	head += eol
	o := feed(cfg, halves(head))
	sym.ObserveInt("state", o.state)
	if within {
		sym.Reach("within")
		sym.Assert(o.state == 1, "a request within the limits is refused")
	}
	if beyond {
		sym.Reach("beyond")
		sym.Assert(o.state == 2, "a request beyond the limits is accepted")
		e, ok := o.err.(status.HTTPError)
		sym.Assert(ok && e.Code == code, "a request beyond the limits is refused with another status")
	}
}

// halves cuts a request once.
func halves(s string) [][]byte {
	c := chop(sym.Param("cuts", 1), len(s))
	var p [][]byte
	prev := 0
	for _, x := range c {
		p = append(p, []byte(s[prev:x]))
		prev = x
	}
	return append(p, []byte(s[prev:]))
}
