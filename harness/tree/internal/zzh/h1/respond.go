package h1

import (
	"io"
	"strconv"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// reply is what a client makes of the bytes it gets.
type reply struct {
	proto, code, phrase string
	headers             []pair
	body                string
}

// line cuts the first line off, which must end in CRLF.
func line(s string) (string, string, bool) {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '\r' && s[i+1] == '\n' {
			return s[:i], s[i+2:], true
		}
		if s[i] == '\r' || s[i] == '\n' {
			break
		}
	}
	return "", "", false
}

func cut(s string, sep byte) (string, string, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}

// readHead reads a response's head as a strict client does.
func readHead(s string) (r reply, rest string) {
	first, s, ok := line(s)
	sym.Assert(ok, "the status line is not ended")
	var a, b bool
	r.proto, first, a = cut(first, ' ')
	r.code, r.phrase, b = cut(first, ' ')
	sym.Assert(a && b, "the status line is malformed")
	for {
		var l string
		l, s, ok = line(s)
		sym.Assert(ok, "a header line is not ended")
		if l == "" {
			return r, s
		}
		key, val, ok := cut(l, ':')
		sym.Assert(ok && len(val) > 0 && val[0] == ' ', "a header line is malformed")
		r.headers = append(r.headers, pair{key, val[1:]})
	}
}

// count says how many headers with the name there are, and the value of the last one.
func (r *reply) count(name string) (n int, val string) {
	for _, h := range r.headers {
		if fold(h.key, name) {
			n++
			val = h.val
		}
	}
	return n, val
}

// occurrences of exactly this header
func (r *reply) has(p pair) (n int) {
	for _, h := range r.headers {
		if h == p {
			n++
		}
	}
	return n
}

// phrase returns n arbitrary characters of a status text, cookie or the like.
func phrase(label string, n int) string {
	s := sym.String(label, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] > 0x20 && s[i] < 0x7f && s[i] != ';')
	}
	return s
}

var codes = [...]status.Code{200, 101, 204, 301, 404, 500, 511, 299, 600, 999, 100}

var asks = [...]string{"GET / HTTP/1.1\r\n\r\n", "HEAD / HTTP/1.1\r\n\r\n", "POST / HTTP/1.0\r\n\r\n", "TRACE / HTTP/1.1\r\nConnection: close\r\n\r\n"}

// Response: what the handler made is what the client gets.
func Response() {
	cfg := smallConfig()
	cfg.Headers.Default = map[string]string{}
	defaults := []pair{}
	if sym.Param("defaults", 1) == 1 {
		cfg.Headers.Default = map[string]string{"Server": "indigo", "X-D": "e"}
		defaults = []pair{{"Server", "indigo"}, {"X-D", "e"}}
	}
	kind := sym.Param("ask", 0)
	w := &wire{stream: []byte(asks[kind]), end: io.EOF}
	code := codes[0]
	if sym.Param("code", 1) == 1 {
		code = codes[sym.Choice("code", len(codes))]
	}
	custom := ""
	if sym.Param("status", 0) == 1 {
		custom = "A" + phrase("s", 2)
	}
	var own []pair
	for i, k := 0, sym.Param("k", 1); i < k; i++ {
		key := token("k", sym.Param("key", 2))
		if sym.Param("override", 0) == 1 {
			key = anyCase("case", "server")
		}
		own = append(own, pair{key, text("v", sym.Param("val", 2))})
	}
	ctype := ""
	if sym.Param("ctype", 0) == 1 {
		ctype = text("t", 2)
	}
	body := sym.String("b", sym.Param("n", 2))
	viaHeader := sym.Bool("via header")
	var jar []string
	var cookies []cookie.Cookie
	for i, k := 0, sym.Param("cookies", 0); i < k; i++ {
		c, s := aCookie(i == 0)
		cookies, jar = append(cookies, c), append(jar, s)
	}
	a := converse(cfg, w, func(i int, r *http.Request, s *seen) *http.Response {
		resp := r.Respond().Code(code)
		if custom != "" {
			resp.Status(custom)
		}
		for _, h := range own {
			if sym.Param("multi", 0) == 1 {
				resp.Header(h.key, h.val, h.val+"2")
			} else {
				resp.Header(h.key, h.val)
			}
		}
		if ctype != "" {
			if viaHeader {
				resp.Header("content-Type", ctype)
			} else {
				resp.ContentType(ctype)
			}
		}
		if len(cookies) > 0 {
			resp.Cookie(cookies...)
		}
		switch sym.Param("how", 0) {
		case 0:
			resp.String(body)
		case 1:
			resp.Bytes([]byte(body))
		case 2:
			for i := 0; i < len(body); i++ {
				n, err := resp.Write([]byte{body[i]})
				sym.Assert(n == 1 && err == nil, "writing to a response fails")
			}
		}
		return resp
	})
	if sym.Param("multi", 0) == 1 {
		var all []pair
		for _, h := range own {
			all = append(all, h, pair{h.key, h.val + "2"})
		}
		own = all
	}
	sym.Assert(len(a.seen) == 1, "a request is lost")
	r, rest := readHead(string(w.out))
	sym.ObserveInt("size", len(w.out))
	want := "HTTP/1.1"
	if kind == 2 {
		want = "HTTP/1.0"
	}
	sym.Assert(r.proto == want, "the response has another protocol version")
	sym.Assert(r.code == strconv.Itoa(int(code)), "the response has another status code")
	if custom != "" {
		sym.Assert(r.phrase == custom, "the custom status text is lost")
	} else {
		sym.Assert(r.phrase == string(status.Text(code)), "the status text is another one")
	}
	n := 0
	for i, h := range own {
		same := 0
		for j := range own {
			if own[j] == own[i] {
				same++
			}
		}
		sym.Assert(r.has(h) >= same, "a header of the response is lost")
		n++
	}
	next := 0
	for _, h := range r.headers {
		if next < len(own) && h == own[next] {
			next++
		}
	}
	sym.Assert(next == len(own), "the order of the headers is another one")
	for _, h := range defaults {
		over := false
		for _, o := range own {
			over = over || fold(o.key, h.key)
		}
		c, _ := r.count(h.key)
		if over {
			sym.Reach("overridden")
			k := 0
			for _, o := range own {
				if fold(o.key, h.key) {
					k++
				}
			}
			sym.Assert(c == k, "a default header is rendered though overridden")
		} else {
			sym.Assert(c == 1 && r.has(h) == 1, "a default header is lost or repeated")
			n++
		}
	}
	if ctype == "" {
		ctype = "text/html"
	}
	c, v := r.count("content-type")
	sym.Assert(c == 1 && v == ctype, "the content type is another one")
	c, v = r.count("content-length")
	sym.Assert(c == 1 && v == strconv.Itoa(len(body)), "the content length is not the length of the body")
	n += 2
	c, _ = r.count("set-cookie")
	sym.Assert(c == len(jar), "a cookie is lost or invented")
	for _, j := range jar {
		sym.Assert(r.has(pair{"Set-Cookie", j}) >= 1, "a cookie is rendered wrongly")
		n++
	}
	sym.Assert(len(r.headers) == n, "a header is invented")
	if kind == 1 {
		sym.Reach("head")
		sym.Assert(rest == "", "a response to HEAD has a body")
	} else {
		sym.Reach("body")
		sym.Assert(rest == body, "the body is another one")
	}
}

// aCookie chooses a cookie and says how it is spelt.
func aCookie(full bool) (cookie.Cookie, string) {
	name, val := token("cn", 1), phrase("cv", 1)
	b := cookie.Build(name, val)
	s := name + "=" + val
	if !full {
		return b.Cookie(), s
	}
	if sym.Bool("path") {
		p := phrase("cp", 2)
		b = b.Path(p)
		s += "; Path=" + p
	}
	if sym.Bool("domain") {
		p := phrase("cd", 1)
		b = b.Domain(p)
		s += "; Domain=" + p
	}
	if sym.Bool("expires") {
		b = b.Expires(time.Date(2024, 3, 1, 1, 59, 1, 0, time.FixedZone("east", 7200)))
		s += "; Expires=Thu, 29 Feb 2024 23:59:01 GMT"
	}
	switch age := sym.Choice("age", 5); age {
	case 0, 4:
		// any negative age is an immediate end
		b = b.MaxAge(-1 - 20*age)
		s += "; MaxAge=0"
	case 1:
		b = b.MaxAge(3600)
		s += "; MaxAge=3600"
	case 2:
		b = b.MaxAge(7)
		s += "; MaxAge=7"
	}
	switch sym.Choice("site", 4) {
	case 0:
		b = b.SameSite(cookie.SameSiteLax)
		s += "; SameSite=Lax"
	case 1:
		b = b.SameSite(cookie.SameSiteStrict)
		s += "; SameSite=Strict"
	case 2:
		b = b.SameSite(cookie.SameSiteNone)
		s += "; SameSite=None"
	}
	if sym.Bool("secure") {
		b = b.Secure(true)
		s += "; Secure"
	}
	if sym.Bool("httponly") {
		b = b.HttpOnly(true)
		s += "; HttpOnly"
	}
	return b.Cookie(), s
}
