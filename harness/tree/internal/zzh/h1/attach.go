package h1

import (
	"errors"
	"io"
	"strconv"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

var errDisk = errors.New("disk failure")

// unchunk decodes a chunked body as a strict client does.
func unchunk(s string) (body, rest string, ok bool) {
	for {
		l, next, good := line(s)
		if !good || l == "" {
			return body, s, false
		}
		n := 0
		for i := 0; i < len(l); i++ {
			c := l[i]
			switch {
			case c >= '0' && c <= '9':
				n = n*16 + int(c-'0')
			case c >= 'a' && c <= 'f':
				n = n*16 + int(c-'a') + 10
			default:
				sym.Fail("a chunk size is not a number")
			}
		}
		s = next
		if n == 0 {
			l, s, good = line(s)
			sym.Assert(good && l == "", "the last chunk is not ended")
			return body, s, true
		}
		sym.Assert(len(s) >= n+2 && s[n] == '\r' && s[n+1] == '\n', "a chunk is longer or shorter than announced")
		body += s[:n]
		s = s[n+2:]
	}
}

// Attach: an attachment arrives whole, or visibly broken, and is closed once.
func Attach() {
	cfg := smallConfig()
	cfg.HTTP.FileBuffSize = sym.Param("buff", 16)
	var pieces []string
	all := ""
	for i, k := 0, sym.Param("k", 2); i < k; i++ {
		p := sym.String("p", sym.Choice("len", sym.Param("m", 2)+1))
		if len(p) > 0 {
			pieces = append(pieces, p)
		}
		all += p
	}
	pad := ""
	for i := 0; i < sym.Param("pad", 0); i++ {
		pad += "0123456789abcdef"
	}
	if pad != "" {
		pieces = append(pieces, pad)
		all += pad
	}
	src := &source{pieces: pieces, with: sym.Bool("with")}
	fails := sym.Bool("fails")
	if fails {
		src.end = []error{errDisk, io.ErrUnexpectedEOF}[sym.Choice("failure", 2)]
		if len(pieces) == 0 {
			src.with = false
		}
	}
	size := -sym.Choice("no size", 2)
	if sym.Param("sized", 0) == 1 {
		size = len(all)
		sym.Assume(size > 0)
		if fails {
			size += 3
		}
	}
	methods := [...]string{"GET", "HEAD", "POST"}
	m := sym.Choice("method", 3)
	w := &wire{stream: []byte(methods[m] + " / HTTP/1.1\r\n\r\nGET /second HTTP/1.1\r\n\r\n"), end: io.EOF}
	w.failAt = sym.Param("fail", 0)
	a := converse(cfg, w, func(i int, r *http.Request, s *seen) *http.Response {
		if i > 0 {
			return http.String(r, "2nd")
		}
		return http.Respond(r).Header("X-A", "b").Cookie(cookie.New("c", "d")).String("ignored").Attachment(src, size)
	})
	sym.ObserveInt("served", len(a.seen))
	sym.ObserveInt("closed", src.closed)
	sym.Assert(src.closed == 1, "an attachment is not closed exactly once")
	if w.failAt > 0 && w.writes >= w.failAt {
		sym.Reach("write failed")
		sym.Assert(w.writes == w.failAt, "the connection is used after a failed write")
		return
	}
	r, rest := readHead(string(w.out))
	sym.Assert(r.code == "200" && r.has(pair{"X-A", "b"}) == 1, "the head of a response with an attachment is wrong")
	c, v := r.count("set-cookie")
	sym.Assert(c == 1 && v == "c=d", "the cookies of a response with an attachment are wrong")
	cl, length := r.count("content-length")
	te, coding := r.count("transfer-encoding")
	if size > 0 {
		sym.Assert(cl == 1 && te == 0 && length == strconv.Itoa(size), "a sized attachment is framed wrongly")
	} else {
		sym.Assert(cl == 0 && te == 1 && coding == "chunked", "an unsized attachment is framed wrongly")
	}
	if m == 1 {
		sym.Reach("head")
		sym.Assert(src.reads == 0, "an attachment is read for a response without a body")
		sym.Assert(len(a.seen) == 2, "the connection is not kept after a response without a body")
		r, rest = readHead(rest)
		sym.Assert(r.code == "200" && rest == "2nd", "a response to HEAD has a body")
		return
	}
	if fails {
		sym.Reach("failed")
		sym.Assert(len(a.seen) == 1, "the connection is kept after an attachment that failed")
		if size > 0 {
			sym.Assert(rest == all, "the data before a failure is lost")
		} else {
			body, rest, ok := unchunk(rest)
			sym.Assert(!ok && rest == "", "an attachment that failed looks complete")
			sym.Assert(body == all, "the data before a failure is lost")
		}
		return
	}
	sym.Reach("whole")
	if size > 0 {
		sym.Assert(len(rest) >= size && rest[:size] == all, "a sized attachment arrives otherwise")
		rest = rest[size:]
	} else {
		body, next, ok := unchunk(rest)
		sym.Assert(ok && body == all, "an unsized attachment arrives otherwise")
		rest = next
	}
	sym.Assert(len(a.seen) == 2, "the connection is not kept after an attachment")
	r, rest = readHead(rest)
	sym.Assert(r.code == "200" && rest == "2nd", "the response after an attachment is damaged")
}
