package h1

import (
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/proto"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// token returns n arbitrary characters of a header name.
func token(label string, n int) string {
	s := sym.String(label, n)
	for i := 0; i < n; i++ {
		sym.Assume(isToken(s[i]))
	}
	return s
}

func isToken(c byte) bool {
	switch {
	case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
		return true
	case c == '-', c == '_', c == '.', c == '!', c == '#', c == '$', c == '%', c == '&', c == '\'', c == '*', c == '+', c == '^', c == '`', c == '|', c == '~':
		return true
	}
	return false
}

// text returns n arbitrary characters of a header value, which neither begins nor ends with a space.
func text(label string, n int) string {
	s := sym.String(label, n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(c >= 0x20 && c != 0x7f || c == '\t')
		if i == 0 || i == n-1 {
			sym.Assume(c != ' ' && c != '\t')
		}
	}
	return s
}

func lineEnd() string {
	if sym.Param("lf", 0) == 1 {
		return "\n"
	}
	return "\r\n"
}

// anyCase spells a name in an arbitrary mixture of letter cases.
func anyCase(label, name string) string {
	b := []byte(name)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			if sym.Bool(label) {
				b[i] = c - 0x20
			}
		}
	}
	return string(b)
}

func fold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		if x >= 'A' && x <= 'Z' {
			x += 0x20
		}
		if y >= 'A' && y <= 'Z' {
			y += 0x20
		}
		eq = eq && x == y
	}
	return eq
}

var spaces = [...]string{"", " ", "  "}

// Faithful: a well-formed request arrives as it was sent.
func Faithful() {
	eol := lineEnd()
	m := method.List[sym.Choice("method", len(method.List))]
	path := "/"
	for i := 0; i < sym.Param("path", 2); i++ {
		c := sym.Byte("p")
		sym.Assume(c > 0x20 && c != '?' && c != '%' && c != 0x7f)
		path += string([]byte{c})
	}
	uri, query := path, ""
	for i := 0; i < sym.Param("esc", 0); i++ {
		// an escaped byte of any value between plain ones
		hi, lo := sym.Byte("hex"), sym.Byte("hex")
		sym.Assume(isHex(hi) && isHex(lo))
		uri += "%" + string([]byte{hi, lo}) + "z"
		path += string([]byte{unhex(hi)<<4 | unhex(lo)}) + "z"
	}
	if n := sym.Param("pad", 0); n > 0 {
		uri += repeat("p", n)
		path += repeat("p", n)
	}
	if q := sym.Param("query", 0); q > 0 {
		query = sym.String("q", q-1)
		for i := 0; i < len(query); i++ {
			sym.Assume(query[i] > 0x20 && query[i] != 0x7f)
		}
		uri += "?" + query
	}
	version, protocol := "HTTP/1.1", proto.HTTP11
	if sym.Bool("old") {
		version, protocol = "HTTP/1.0", proto.HTTP10
	}
	head := m.String() + " " + uri + " " + version + eol
	k := sym.Param("k", 2)
	var keys, vals []string
	for i := 0; i < k; i++ {
		key, val := token("k", sym.Param("key", 2)), text("v", sym.Param("val", 2))
		if n := sym.Param("long", 0); n > 0 {
			key, val = key+repeat("l", n), repeat("m", n)+val
		}
		head += key + ":" + spaces[sym.Choice("ows", 3)] + val + eol
		keys, vals = append(keys, key), append(vals, val)
	}
	head += eol
	rest := sym.String("rest", sym.Param("rest", 1))
	cuts := chop(sym.Param("cuts", 0), len(head)+len(rest))
	all := []byte(head + rest)
	var pieces [][]byte
	prev := 0
	for _, c := range cuts {
		pieces = append(pieces, all[prev:c])
		prev = c
	}
	pieces = append(pieces, all[prev:])
	o := feed(smallConfig(), pieces)
	sym.ObserveInt("state", o.state)
	sym.Assert(o.state == 1, "a well-formed request is refused")
	sym.Reach("complete")
	sym.Assert(string(o.extra) == rest, "the bytes after the head are lost")
	r := o.req
	sym.ObserveStr("path", r.Path)
	sym.Assert(r.Method == m, "the method is another one")
	sym.Assert(r.Path == path, "the path is another one")
	sym.Assert(string(r.Query.Raw()) == query, "the query is another one")
	sym.Assert(r.Proto == protocol, "the protocol is another one")
	h := r.Headers.Unwrap()
	sym.Assert(len(h) == k, "a header is lost or invented")
	for i := range h {
		sym.Assert(h[i].Key == keys[i] && h[i].Value == vals[i], "a header is another one")
	}
	sym.Assert(r.ContentLength == 0 && !r.Encoding.Chunked && !r.Encoding.HasTrailer && r.Upgrade == proto.Unknown &&
		r.Connection == "" && r.ContentType == "" && len(r.Encoding.Transfer) == 0 && len(r.Encoding.Content) == 0,
		"a property of the request is set without a header saying so")
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func unhex(c byte) byte {
	switch {
	case c >= 'a':
		return c - 'a' + 10
	case c >= 'A':
		return c - 'A' + 10
	}
	return c - '0'
}

// Codings: all tokens of all encoding headers count, in order; chunked is recognised, and has to be
// the last transfer encoding if there are any.
func Codings() {
	toks := [...]string{"chunked", "gzip", "x-y", "identity"}
	seps := [...]string{",", ", ", " , ", ",,"}
	head := "PUT / HTTP/1.1\r\n"
	var transfer, content []string
	chunked := false
	for i := 0; i < sym.Param("k", 2); i++ {
		te := sym.Bool("transfer")
		n := 1 + sym.Choice("toks", sym.Param("n", 2))
		if te {
			head += "Transfer-Encoding: "
		} else {
			head += "Content-Encoding: "
		}
		for j := 0; j < n; j++ {
			t := toks[sym.Choice("tok", len(toks))]
			if t == "chunked" && sym.Param("case", 0) == 1 {
				t = anyCase("case", t)
			}
			if j > 0 {
				head += seps[sym.Choice("sep", len(seps))]
			}
			head += t
			if te {
				transfer = append(transfer, t)
				chunked = chunked || len(t) == 7
			} else {
				content = append(content, t)
			}
		}
		head += "\r\n"
		if sym.Param("between", 0) == 1 {
			head += "A: b\r\n"
		}
	}
	cfg := smallConfig()
	cfg.Headers.MaxEncodingTokens = 8
	o := feed(cfg, [][]byte{[]byte(head + "\r\n")})
	if n := len(transfer); n > 0 && len(transfer[n-1]) != 7 {
		sym.Reach("endless")
		sym.ObserveInt("state", o.state)
		sym.Assert(o.state == 2, "a request whose body has no end is accepted")
		return
	}
	sym.Assert(o.state == 1, "a well-formed request is refused")
	e := o.req.Encoding
	sym.ObserveBool("chunked", e.Chunked)
	sym.Assert(e.Chunked == chunked, "chunked is not recognised, or without being there")
	sameList(e.Transfer, transfer)
	sameList(e.Content, content)
	sym.Reach("done")
}

func sameList(got, want []string) {
	sym.Assert(len(got) == len(want), "an encoding is lost or invented")
	for i := range got {
		sym.Assert(got[i] == want[i], "an encoding is another one")
	}
}

// Pairs: two headers with a meaning do not disturb each other, in any order.
func Pairs() {
	names := [...]string{"Content-Length", "Transfer-Encoding", "Content-Type", "Connection", "Upgrade", "Trailer", "Content-Encoding"}
	vals := [...]string{"17", "gzip, chunked", "a/b", "close", "foo, HTTP/1.0", "x", "gzip , br"}
	i, j, k := sym.Choice("i", 7), sym.Choice("j", 7), sym.Choice("k", 7)
	sym.Assume(i != j && j != k && i != k)
	head := "POST / HTTP/1.1\r\n"
	for _, x := range [...]int{i, j, k} {
		head += names[x] + ": " + vals[x] + "\r\n"
	}
	o := feed(smallConfig(), [][]byte{[]byte(head + "\r\n")})
	sym.Assert(o.state == 1, "a well-formed request is refused")
	r := o.req
	on := func(x int) bool { return i == x || j == x || k == x }
	sym.ObserveInt("length", r.ContentLength)
	sym.Assert((r.ContentLength == 17) == on(0) && (r.ContentLength == 0) == !on(0), "Content-Length is not taken from its header")
	sym.Assert(r.Encoding.Chunked == on(1) && (len(r.Encoding.Transfer) == 2) == on(1) && (len(r.Encoding.Transfer) == 0) == !on(1), "Transfer-Encoding is not taken from its header")
	sym.Assert((r.ContentType == "a/b") == on(2) && (r.ContentType == "") == !on(2), "the content type is not taken from its header")
	sym.Assert((r.Connection == "close") == on(3) && (r.Connection == "") == !on(3), "Connection is not taken from its header")
	sym.Assert((r.Upgrade == proto.HTTP10) == on(4) && (r.Upgrade == proto.Unknown) == !on(4), "Upgrade is not taken from its header")
	sym.Assert(r.Encoding.HasTrailer == on(5), "Trailer is not taken from its header")
	sym.Assert((len(r.Encoding.Content) == 2) == on(6) && (len(r.Encoding.Content) == 0) == !on(6), "Content-Encoding is not taken from its header")
	sym.Reach("done")
}

// Special: the headers with a meaning are recognised in any letter case, and only they.
func Special() {
	names := [...]string{"content-length", "transfer-encoding", "content-type", "connection", "upgrade", "trailer", "content-encoding"}
	vals := [...]string{"17", "gzip, chunked", "a/b", "close", "foo, HTTP/1.0", "x", "gzip , br"}
	which := sym.Param("name", 0)
	name, val := names[which], vals[which]
	key := token("k", len(name))
	switch sym.Param("near", 0) {
	case 0:
		// the very name
		key = anyCase("case", name)
	case 2:
		// any bytes, of which names may be made or not
		key = sym.String("any", len(name))
		for i := 0; i < len(key); i++ {
			sym.Assume(key[i] != ':' && key[i] != '\n' && (i > 0 || key[i] != '\r'))
		}
	}
	is := fold(key, name)
	for i := range names {
		// two of the names have the same length
		sym.Assume(i == which || !fold(key, names[i]))
	}
	eol := lineEnd()
	o := feed(smallConfig(), [][]byte{[]byte("GET / HTTP/1.1" + eol + "A: b" + eol + key + ": " + val + eol + "C: d" + eol + eol)})
	if sym.Param("near", 0) == 2 && !is && o.state != 1 {
		sym.Reach("ordinary")
		return
	}
	sym.Assert(o.state == 1, "a well-formed request is refused")
	r := o.req
	if is {
		sym.Reach("special")
	} else {
		sym.Reach("ordinary")
	}
	sym.ObserveBool("is", is)
	for i := range names {
		on := is && i == which
		switch i {
		case 0:
			sym.Assert((r.ContentLength == 17) == on && (r.ContentLength == 0) == !on, "Content-Length is not taken from its header")
		case 1:
			sym.Assert(r.Encoding.Chunked == on, "chunked is not taken from Transfer-Encoding")
			n := 0
			if on {
				n = 2
				sym.Assert(r.Encoding.Transfer[0] == "gzip" && r.Encoding.Transfer[1] == "chunked", "the transfer encodings are other ones")
			}
			sym.Assert(len(r.Encoding.Transfer) == n, "the transfer encodings are not taken from their header")
		case 2:
			sym.Assert((r.ContentType == "a/b") == on && (r.ContentType == "") == !on, "the content type is not taken from its header")
		case 3:
			sym.Assert((r.Connection == "close") == on && (r.Connection == "") == !on, "Connection is not taken from its header")
		case 4:
			sym.Assert((r.Upgrade == proto.HTTP10) == on && (r.Upgrade == proto.Unknown) == !on, "Upgrade is not taken from its header")
		case 5:
			sym.Assert(r.Encoding.HasTrailer == on, "Trailer is not taken from its header")
		case 6:
			n := 0
			if on {
				n = 2
				sym.Assert(r.Encoding.Content[0] == "gzip" && r.Encoding.Content[1] == "br", "the content encodings are other ones")
			}
			sym.Assert(len(r.Encoding.Content) == n, "the content encodings are not taken from their header")
		}
	}
	h := r.Headers.Unwrap()
	sym.Assert(len(h) >= 2 && h[0].Key == "A" && h[0].Value == "b" && h[len(h)-1].Key == "C" && h[len(h)-1].Value == "d", "another header is damaged")
	if !is || which != 0 {
		sym.Assert(len(h) == 3 && h[1].Key == key && h[1].Value == val, "a header is lost")
	}
}

// Length: a Content-Length value is the decimal number it spells, or refused.
func Length() {
	n := sym.Param("n", 3)
	val := sym.String("v", n)
	head := "POST / HTTP/1.1\r\nContent-Length:" + sym.ParamS("prefix", "") + val
	if sym.Param("twice", 0) == 1 {
		head += "\r\nContent-Length: 1"
	}
	o := feed(smallConfig(), [][]byte{[]byte(head + "\r\n\r\n")})
	for i := 0; i < n; i++ {
		sym.Assume(val[i] != '\n' && val[i] != '\r')
	}
	full := sym.ParamS("prefix", "") + val
	i, j := 0, len(full)
	for i < j && full[i] == ' ' {
		i++
	}
	for j > i && full[j-1] == ' ' {
		j--
	}
	want, ok := uint64(0), i < j
	for ; i < j; i++ {
		c := full[i]
		if c < '0' || c > '9' {
			ok = false
			break
		}
		d := uint64(c - '0')
		if want > (1<<63-1-d)/10 {
			ok = false
			break
		}
		want = want*10 + d
	}
	if sym.Param("twice", 0) == 1 && want != 1 {
		ok = false
	}
	sym.ObserveInt("state", o.state)
	if ok {
		sym.Reach("valid")
		sym.Assert(o.state == 1 && uint64(o.req.ContentLength) == want, "a content length is misread")
	} else {
		sym.Reach("invalid")
		sym.Assert(o.state == 2, "an ambiguous or overflowing content length is accepted")
	}
}
