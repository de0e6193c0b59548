// Package leaf holds the harnesses of the leaf packages.
package leaf

import (
	"strconv"

	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/mime"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/address"
	"github.com/indigo-web/indigo/internal/hexconv"
	"github.com/indigo-web/indigo/internal/uridecode"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// hexval is the reference: the value of a hexadecimal digit, or -1.
func hexval(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// Hex: every hexadecimal digit has its value.
func Hex() {
	c := sym.Byte("c")
	v := hexval(c)
	sym.Assume(v >= 0)
	sym.Reach("digit")
	got := hexconv.Parse(c)
	sym.ObserveInt("v", int(got))
	sym.Assert(int(got) == v, "a hexadecimal digit is converted to a different value")
}

// long is a fixed string of n bytes, a whole number of repetitions of the unit and a few letters.
func long(n int, unit string) string {
	b := make([]byte, 0, n)
	for len(b)+len(unit) <= n {
		b = append(b, unit...)
	}
	for len(b) < n {
		b = append(b, 'x')
	}
	return string(b)
}

// Decode: percent-decoding agrees with the specification for every string of n bytes, whatever
// buffer the caller supplies: none (mode 0), an empty one of some capacity (1), the source itself
// (2, what the request parser does), a used one that was truncated (3).
func Decode() {
	src := []byte(long(sym.Param("pre", 0), "/p%41th-%7e") + string(sym.Bytes("src", sym.Param("n", 3))) + long(sym.Param("post", 0), "/%2Fabcdef%zz"[:10]))
	n := len(src)
	orig := string(src)
	var want []byte
	bad, escaped := false, false
	for i := 0; i < n; i++ {
		if orig[i] != '%' {
			want = append(want, orig[i])
			continue
		}
		escaped = true
		if i+2 >= n {
			bad = true
			break
		}
		hi, lo := hexval(orig[i+1]), hexval(orig[i+2])
		if hi < 0 || lo < 0 {
			bad = true
			break
		}
		want = append(want, byte(hi<<4|lo))
		i += 2
	}
	var buff []byte
	switch sym.Param("mode", 0) {
	case 1:
		buff = make([]byte, 0, sym.Param("cap", 2))
	case 2:
		buff = src[:0]
	case 3:
		buff = append(buff, "0123456789abcdefghij"+long(sym.Param("pre", 0), "0")...)[:0]
	}
	got, err := uridecode.Decode(src, buff)
	sym.ObserveBool("err", err != nil)
	if bad {
		sym.Reach("bad")
		sym.Assert(err != nil, "a malformed percent escape is accepted")
		sym.Assert(err == status.ErrURIDecoding, "a malformed percent escape is reported as another error")
		return
	}
	sym.Reach("good")
	if escaped {
		sym.Reach("escaped")
	}
	sym.ObserveBytes("got", got)
	sym.Assert(err == nil, "a well-formed string is refused")
	sym.Assert(string(got) == string(want), "the decoded string differs from the specification")
	if other, err := uridecode.Decode([]byte("other%41%2f%7a"), nil); err != nil || string(other) != "otherA/z" {
		sym.Fail("the decoder does not work a second time")
	}
	sym.Assert(string(got) == string(want), "a decoded string is overwritten by the next one")
	if sym.Param("mode", 0) != 2 {
		sym.Assert(string(src) == orig, "the source is modified")
	}
}

var methodNames = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

// Method: parsing is exact for every string of n bytes.
func Method() {
	s := sym.String("s", sym.Param("n", 3)) + long(sym.Param("pad", 0), "GETPOST")
	m := method.Parse(s)
	sym.ObserveInt("m", int(m))
	want := method.Unknown
	for i, k := range methodNames {
		if s == k {
			want = method.Method(i + 1)
		}
	}
	sym.Reach("parsed")
	sym.Assert(m == want, "a string is recognised as the wrong method")
	if m != method.Unknown {
		sym.Reach("known")
		sym.Assert(m.String() == s, "the method does not print as it was parsed")
	}
}

// MethodName: every method value prints as its name, and the list is indexed by method.
func MethodName() {
	b := sym.Byte("m")
	m := method.Method(b)
	name := m.String()
	sym.ObserveStr("name", name)
	sym.Assert(len(method.List) == len(methodNames) && int(method.Count) == len(methodNames), "the number of methods is wrong")
	if b == 0 || int(b) > len(methodNames) {
		sym.Assert(method.Parse(name) == method.Unknown, "an unknown method prints as a known one")
		return
	}
	sym.Reach("known")
	sym.Assert(name == methodNames[b-1], "a method has the wrong name")
	sym.Assert(method.List[b-1] == m, "the method list is not indexed by method")
	sym.Assert(method.Parse(name) == m, "a method does not parse back")
}

// reason is the IANA registry.
func reason(code int) string {
	switch code {
	case 100:
		return "Continue"
	case 101:
		return "Switching Protocols"
	case 102:
		return "Processing"
	case 103:
		return "Early Hints"
	case 200:
		return "OK"
	case 201:
		return "Created"
	case 202:
		return "Accepted"
	case 203:
		return "Non-Authoritative Information"
	case 204:
		return "No Content"
	case 205:
		return "Reset Content"
	case 206:
		return "Partial Content"
	case 207:
		return "Multi-Status"
	case 208:
		return "Already Reported"
	case 226:
		return "IM Used"
	case 300:
		return "Multiple Choices"
	case 301:
		return "Moved Permanently"
	case 302:
		return "Found"
	case 303:
		return "See Other"
	case 304:
		return "Not Modified"
	case 305:
		return "Use Proxy"
	case 307:
		return "Temporary Redirect"
	case 308:
		return "Permanent Redirect"
	case 400:
		return "Bad Request"
	case 401:
		return "Unauthorized"
	case 402:
		return "Payment Required"
	case 403:
		return "Forbidden"
	case 404:
		return "Not Found"
	case 405:
		return "Method Not Allowed"
	case 406:
		return "Not Acceptable"
	case 407:
		return "Proxy Authentication Required"
	case 408:
		return "Request Timeout"
	case 409:
		return "Conflict"
	case 410:
		return "Gone"
	case 411:
		return "Length Required"
	case 412:
		return "Precondition Failed"
	case 413:
		return "Request Entity Too Large"
	case 414:
		return "Request URI Too Long"
	case 415:
		return "Unsupported Media Type"
	case 416:
		return "Requested Range Not Satisfiable"
	case 417:
		return "Expectation Failed"
	case 418:
		return "I'm a teapot"
	case 421:
		return "Misdirected Request"
	case 422:
		return "Unprocessable Entity"
	case 423:
		return "Locked"
	case 424:
		return "Failed Dependency"
	case 425:
		return "Too Early"
	case 426:
		return "Upgrade Required"
	case 428:
		return "Precondition Required"
	case 429:
		return "Too Many Requests"
	case 431:
		return "Request Header Fields Too Large"
	case 451:
		return "Unavailable For Legal Reasons"
	case 500:
		return "Internal Server Error"
	case 501:
		return "Not Implemented"
	case 502:
		return "Bad Gateway"
	case 503:
		return "Service Unavailable"
	case 504:
		return "Gateway Timeout"
	case 505:
		return "HTTP Version Not Supported"
	case 506:
		return "Variant Also Negotiates"
	case 507:
		return "Insufficient Storage"
	case 508:
		return "Loop Detected"
	case 510:
		return "Not Extended"
	case 511:
		return "Network Authentication Required"
	}
	return ""
}

// Status: every status code 0..65535 has the registered reason phrase, and the prepared status
// line, where there is one, is exactly the code, the phrase and CRLF.
func Status() {
	code := sym.Int("code", 0, 65535)
	text := status.Text(status.Code(code))
	line := status.Line(status.Code(code))
	sym.ObserveStr("text", text)
	sym.ObserveStr("line", line)
	want := reason(code)
	sym.Assert(len(text) > 0, "a status code has no text")
	for i := 0; i < len(text); i++ {
		sym.Assert(text[i] >= ' ' && text[i] < 0x7f, "a reason phrase contains a control character")
	}
	if want == "" {
		sym.Reach("unregistered")
		if code != 439 {
			sym.Assert(text == status.Text(0), "a code that is not registered has a phrase of its own")
		}
		// the private code 439 only closes the connection
		if line != "" {
			sym.Assert(line == strconv.Itoa(code)+" "+text+"\r\n", "the status line is not the code and its text")
		}
		return
	}
	sym.Reach("registered")
	sym.Assert(text == want, "a registered status code has another reason phrase")
	sym.Assert(line == strconv.Itoa(code)+" "+want+"\r\n", "the status line is not the code, the reason phrase and CRLF")
}

// StatusErrors: an error carries the code and the message it was made with, and the errors the
// server itself reports carry the codes clients rely on.
func StatusErrors() {
	code := status.Code(sym.Int("code", 0, 65535))
	msg := sym.String("msg", sym.Param("n", 2))
	err := status.NewError(code, msg)
	sym.Assert(err.Error() == msg, "an error loses its message")
	h, ok := err.(status.HTTPError)
	sym.Assert(ok, "an error is not an HTTPError")
	sym.ObserveInt("code", int(h.Code))
	sym.Assert(h.Code == code, "an error loses its code")
	sym.Reach("made")
	other := status.Code(sym.Int("other", 0, 65535))
	err2 := status.NewError(other, msg)
	sym.Assert((err == err2) == (code == other), "errors of different codes compare equal")
	for _, e := range []struct {
		err  error
		code int
	}{
		{status.ErrBadRequest, 400}, {status.ErrTooLongRequestLine, 400}, {status.ErrURIDecoding, 400},
		{status.ErrBadQuery, 400}, {status.ErrNotFound, 404}, {status.ErrInternalServerError, 500},
		{status.ErrNotImplemented, 501}, {status.ErrMethodNotImplemented, 501}, {status.ErrMethodNotAllowed, 405},
		{status.ErrTooLarge, 413}, {status.ErrBodyTooLarge, 413}, {status.ErrRequestEntityTooLarge, 413},
		{status.ErrHeaderFieldsTooLarge, 431}, {status.ErrHeaderKeyTooLarge, 431}, {status.ErrHeaderValueTooLarge, 431},
		{status.ErrTooManyHeaders, 431}, {status.ErrRequestHeaderFieldsTooLarge, 431}, {status.ErrURITooLong, 414},
		{status.ErrRequestURITooLong, 414}, {status.ErrUnsupportedProtocol, 505}, {status.ErrHTTPVersionNotSupported, 505},
		{status.ErrUnauthorized, 401}, {status.ErrPaymentRequired, 402}, {status.ErrForbidden, 403},
		{status.ErrNotAcceptable, 406}, {status.ErrProxyAuthRequired, 407}, {status.ErrRequestTimeout, 408},
		{status.ErrConnectionTimeout, 408}, {status.ErrConflict, 409}, {status.ErrGone, 410}, {status.ErrLengthRequired, 411},
		{status.ErrPreconditionFailed, 412}, {status.ErrUnsupportedMediaType, 415}, {status.ErrUnsupportedEncoding, 415},
		{status.ErrRequestedRangeNotSatisfiable, 416}, {status.ErrExpectationFailed, 417}, {status.ErrTeapot, 418},
		{status.ErrMisdirectedRequest, 421}, {status.ErrUnprocessableEntity, 422}, {status.ErrLocked, 423},
		{status.ErrFailedDependency, 424}, {status.ErrTooEarly, 425}, {status.ErrUpgradeRequired, 426},
		{status.ErrPreconditionRequired, 428}, {status.ErrTooManyRequests, 429}, {status.ErrUnavailableForLegalReasons, 451},
		{status.ErrBadGateway, 502}, {status.ErrServiceUnavailable, 503}, {status.ErrGatewayTimeout, 504},
		{status.ErrVariantAlsoNegotiates, 506}, {status.ErrInsufficientStorage, 507}, {status.ErrLoopDetected, 508},
		{status.ErrNotExtended, 510}, {status.ErrNetworkAuthenticationRequired, 511},
		{status.ErrCloseConnection, int(status.CloseConnection)}, {status.ErrShutdown, int(status.CloseConnection)},
		{status.ErrGracefulShutdown, int(status.CloseConnection)},
	} {
		he, ok := e.err.(status.HTTPError)
		sym.Assert(ok && int(he.Code) == e.code, "an error of the server carries another status code")
		sym.Assert(len(e.err.Error()) > 0, "an error of the server has no message")
	}
}

// Address: helper functions on listening addresses.
func Address() {
	addr := long(sym.Param("pre", 0), "host") + sym.String("addr", sym.Param("n", 3)) + long(sym.Param("post", 0), "host")
	n := len(addr)
	norm := address.Normalize(addr)
	sym.ObserveStr("norm", norm)
	if n == 0 || addr[0] == ':' {
		sym.Reach("port only")
		sym.Assert(norm == "0.0.0.0"+addr, "an address without a host does not get the wildcard host")
	} else {
		sym.Reach("host")
		sym.Assert(norm == addr, "an address with a host is changed")
	}
	sym.Assert(address.Normalize(norm) == norm, "normalising an address twice changes it")
}

// Localhost: exactly the name localhost, in any letter case and with or without a port.
func Localhost() {
	addr := sym.String("addr", sym.Param("n", 9))
	if pre := sym.Param("pre", 0); pre > 0 {
		addr = "LocalHost"[:pre] + addr + "localhost:8080"[pre:]
	}
	n := len(addr)
	got := address.IsLocalhost(addr)
	sym.ObserveBool("got", got)
	host := addr
	for i := 0; i < n; i++ {
		if addr[i] == ':' {
			host = addr[:i]
			break
		}
	}
	// U+017F (long s) and U+212A (Kelvin sign) fold to ASCII letters: left out of the bound
	for i := 0; i < len(host); i++ {
		sym.Assume(host[i] < 0x80)
	}
	want := len(host) == 9
	for i := 0; want && i < 9; i++ {
		c := host[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c != "localhost"[i] {
			want = false
		}
	}
	if want {
		sym.Reach("localhost")
	}
	sym.Assert(got == want, "localhost is not recognised exactly")
}

// IPv4: exactly dotted quads without leading zeros, with or without a port.
func IPv4() {
	addr := sym.String("addr", sym.Param("n", 7))
	switch sym.Param("shape", 0) {
	case 1:
		addr = "192.168.100." + addr
	case 2:
		addr = addr + ".168.0.255:65535"
	case 3:
		addr = "10.0." + addr + ".1:80"
	}
	n := len(addr)
	for i := 0; i < n; i++ {
		c := addr[i]
		sym.Assume(c == '.' || c == ':' || c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c == '%' || c == '[')
	}
	got := address.IsIP(addr)
	sym.ObserveBool("got", got)
	host := addr
	for i := 0; i < n; i++ {
		if addr[i] == ':' {
			host = addr[:i]
			break
		}
	}
	fields, digits, val, ok := 0, 0, 0, len(host) > 0
	for i := 0; i < len(host) && ok; i++ {
		c := host[i]
		switch {
		case c >= '0' && c <= '9':
			if digits == 1 && val == 0 {
				ok = false
			}
			val = val*10 + int(c-'0')
			digits++
			if val > 255 {
				ok = false
			}
		case c == '.':
			if digits == 0 || fields == 3 {
				ok = false
			}
			fields++
			digits, val = 0, 0
		default:
			ok = false
		}
	}
	if ok && (fields != 3 || digits == 0) {
		ok = false
	}
	if ok {
		sym.Reach("ip")
	}
	sym.Assert(got == ok, "an IPv4 address is not recognised exactly")
}

// Mime: the table of extensions.
func Mime() {
	n := sym.Param("n", 4)
	ext := sym.String("ext", n)
	got, found := mime.Extension[ext]
	sym.ObserveBool("found", found)
	sym.ObserveStr("got", got)
	want := ""
	for _, e := range mimeRef {
		if e[0] == ext {
			want = e[1]
		}
	}
	if want != "" {
		sym.Reach("known")
		sym.Assert(found && got == want, "a known extension has another media type")
		return
	}
	if !found {
		return
	}
	// an extension the reference does not know: it must still be a usable entry
	sym.Assert(n > 1 && ext[0] == '.', "an extension without a leading dot")
	slash := 0
	for i := 0; i < len(got); i++ {
		sym.Assert(got[i] >= ' ' && got[i] < 0x7f, "a media type contains a control character")
		if got[i] == '/' {
			slash++
		}
	}
	sym.Assert(slash >= 1, "a media type without a subtype")
}

var mimeRef = [][2]string{
	{".avif", "image/avif"}, {".css", "text/css; charset=utf-8"}, {".gif", "image/gif"},
	{".htm", "text/html; charset=utf-8"}, {".html", "text/html; charset=utf-8"}, {".jpeg", "image/jpeg"},
	{".jpg", "image/jpeg"}, {".js", "text/javascript; charset=utf-8"}, {".json", "application/json"},
	{".mjs", "text/javascript; charset=utf-8"}, {".pdf", "application/pdf"}, {".png", "image/png"},
	{".svg", "image/svg+xml"}, {".wasm", "application/wasm"}, {".webp", "image/webp"},
	{".xml", "text/xml; charset=utf-8"}, {".gz", "application/gzip"}, {".sql", "application/sql"},
	{".tzif", "application/tzif"}, {".yaml", "application/yaml"}, {".xfdf", "application/xfdf"},
	{".zip", "application/zip"}, {".zlib", "application/zlib"}, {".zstd", "application/zstd"},
	{".ico", "image/vnd.microsoft.icon"},
}

// MimeNames: the common media types and the encryption tokens are distinct and as registered.
func MimeNames() {
	sym.Assert(mime.OctetStream == "application/octet-stream" && mime.PlainText == "text/plain" &&
		mime.HTML == "text/html" && mime.JSON == "application/json", "a common media type is misspelt")
	ext := encryption.Token(sym.Byte("ext"))
	sym.Assume(ext >= encryption.Extend)
	sym.Reach("ext")
	sym.ObserveInt("ext", int(ext))
	sym.Assert(encryption.Plain == 0 && encryption.TLS != encryption.Plain, "the encryption tokens collide")
	sym.Assert(ext != encryption.Plain && ext != encryption.TLS, "a custom encryption token collides with a built-in one")
}
