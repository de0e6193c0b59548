package data

import (
	"errors"
	"io"
	"strconv"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/http/mime"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/response"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	"github.com/indigo-web/indigo/internal/zzjson"
	"github.com/indigo-web/indigo/internal/zzos"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

var (
	errBody = errors.New("body failed")
	errJSON = errors.New("malformed")
)

// body is a request's body of the harness.
type body struct {
	data []byte
	err  error
	read int
}

func (b *body) Read([]byte) (int, error) { return 0, io.EOF }
func (b *body) Bytes() ([]byte, error) {
	b.read++
	if b.err != nil {
		return nil, b.err
	}
	return b.data, nil
}
func (b *body) String() (string, error) {
	data, err := b.Bytes()
	return string(data), err
}
func (b *body) Callback(cb http.OnBodyCallback) error { return cb(b.data) }
func (b *body) Retrieve() ([]byte, error)             { return nil, io.EOF }
func (b *body) Discard() error                        { return nil }
func (b *body) Init(*http.Request)                    {}

func request(b http.Body) *http.Request {
	return construct.Request(config.Default(), dummy.NewNopClient(), b)
}

func eqFold(a, b string) bool { return same(a, b) }

// JSONIn: a body is decoded whole, unless it is marked as something else or cannot be read.
func JSONIn() {
	b := &body{data: sym.Bytes("body", sym.Param("n", 2))}
	orig := string(b.data)
	if sym.Bool("fail") {
		b.err = errBody
	}
	r := request(b)
	foreign := false
	switch sym.Choice("ctype", 4) {
	case 1:
		r.ContentType = "application/json"
	case 2:
		r.ContentType, foreign = "text/html", true
	case 3:
		ct := sym.String("ct", sym.Param("ct", 16))
		// other spellings and parameters are left open
		for i := 0; i < len(ct); i++ {
			sym.Assume(ct[i] != ';' && ct[i] != ' ')
		}
		if len(ct) > 0 {
			sym.Assume(ct == mime.JSON || !eqFold(ct, mime.JSON))
		}
		r.ContentType, foreign = ct, ct != "" && ct != mime.JSON
	}
	var model int
	calls, bad := 0, sym.Bool("bad")
	zzjson.OnRead = func(data []byte, m any) error {
		calls++
		sym.Assert(string(data) == orig, "another text than the body is decoded")
		p, ok := m.(*int)
		sym.Assert(ok && p == &model, "the body is decoded into something else than the model")
		*p = 7
		if bad {
			return errJSON
		}
		return nil
	}
	err := r.JSON(&model)
	sym.ObserveBool("ok", err == nil)
	switch {
	case foreign:
		sym.Reach("foreign")
		sym.Assert(err == status.ErrUnsupportedMediaType && calls == 0 && model == 0, "a body of another media type is decoded")
	case b.err != nil:
		sym.Reach("broken")
		sym.Assert(err == errBody && calls == 0, "an error of the body is not returned")
	case bad:
		sym.Reach("malformed")
		sym.Assert(err == errJSON, "the error of decoding is not returned")
	default:
		sym.Reach("decoded")
		sym.Assert(err == nil && calls == 1 && model == 7, "a body is not decoded")
	}
}

// JSONOut: a model becomes the whole body of a response marked as JSON, or an error.
func JSONOut() {
	n := sym.Param("n", 2)
	prev := sym.Bytes("prev", n)
	old := string(prev)
	r := request(nil)
	resp := r.Respond()
	switch sym.Choice("ctype", 3) {
	case 1:
		resp.ContentType("text/plain")
	case 2:
		resp.Header("content-type", "application/xml")
	}
	switch sym.Choice("before", 3) {
	case 1:
		resp.Bytes(prev[:sym.Choice("used", n+1)])
	case 2:
		resp.String(string(prev)).Code(status.Created)
	}
	code := resp.Reveal().Code
	a, b := sym.String("a", n), sym.String("b", n)
	var fail error
	switch sym.Choice("fail", 3) {
	case 1:
		fail = errJSON
	case 2:
		fail = status.ErrBadRequest
	}
	zzjson.OnWrite = func(m any) ([]string, error) {
		sym.Assert(m == any(5), "another model is encoded")
		return []string{a, b}, fail
	}
	if sym.Bool("try") {
		got, err := resp.TryJSON(5)
		sym.Assert(err == fail, "the error of encoding is not returned, or made up")
		if err != nil {
			return
		}
		resp = got
	} else {
		switch sym.Choice("short", 2) {
		case 0:
			resp = resp.JSON(5)
		case 1:
			resp, code = http.JSON(r, 5), status.OK
		}
	}
	f := resp.Reveal()
	sym.ObserveStr("body", string(f.Body))
	sym.Assert(string(prev) == old, "memory of the handler is overwritten")
	switch fail {
	case nil:
		sym.Reach("encoded")
		sym.Assert(string(f.Body) == a+b, "the body is not the encoded model")
		sym.Assert(f.ContentType == "application/json" && f.Code == code, "a JSON response is not marked as such, or loses its code")
	case errJSON:
		sym.Reach("failed")
		sym.Assert(f.Code == status.InternalServerError, "a failed encoding is not answered with 500")
	default:
		sym.Assert(f.Code == status.BadRequest, "a failed encoding is not answered with the code of its error")
	}
	first := f.Body
	snap := string(first)
	other := request(nil)
	fail = nil
	zzjson.OnWrite = func(any) ([]string, error) { return []string{"other"}, nil }
	other.Respond().JSON(6)
	sym.Assert(string(first) == snap, "the body changes when another response is made")
}

// Build: k steps of building a response, compared with a record of them.
func Build() {
	r := request(nil)
	resp := r.Respond()
	if sym.Bool("own") {
		resp = http.NewResponse()
	}
	var (
		code        = status.OK
		text        status.Status
		ctype       = response.DefaultContentType
		coding      string
		hdrs        []headers.Header
		content     string
		cookies     []cookie.Cookie
		reader      io.Reader
		size        int
		mine        = []byte("0123456789")
		str         = func(l string) string { return sym.String(l, sym.Choice(l+"n", 3)) }
		contentType = []string{"Content-Type", "content-type", "CONTENT-TYPE"}
	)
	owned := false // the body may be appended to in place
	for i := 0; i < sym.Param("k", 2); i++ {
		before := resp
		switch sym.Choice("op", 16) {
		case 14:
			resp = resp.Header([]string{"Content-Type", "transfer-encoding", "X"}[sym.Choice("none", 3)])
		case 15:
			// more than there is room for
			for j := 0; j < 20; j++ {
				v := strconv.Itoa(j)
				resp = resp.Header("Many", v)
				hdrs = append(hdrs, headers.Header{Key: "Many", Value: v})
			}
		case 0:
			code = status.Code(sym.Int("code", 0, 65535))
			resp = resp.Code(code)
		case 1:
			text = str("text")
			resp = resp.Status(text)
		case 2:
			ctype = str("ctype")
			resp = resp.ContentType(ctype)
		case 3:
			coding = str("coding")
			resp = resp.TransferEncoding(coding)
		case 4:
			k, v := "X-"+str("key"), str("value")
			resp = resp.Header(k, v)
			hdrs = append(hdrs, headers.Header{Key: k, Value: v})
		case 5:
			k, v, w := "Y"+str("key"), str("value"), str("value")
			resp = resp.Header(k, v, w)
			hdrs = append(hdrs, headers.Header{Key: k, Value: v}, headers.Header{Key: k, Value: w})
		case 6:
			ctype = str("ctype")
			resp = resp.Header(contentType[sym.Choice("spelling", 3)], ctype)
		case 7:
			coding = str("coding")
			resp = resp.Header("Transfer-encoding", coding)
		case 8:
			content = str("body")
			owned = false
			resp = resp.String(content)
		case 9:
			content = string(mine[:2])
			owned = true
			resp = resp.Bytes(mine[:2])
		case 10:
			b := []byte(str("more"))
			sym.Assume(!owned) // appending to a slice of the handler may use its capacity
			n, err := resp.Write(b)
			sym.Assert(n == len(b) && err == nil, "writing into a response fails or is incomplete")
			content += string(b)
			for j := range b {
				b[j] = '#'
			}
		case 11:
			c, d := cookie.New(str("name"), "v"), cookie.New("second", "w")
			resp = resp.Cookie(c, d)
			cookies = append(cookies, c, d)
		case 12:
			reader, size = new(body), sym.Int("size", -1, 1000)
			resp = resp.Attachment(reader, size)
		case 13:
			v := str("value")
			resp = resp.Headers(map[string][]string{"Z": {v, "2"}})
			hdrs = append(hdrs, headers.Header{Key: "Z", Value: v}, headers.Header{Key: "Z", Value: "2"})
		}
		sym.Assert(resp == before, "building a response returns another one")
	}
	f := resp.Reveal()
	sym.ObserveInt("code", int(f.Code))
	sym.ObserveStr("body", string(f.Body))
	sym.Assert(f.Code == code, "the code of a response differs from the one set")
	sym.Assert(f.Status == text, "the status text of a response differs from the one set")
	sym.Assert(f.ContentType == ctype, "the content type of a response differs from the one set")
	sym.Assert(f.TransferEncoding == coding, "the transfer encoding of a response differs from the one set")
	sym.Assert(string(f.Body) == content, "the body of a response differs from the one set")
	sym.Assert(len(f.Headers) == len(hdrs) && len(f.Cookies) == len(cookies), "headers or cookies of a response are lost or added")
	for i := range hdrs {
		sym.Assert(f.Headers[i] == hdrs[i], "a header of a response differs from the one set")
	}
	for i := range cookies {
		sym.Assert(f.Cookies[i] == cookies[i], "a cookie of a response differs from the one set")
	}
	sym.Assert(f.Attachment.Content() == reader && f.Attachment.Size() == size, "the attachment of a response differs from the one set")
	sym.Reach("built")
	f = r.Respond().Reveal()
	sym.Assert(f.Code == status.OK && f.Status == "" && f.ContentType == response.DefaultContentType && f.TransferEncoding == "" &&
		len(f.Body) == 0 && len(f.Headers) == 0 && len(f.Cookies) == 0 && f.Attachment.Content() == nil && f.Attachment.Size() == 0,
		"a new response keeps something of the previous one")
	r.Respond().Write([]byte("###"))
	sym.Assert(string(f.Body) == "###", "the body of a new response differs from the one written")
	sym.Assert(string(mine) == "0123456789", "memory of the handler is overwritten")
}

type myError struct{ msg string }

func (m myError) Error() string { return m.msg }

// Err: an error becomes its code, or 500 or the given code with its message.
func Err() {
	msg := sym.String("msg", sym.Param("n", 2))
	var (
		err   error
		plain bool
	)
	code := status.Code(sym.Int("code", 0, 65535))
	switch sym.Choice("kind", 4) {
	case 1:
		err = status.NewError(code, msg)
	case 2:
		err, plain = myError{msg}, true
	case 3:
		err, plain = errors.New(msg), true
	}
	r := request(nil)
	resp := r.Respond().Code(status.Accepted).Header("X", "1").String("old")
	var given []status.Code
	for i := 0; i < sym.Choice("given", 3); i++ {
		given = append(given, status.Code(sym.Int("custom", 0, 65535)))
	}
	short := sym.Bool("short")
	if short {
		resp = http.Error(r, err, given...)
	} else {
		resp = resp.Error(err, given...)
	}
	f := resp.Reveal()
	sym.ObserveInt("code", int(f.Code))
	switch {
	case err == nil:
		sym.Reach("nil")
		sym.Assert(short && f.Code == status.OK && len(f.Body) == 0 || !short && f.Code == status.Accepted && string(f.Body) == "old", "no error changes the response")
	case !plain:
		sym.Reach("http")
		sym.Assert(f.Code == code, "an HTTP error is answered with another code")
		sym.Assert(short && len(f.Body) == 0 || !short && string(f.Body) == "old", "an HTTP error changes more than the code")
	default:
		sym.Reach("plain")
		want := status.InternalServerError
		if len(given) > 0 {
			want = given[0]
		}
		sym.Assert(f.Code == want && string(f.Body) == msg, "an error is not answered with its code and its message")
	}
	if !short {
		sym.Assert(len(f.Headers) == 1, "an error drops the headers of the response")
	}
}

// FileOf: a file becomes the attachment with its size and the media type of its extension.
func FileOf() {
	n := sym.Param("n", 2)
	name := "dir.d/" + sym.String("name", n)
	ext := ""
	switch sym.Choice("ext", 5) {
	case 1:
		ext = ".html"
	case 2:
		ext = ".png"
	case 3:
		ext = ".unknown"
	case 4:
		ext = ".tar.gz"
	}
	name += ext
	clean := true
	for i := 6; i < 6+n; i++ {
		sym.Assume(name[i] != '/')
		clean = clean && name[i] != '.'
	}
	sym.Assume(clean || ext != "")
	kind := sym.Choice("kind", 4)
	zzos.Asked, zzos.Opened = nil, nil
	zzos.Lookup = func(string) (zzos.Entry, bool) {
		return zzos.Entry{Data: "data", Dir: kind == 1, StatErr: kind == 2}, kind != 3
	}
	r := request(nil)
	resp := r.Respond().Header("X", "1")
	var err error
	try := sym.Choice("how", 3)
	switch try {
	case 0:
		resp = resp.File(name)
	case 1:
		resp, err = resp.TryFile(name)
	case 2:
		resp = http.File(r, name)
	}
	f := resp.Reveal()
	sym.ObserveInt("code", int(f.Code))
	sym.Assert(len(zzos.Asked) >= 1 && zzos.Asked[0] == name, "another file is opened")
	if kind != 0 {
		sym.Reach("missing")
		want := status.NotFound
		if kind == 2 {
			want = status.InternalServerError
		}
		if try == 1 {
			he, ok := err.(status.HTTPError)
			sym.Assert(ok && he.Code == want, "a file that cannot be served yields another error")
		} else {
			sym.Assert(f.Code == want, "a file that cannot be served is answered with another code")
		}
		sym.Assert(f.Attachment.Content() == nil, "something that is no readable file is attached")
		for _, o := range zzos.Opened {
			sym.Assert(o.Closed == 1, "a descriptor is leaked")
		}
		return
	}
	sym.Reach("served")
	sym.Assert(err == nil && f.Code == status.OK, "an existing file is refused")
	sym.Assert(f.Attachment.Size() == 4 && len(zzos.Opened) == 1 && f.Attachment.Content() == io.Reader(zzos.Opened[0]) && zzos.Opened[0].Closed == 0,
		"the attachment is not the opened file with its size")
	want := mime.OctetStream
	switch ext {
	case ".html":
		want = mime.Extension[".html"]
	case ".png":
		want = "image/png"
	case ".tar.gz":
		want = "application/gzip"
	}
	sym.Assert(f.ContentType == want, "a file is sent with another media type than the one of its extension")
}

// RequestCookies: the cookies of all Cookie headers, on every call.
func RequestCookies() {
	k, n := sym.Param("k", 2), sym.Param("n", 1)
	r := request(nil)
	var pairs []pair
	bad := false
	for i := 0; i < k; i++ {
		key, value := string(word("key", sym.Choice("kn", n+1))), string(word("value", n))
		bad = bad || key == ""
		name := []string{"Cookie", "cookie", "COOKIE"}[sym.Choice("name", 3)]
		r.Headers.Add(name, key+"="+value)
		r.Headers.Add("X-Cookie", "other=1")
		pairs = append(pairs, pair{key, value})
	}
	for call := 0; call < 2; call++ {
		jar, err := r.Cookies()
		if bad {
			sym.Reach("bad")
			sym.Assert(err == cookie.ErrBadCookie && jar == nil, "malformed cookies are not reported")
			continue
		}
		sym.Reach("good")
		sym.Assert(err == nil, "well-formed cookies are refused")
		all := jar.Unwrap()
		sym.Assert(len(all) == len(pairs), "cookies are lost or repeated")
		for i, p := range pairs {
			sym.Assert(all[i].Key == p.key && all[i].Value == p.value, "a cookie differs from the one in its header")
		}
	}
	// the next request on the connection
	if r.Body = new(body); r.Clear() == nil {
		jar, err := r.Cookies()
		sym.Assert(err == nil && jar.Len() == 0, "cookies of the previous request are seen")
	}
}
