package h1

import (
	"io"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/proto"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// Version: exactly the known protocol versions are recognised.
func Version() {
	b := sym.Bytes("b", sym.Param("n", 8))
	if sym.Param("near", 0) == 1 {
		copy(b, "HTTP/")
	}
	s := string(b)
	got := proto.FromBytes(b)
	sym.ObserveInt("got", int(got))
	want := proto.Unknown
	switch s {
	case "HTTP/1.0":
		want = proto.HTTP10
	case "HTTP/1.1":
		want = proto.HTTP11
	case "HTTP/2.0":
		want = proto.HTTP2
	}
	sym.Assert(got == want, "a protocol version is misread")
	if want != proto.Unknown {
		sym.Reach("known")
	}
	major, minor := sym.Byte("major"), sym.Byte("minor")
	got = proto.Parse(major, minor)
	switch {
	case major == 1 && minor == 0:
		want = proto.HTTP10
	case major == 1 && minor == 1:
		want = proto.HTTP11
	case major == 2 && minor == 0:
		want = proto.HTTP2
	default:
		want = proto.Unknown
	}
	sym.Assert(got == want, "a pair of version numbers is misread")
	p := proto.Proto(sym.Byte("p"))
	name := p.String()
	switch p {
	case proto.HTTP10:
		sym.Assert(name == "HTTP/1.0 ", "a protocol is misspelt")
	case proto.HTTP11:
		sym.Assert(name == "HTTP/1.1 ", "a protocol is misspelt")
	case proto.HTTP2:
		sym.Assert(name == "HTTP/2 ", "a protocol is misspelt")
	default:
		sym.Assert(name == "", "an unknown protocol has a name")
	}
}

// Upgrade: the first supported protocol of an upgrade list is chosen.
func Upgrade() {
	known := [...]string{"http/1.0", "HTTP/1.0", "http/1.1", "HTTP/1.1", "h2c", "H2C"}
	protos := [...]proto.Proto{proto.HTTP10, proto.HTTP10, proto.HTTP11, proto.HTTP11, proto.HTTP2, proto.HTTP2}
	pads := [...]string{"", " ", "\t", "  "}
	list := ""
	want := proto.Unknown
	k := sym.Param("k", 3)
	for i := 0; i < k; i++ {
		if i > 0 {
			list += ","
		}
		var tok string
		p := proto.Unknown
		if c := sym.Choice("token", len(known)+1); c < len(known) {
			tok, p = known[c], protos[c]
		} else {
			tok = sym.String("t", sym.Param("n", 3))
			for j := 0; j < len(tok); j++ {
				sym.Assume(tok[j] > 0x20 && tok[j] < 0x7f && tok[j] != ',')
			}
			sym.Assume(tok != "h2c" && tok != "H2C" && tok != "http/1.0" && tok != "HTTP/1.0" && tok != "http/1.1" && tok != "HTTP/1.1")
		}
		list += pads[sym.Choice("before", sym.Param("pads", 4))] + tok + pads[sym.Choice("after", sym.Param("pads", 4))]
		if want == proto.Unknown {
			want = p
		}
	}
	got := proto.ChooseUpgrade(list)
	sym.ObserveInt("got", int(got))
	sym.Assert(got == want, "another protocol of the list is chosen")
	if want == proto.Unknown {
		sym.Reach("none")
	} else {
		sym.Reach("chosen")
	}
}

// Hijack: the connection is handed over untouched, after the body.
func Hijack() {
	cfg := smallConfig()
	heads := [...]string{
		"GET / HTTP/1.1\r\n\r\n",
		"POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc",
		"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n",
	}
	kind := sym.Param("kind", 0)
	more := sym.String("m", sym.Param("n", 3))
	w := &wire{stream: []byte(heads[kind] + more), end: io.EOF}
	w.cuts = chop(sym.Param("cuts", 1), len(w.stream))
	cfg.TCP.ReadBufferSize = sym.Param("buff", 64)
	read := sym.Bool("read")
	got := ""
	answer := sym.Choice("answer", 4)
	a := converse(cfg, w, func(i int, r *http.Request, s *seen) *http.Response {
		sym.Assert(!r.WasHijacked(), "a request is born hijacked")
		if read {
			b, err := r.Body.Bytes()
			sym.Assert(err == nil && (kind == 0 || string(b) == "abc"), "the body before hijacking is lost")
		}
		client, err := r.Hijack()
		sym.Assert(err == nil && client != nil && r.WasHijacked(), "hijacking fails")
		for len(got) < len(more) {
			b, err := client.Read()
			sym.Assert(err == nil, "the hijacked connection is broken")
			got += string(b)
		}
		w.noReads = true
		sym.Assert(client.Write([]byte("mine")) == nil, "the hijacked connection is not writable")
		switch answer {
		case 1:
			return http.Code(r, 101)
		case 2:
			return http.Error(r, io.ErrUnexpectedEOF)
		case 3:
			return nil
		}
		return http.String(r, "ignored")
	})
	sym.Reach("hijacked")
	sym.ObserveStr("got", got)
	sym.Assert(len(a.seen) == 1 && len(a.errs) == 0, "the server goes on with a hijacked connection")
	sym.Assert(got == more, "the hijacker gets other bytes")
	sym.Assert(string(w.out) == "mine", "the server writes to a hijacked connection")
}
