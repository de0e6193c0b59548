package h1

import (
	"io"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/proto"
	sym "github.com/indigo-web/indigo/internal/zzsym"
)

// Persist: a connection is kept exactly when the protocol and the client say so.
func Persist() {
	cfg := smallConfig()
	defaults := sym.Param("defaults", 0) == 1
	if defaults {
		cfg.Headers.Default = map[string]string{"connection": "mine"}
	}
	versions := [...]string{"HTTP/1.0", "HTTP/1.1"}
	v := sym.Choice("version", 2)
	methods := [...]string{"GET", "HEAD", "POST"}
	head := methods[sym.Choice("method", 3)] + " / " + versions[v] + "\r\n"
	n := sym.Param("n", 5)
	value := ""
	if n >= 0 {
		switch sym.Param("spell", 0) {
		case 0:
			value = text("c", n)
		case 1:
			value = anyCase("case", "close")
		case 2:
			value = anyCase("case", "keep-alive")
		}
		head += "Connection: " + value + "\r\n"
	}
	upgrade := proto.Unknown
	switch sym.Param("upgrade", 0) {
	case 1:
		head += "Upgrade: HTTP/1.0\r\n"
		upgrade = proto.HTTP10
	case 2:
		head += "Upgrade: foo, HTTP/1.1\r\n"
		upgrade = proto.HTTP11
	case 3:
		head += "Upgrade: h2c\r\n"
	case 4:
		head += "Upgrade: websocket\r\n"
	}
	head += "\r\n"
	act := sym.Choice("act", 8)
	w := &wire{stream: []byte(head + "GET /second HTTP/1.1\r\n\r\n"), end: io.EOF}
	w.cuts = chop(sym.Param("cuts", 0), len(w.stream))
	a := converse(cfg, w, func(i int, r *http.Request, s *seen) *http.Response {
		if i > 0 {
			return nil
		}
		return answer(act, r, s)
	})
	closed := fold(value, "close")
	keep := v == 1
	if v == 0 {
		keep = fold(value, "keep-alive")
	}
	if upgrade != proto.Unknown && !closed {
		keep = true
	}
	if closed {
		keep = false
	}
	sym.ObserveInt("served", len(a.seen))
	if keep {
		sym.Reach("kept")
		sym.Assert(len(a.seen) == 2 && a.seen[1].path == "/second", "a connection to be kept is given up")
	} else {
		sym.Reach("closed")
		sym.Assert(len(a.seen) == 1, "a connection to be closed is kept")
	}
	sym.Assert(w.closed == 0, "the connection is closed by the protocol")
	// what goes out: an upgrade is announced exactly once, before the response
	out := string(w.out)
	if upgrade != proto.Unknown {
		sym.Reach("upgraded")
		r, rest := readHead(out)
		sym.Assert(r.proto == versions[v] && r.code == "101", "an upgrade is not announced")
		c, val := r.count("upgrade")
		want := "HTTP/1.0"
		if upgrade == proto.HTTP11 {
			want = "HTTP/1.1"
		}
		sym.Assert(c == 1 && val == want, "another protocol is announced")
		c, val = r.count("connection")
		sym.Assert(c == 1 && fold(val, "upgrade"), "the upgrade lacks its connection header")
		c, _ = r.count("content-length")
		sym.Assert(c == 0, "an interim response has a body")
		out = rest
		r, _ = readHead(out)
		sym.Assert(r.proto == want && r.code != "101", "the response after an upgrade has another version")
		if defaults {
			c, val = r.count("connection")
			sym.Assert(c == 1 && val == "mine", "the announcement of an upgrade takes a default header away from the response")
		}
	} else {
		r, _ := readHead(out)
		sym.Assert(r.proto == versions[v] && r.code != "101", "an upgrade is announced without need")
	}
}

// Broken: once a response could not be written, nothing more is served or written.
func Broken() {
	cfg := smallConfig()
	w := &wire{stream: []byte("GET /1 HTTP/1.1\r\n\r\nGET /2 HTTP/1.1\r\n\r\n"), end: io.EOF}
	w.failAt = 1 + sym.Choice("fail", 4)
	act := sym.Choice("act", 8)
	fine := &wire{stream: w.stream, end: io.EOF}
	run := func(w *wire) (*app, []int) {
		var writes []int
		a := converse(cfg, w, func(i int, r *http.Request, s *seen) *http.Response {
			writes = append(writes, w.writes)
			return answer(act, r, s)
		})
		return a, append(writes, w.writes)
	}
	_, ok := run(fine)
	a, _ := run(w)
	sym.ObserveInt("served", len(a.seen))
	if w.failAt <= ok[1] {
		sym.Reach("first")
		sym.Assert(len(a.seen) == 1, "a request is served though the response before could not be written")
	}
	if w.failAt <= ok[2] {
		sym.Reach("failed")
		sym.Assert(w.writes == w.failAt, "a broken connection is written to")
		sym.Assert(len(a.errs) == 1, "a failed write is not reported once")
		sym.Assert(len(w.out) < len(fine.out) && string(w.out) == string(fine.out[:len(w.out)]), "a failed write changes what was written before")
	} else {
		sym.Reach("fine")
		sym.Assert(string(w.out) == string(fine.out), "the responses differ")
	}
}
