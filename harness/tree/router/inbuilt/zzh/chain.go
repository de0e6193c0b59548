package zzh

import (
	"errors"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/zzos"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
)

// level is one of the places middlewares can be attached to: the root, two nested groups and the
// route itself.
type level struct{ ids []int }

func (c *calls) use(r *inbuilt.Router, base, n int) (l level) {
	for i := 0; i < n; i++ {
		l.ids = append(l.ids, base+i)
		r.Use(c.middleware(base + i))
	}
	return l
}

func (c *calls) mwares(base, n int) (l level, m []inbuilt.Middleware) {
	for i := 0; i < n; i++ {
		l.ids = append(l.ids, base+i)
		m = append(m, c.middleware(base+i))
	}
	return l, m
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func join(parts ...[]int) (all []int) {
	for _, p := range parts {
		all = append(all, p...)
	}
	return all
}

// Chain: up to n middlewares at the root, at a group, at a group within it and at the route,
// attached before or after the routes; every kind of request.
func Chain() {
	n := sym.Param("n", 1)
	c := new(calls)
	r := inbuilt.New()
	late := sym.Bool("late")
	var root, group, inner level
	nr, ng, ni, nh := sym.Choice("root", n+1), sym.Choice("group", n+1), sym.Choice("inner", n+1), sym.Choice("route", n+1)
	own, mw := c.mwares(400, nh)
	if !late {
		root = c.use(r, 100, nr)
	}
	r.Get("/", c.handler(1), mw...)
	g := r.Group("/g")
	if !late {
		group = c.use(g, 200, ng)
	}
	g.Get("/x", c.handler(2), mw...).Post("/x", c.handler(3))
	g.Catch("/files", c.handler(4), mw...)
	h := g.Group("/h")
	if !late {
		inner = c.use(h, 300, ni)
	}
	h.Get("/y", c.handler(5), mw...)
	h.Resource("/res").Put(c.handler(6), mw...).Catch("/sub", c.handler(10))
	h.Catch("/", c.handler(7))
	if late {
		inner, group, root = c.use(h, 300, ni), c.use(g, 200, ng), c.use(r, 100, nr)
	}
	r.Catch("/c", c.handler(8), mw...)
	r.RouteError(c.handler(9), status.NotFound)
	rt := r.Initialize()
	var (
		m    = method.GET
		path string
		want []int
	)
	switch sym.Choice("request", 13) {
	case 0:
		path, want = "/", join(root.ids, own.ids, []int{1})
	case 1:
		path, want = "/g/x", join(root.ids, group.ids, own.ids, []int{2})
	case 2:
		m, path, want = method.POST, "/g/x", join(root.ids, group.ids, []int{3})
	case 3:
		path, want = "/g/h/y", join(root.ids, group.ids, inner.ids, own.ids, []int{5})
	case 4:
		m, path, want = method.PUT, "/g/h/res", join(root.ids, group.ids, inner.ids, own.ids, []int{6})
	case 5:
		path, want = "/g/files"+sym.String("rest", 1), join(root.ids, group.ids, own.ids, []int{4})
	case 6:
		path, want = "/g/h"+sym.String("rest", 1), join(root.ids, group.ids, inner.ids, []int{7})
	case 7:
		path, want = "/c"+sym.String("rest", 2), join(root.ids, own.ids, []int{8})
	case 8:
		path = "/" + sym.String("rest", 2)
		sym.Assume(path[1] != 'c' && trim(path) != "/")
		want = join(root.ids, []int{9})
	case 9:
		m, path, want = method.HEAD, "/g/x", join(root.ids, group.ids, own.ids, []int{2})
	case 10:
		m, path, want = method.DELETE, "/g/x", root.ids // the default handler of the error
	case 11:
		path, want = "/g/h/res/sub"+sym.String("rest", 1), join(root.ids, group.ids, inner.ids, []int{10})
	case 12:
		path, want = "/g/fil", join(root.ids, []int{9})
	}
	resp := rt.OnRequest(newRequest(m, path))
	sym.ObserveInt("code", int(resp.Reveal().Code))
	sym.ObserveInt("calls", len(c.ids))
	sym.Assert(equal(c.ids, want), "middlewares and handler do not run exactly once in the order root, groups, route")
	sym.Reach("done")
	// once more: nothing is remembered
	c.ids = nil
	rt.OnRequest(newRequest(m, path))
	sym.Assert(equal(c.ids, want), "a second request runs through other middlewares than the first")
}

// Stopped: a middleware that does not call the next one answers instead of it, a panic is turned
// into 500 by Recover, whose outer middlewares still run.
func Stopped() {
	c := new(calls)
	k := sym.Param("k", 3)
	at, boom, rec := sym.Choice("at", 4), sym.Bool("boom"), sym.Choice("recover", 4)
	sym.Assume(at <= k && rec < k+1)
	r := inbuilt.New()
	var after []int
	for i := 0; i < k; i++ {
		i := i
		if i == rec {
			r.Use(middleware.Recover)
		}
		r.Use(func(next inbuilt.Handler, req *http.Request) *http.Response {
			c.ids = append(c.ids, i)
			if i == at {
				if boom {
					panic("boom")
				}
				return req.Respond().Code(700)
			}
			resp := next(req)
			after = append(after, i)
			return resp.Header("X", "1")
		})
	}
	r.Get("/", func(req *http.Request) *http.Response {
		c.ids = append(c.ids, 99)
		if boom {
			panic("boom")
		}
		return req.Respond().Code(600)
	})
	rt := r.Initialize()
	var resp *http.Response
	crashed := panics(func() { resp = rt.OnRequest(newRequest(method.GET, "/")) })
	var want []int
	for i := 0; i < k && i <= at; i++ {
		want = append(want, i)
	}
	if at >= k {
		want = append(want, 99)
	}
	sym.Assert(equal(c.ids, want), "middlewares behind the one that answers run as well, or not all before it")
	if boom && (rec >= k || rec > at) {
		sym.Reach("crash")
		sym.Assert(crashed, "a panic disappears without Recover")
		return
	}
	sym.Assert(!crashed, "a panic gets past Recover")
	code := status.Code(600)
	inside := at // middlewares before this one see the response
	if at < k {
		code = 700
	} else {
		inside = k
	}
	if boom {
		sym.Reach("recovered")
		code, inside = status.InternalServerError, rec
	}
	sym.ObserveInt("code", int(resp.Reveal().Code))
	sym.Assert(resp.Reveal().Code == code, "the response differs from the one of the innermost handler reached")
	sym.Assert(len(after) == inside, "not every outer middleware gets the response")
	for i := range after {
		sym.Assert(after[i] == inside-1-i, "the response passes the middlewares in another order than inside out")
	}
	_, n := header(resp, "X")
	sym.Assert(n == inside, "changes of the response by a middleware are lost")
	sym.Reach("answered")
}

// Errors: an error goes to the handler of its code, else to the handler of all errors, else to the
// default; root middlewares run, those of groups do not.
func Errors() {
	c := new(calls)
	r := inbuilt.New()
	mid := sym.Choice("mid", 2)
	root := c.use(r, 100, mid)
	g := r.Group("/g")
	c.use(g, 200, 1)
	var seen error
	all := sym.Bool("all")
	which := sym.Choice("which", 4)
	handle := func(id int) inbuilt.Handler {
		h := c.handler(id)
		return func(req *http.Request) *http.Response {
			seen = req.Env.Error
			return h(req)
		}
	}
	reg := r
	if sym.Bool("from group") {
		reg = g
	}
	if all {
		reg.RouteError(handle(1))
	}
	switch which {
	case 1:
		reg.RouteError(handle(2), status.BadRequest)
	case 2:
		reg.RouteError(handle(3), status.BadRequest, status.RequestTimeout)
	case 3:
		reg.RouteError(handle(5), status.MethodNotAllowed, status.NotFound)
	}
	mutated := 0
	r.Mutator(func(*http.Request) { mutated++ })
	catch := sym.Bool("catch")
	if catch {
		reg.Catch("/", c.handler(4))
	}
	rt := r.Initialize()
	errs := []error{status.ErrBadRequest, status.ErrRequestTimeout, status.ErrNotImplemented, status.ErrTooLarge,
		status.NewError(418, "tea"), errors.New("plain"), status.ErrMethodNotAllowed, status.ErrNotFound}
	e := sym.Choice("err", 8)
	err := errs[e]
	m := []method.Method{method.GET, method.TRACE, method.OPTIONS}[sym.Choice("m", 3)]
	path := "/g/nowhere"
	if e == 7 && sym.Bool("elsewhere") {
		path, catch = "/nowhere", catch && reg == r
	}
	req := newRequest(m, path)
	resp := rt.OnError(req, err)
	code := resp.Reveal().Code
	sym.ObserveInt("code", int(code))
	sym.Assert(mutated == 1, "mutators do not run exactly once")
	if m == method.TRACE && e == 6 {
		sym.Reach("trace")
		sym.Assert(code == status.OK, "a TRACE request is not answered")
		return
	}
	if e == 7 && catch {
		sym.Reach("caught")
		want := join(root.ids, []int{4})
		if reg == g {
			want = join(root.ids, []int{200, 4})
		}
		sym.Assert(equal(c.ids, want) && code == 604, "a path is not caught")
		return
	}
	he, ok := err.(status.HTTPError)
	if !ok {
		sym.Reach("plain")
		sym.Assert(code == status.InternalServerError, "an error that is not of HTTP is not answered with 500")
		return
	}
	id := 0
	switch {
	case which > 0 && which < 3 && e == 0 || which == 2 && e == 1:
		id = which + 1
	case which == 3 && (e == 6 || e == 7):
		id = 5
	case e == 6: // has a handler of its own by default
	case all:
		id = 1
	}
	if id > 0 {
		sym.Reach("custom")
		sym.Assert(equal(c.ids, join(root.ids, []int{id})) && code == status.Code(600+id), "an error goes to another handler than its own")
		sym.Assert(seen == err, "the error handler does not see the error")
		return
	}
	sym.Reach("default")
	sym.Assert(equal(c.ids, root.ids), "the root middlewares do not run for an error")
	sym.Assert(code == he.Code, "an error without a handler is not answered with its code")
}

// OwnErrors: the errors of routing itself, 404 and 405, go to their handlers, which see them.
func OwnErrors() {
	c := new(calls)
	r := inbuilt.New()
	root := c.use(r, 100, sym.Choice("mid", 2))
	r.Get("/a", c.handler(1))
	if sym.Param("dynamic", 0) == 1 {
		r.Get("/b/{id}", c.handler(1))
	}
	var seen []error
	handle := func(id int) inbuilt.Handler {
		h := c.handler(id)
		return func(req *http.Request) *http.Response {
			seen = append(seen, req.Env.Error)
			return h(req)
		}
	}
	var ids [2]int // of the handlers of 404 and 405
	if sym.Bool("all") {
		r.RouteError(handle(2))
		ids[0] = 2
	}
	if sym.Bool("404") {
		r.RouteError(handle(3), status.NotFound)
		ids[0] = 3
	}
	if sym.Bool("405") {
		r.RouteError(handle(4), status.MethodNotAllowed)
		ids[1] = 4
	}
	rt := r.Initialize()
	for i := 0; i < 2; i++ {
		c.ids, seen = nil, nil
		which, err, path, m := 0, status.ErrNotFound, "/nowhere", methods[sym.Choice("m", 9)]
		if sym.Bool("405ed") {
			which, err, path = 1, status.ErrMethodNotAllowed, "/a"
			sym.Assume(m != method.GET && m != method.HEAD && m != method.TRACE)
		}
		resp := rt.OnRequest(newRequest(m, path))
		code := resp.Reveal().Code
		sym.ObserveInt("code", int(code))
		if id := ids[which]; id > 0 {
			sym.Reach("custom")
			sym.Assert(equal(c.ids, join(root.ids, []int{id})) && code == status.Code(600+id), "an error goes to another handler than its own")
			sym.Assert(len(seen) == 1 && seen[0] == err, "the error handler does not see the error")
		} else {
			sym.Reach("default")
			sym.Assert(equal(c.ids, root.ids), "the root middlewares do not run for an error")
			sym.Assert(code == []status.Code{404, 405}[which], "an error without a handler is not answered with its code")
		}
	}
}

// Catchers: the longest matching prefix answers, only when no route matches.
func Catchers() {
	c := new(calls)
	r := inbuilt.New()
	all := []string{"/", "/a", "/ab", "/a/b", "/abc", "/b"}
	mask := sym.Param("mask", 63)
	var prefixes []string
	rev := sym.Bool("reverse")
	for i := range all {
		k := i
		if rev {
			k = len(all) - 1 - i
		}
		if mask>>k&1 == 0 {
			continue
		}
		prefixes = append(prefixes, all[k])
		switch how := sym.Param("how", 0); {
		case how == 1:
			// slashes at the end make no difference
			r.Catch(all[k]+[]string{"/", "//"}[i%2], c.handler(10+k))
		case how == 2 && i%2 == 0:
			r.Group(all[k]).Catch("/", c.handler(10+k))
		case how == 2:
			r.Group("/").Catch(all[k], c.handler(10+k))
		default:
			r.Catch(all[k], c.handler(10+k))
		}
		if sym.Param("how", 0) < 2 && sym.Bool("twice") {
			sym.Reach("twice")
			sym.Assert(panics(func() { r.Catch(all[k], c.handler(1)) }), "a second catcher of the same prefix is accepted")
		}
	}
	r.Get("/ab/x", c.handler(1))
	if sym.Param("dynamic", 0) == 1 {
		r.Get("/a/{id}/z", c.handler(2))
	}
	rt := r.Initialize()
	path := "/" + sym.String("path", sym.Param("n", 3))
	m := methods[sym.Choice("m", 3)]
	resp := rt.OnRequest(newRequest(m, path))
	code := resp.Reveal().Code
	sym.ObserveInt("code", int(code))
	if trim(path) == "/ab/x" {
		sym.Reach("route")
		if m == method.POST {
			sym.Assert(code == status.MethodNotAllowed && len(c.ids) == 0, "a catcher answers for a route of another method")
		} else {
			sym.Assert(equal(c.ids, []int{1}), "a route is caught")
		}
		return
	}
	if len(split(path)) == 3 && sym.Param("dynamic", 0) == 1 {
		return
	}
	best := -1
	for k, p := range all {
		path := trim(path)
		if mask>>k&1 == 1 && len(path) >= len(p) && path[:len(p)] == p && (best < 0 || len(p) > len(all[best])) {
			best = k
		}
	}
	if best < 0 {
		sym.Reach("none")
		sym.Assert(code == status.NotFound && len(c.ids) == 0, "a path without a catcher is not answered with 404")
		return
	}
	sym.Reach("caught")
	sym.Assert(equal(c.ids, []int{10 + best}), "a path is not caught by the longest matching prefix")
}

type logger struct{ lines []string }

// Printf renders the verbs a line of a log consists of.
func (l *logger) Printf(format string, v ...any) {
	line := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 == len(format) {
			line += format[i : i+1]
			continue
		}
		i++
		if format[i] == '%' {
			line += "%"
			continue
		}
		sym.Assert(len(v) > 0, "a line of the log lacks an argument")
		switch x := v[0].(type) {
		case string:
			line += x
		case []byte:
			line += string(x)
		case method.Method:
			line += x.String()
		case status.Code:
			line += digits(int(x))
		case int:
			line += digits(x)
		default:
			sym.Fail("a line of the log holds something else than texts and numbers")
		}
		v = v[1:]
	}
	l.lines = append(l.lines, line)
}

func digits(n int) (s string) {
	for ; n > 9; n /= 10 {
		s = string([]byte{byte('0' + n%10)}) + s
	}
	return string([]byte{byte('0' + n%10)}) + s
}

// Logs: every request is logged once by every logger, with its escaped path, and is not altered.
func Logs() {
	n := sym.Param("n", 2)
	k := sym.Param("k", 2)
	c := new(calls)
	var logs, early []*logger
	var ls []middleware.Logger
	for i := 0; i < k; i++ {
		l := new(logger)
		logs, ls = append(logs, l), append(ls, l)
	}
	a, b := new(logger), new(logger)
	early = append(early, a, b)
	code := []status.Code{200, 404, 7, status.CloseConnection}[sym.Choice("code", 4)]
	r := inbuilt.New()
	r.Mutator(mutator.RequestsLog(a, b))
	names := []string{"me", "too", "three"}[:sym.Choice("names", 4)]
	r.Use(middleware.LogRequests(ls...), middleware.ServerHeader(names...))
	var path string
	r.Catch("/", func(req *http.Request) *http.Response {
		path = req.Path
		c.handler(1)(req)
		return req.Respond().Code(code)
	})
	rt := r.Initialize()
	raw := "/" + sym.String("path", n)
	m := methods[sym.Choice("m", 9)]
	resp := rt.OnRequest(newRequest(m, raw))
	sym.ObserveInt("code", int(resp.Reveal().Code))
	sym.Assert(equal(c.ids, []int{1}) && resp.Reveal().Code == code && path == trim(raw), "logging changes the request or its response")
	server, ns := header(resp, "Server")
	sym.Assert(ns == 1 && server == []string{"indigo", "me", "me too", "me too three"}[len(names)], "the server header is missing")
	line := func(l *logger, path string, more string) {
		sym.Assert(len(l.lines) == 1, "a request is not logged exactly once")
		got := l.lines[0]
		for i := 0; i < len(got); i++ {
			sym.Assert(got[i] >= ' ' && got[i] < 0x7f, "a request can write unprintable characters into the log")
		}
		sym.Assert(got == m.String()+" "+http.Escape(path)+more, "a request is logged wrongly")
		sym.Reach("logged")
	}
	for _, l := range early {
		line(l, raw, "")
	}
	for _, l := range logs {
		if code == status.CloseConnection {
			sym.Assert(len(l.lines) == 0, "a closed connection is logged as a request")
			continue
		}
		line(l, path, " "+digits(int(code)))
	}
	sym.Reach("done")
}

// Trace: a TRACE request without a handler is echoed, and nothing but it.
func Trace() {
	r := inbuilt.New().Get("/a", http.Respond)
	if sym.Param("dynamic", 0) == 1 {
		r.Get("/x/{id}", http.Respond)
	}
	rt := r.Initialize()
	n := sym.Param("n", 1)
	for i := 0; i < sym.Param("k", 2); i++ {
		req := newRequest(method.TRACE, "/a")
		want := "TRACE /a"
		if sym.Choice("query", 2) == 1 {
			q := sym.String("q", n)
			req.Query.Set([]byte(q))
			want += "?" + q
			if n == 0 {
				want = "TRACE /a"
			}
		}
		want += " HTTP/1.1\r\n"
		for j := 0; j < sym.Choice("headers", 3); j++ {
			k, v := sym.String("key", n), sym.String("value", n)
			req.Headers.Add(k, v)
			want += k + ": " + v + "\r\n"
		}
		resp := rt.OnRequest(req)
		got := string(resp.Reveal().Body)
		sym.ObserveStr("body", got)
		sym.Assert(resp.Reveal().Code == status.OK, "a TRACE request is not answered")
		sym.Assert(len(got) >= len(want) && got[:len(want)] == want, "the response to TRACE is not the request")
		sym.Assert(got[len(want):] == "Content-Length: 0\r\n\r\n" || got[len(want):] == "\r\n", "the response to TRACE holds more than the request")
		v, k := header(resp, "Content-Type")
		sym.Assert(k == 1 && v == "message/http" || resp.Reveal().ContentType == "message/http", "the response to TRACE is not marked as an HTTP message")
		body := resp.Reveal().Body
		if i > 0 {
			sym.Reach("again")
		}
		// another connection is served before this response is written
		other := newRequest(method.TRACE, "/a")
		other.Headers.Add("secret", "1")
		rt.OnRequest(other)
		sym.Assert(string(body) == got, "the response to TRACE changes when another one is made")
	}
	sym.Reach("done")
}

var roots = []string{"root", "./root/", "/srv/files", "../up", "a..b"}

// Files: static files: whatever the path, only files below the root are asked for, namely the one
// the path names; two connections do not interfere.
func Files() {
	root := roots[sym.Param("root", 0)]
	group, prefix := []string{"", "/g", "/g/h"}[sym.Param("group", 0)], []string{"/", "/s", "/s/", "/s/t"}[sym.Param("prefix", 1)]
	r := inbuilt.New()
	if group == "" {
		r.Static(prefix, root)
	} else {
		r.Group(group).Static(prefix, root)
	}
	rt := r.Initialize()
	base := trim(group + prefix)
	n := sym.Param("n", 3)
	rest := sym.String("rest", n)
	path := base + rest
	if sym.Param("free", 0) == 1 {
		path = "/" + rest
	} else if base == "/" {
		path = base + rest
	}
	// the harness decides what exists
	zzos.Asked, zzos.Opened = nil, nil
	kind := sym.Choice("kind", 4)
	zzos.Lookup = func(string) (zzos.Entry, bool) {
		return zzos.Entry{Data: "data", Dir: kind == 1, StatErr: kind == 2}, kind != 3
	}
	resp := rt.OnRequest(newRequest(methods[sym.Choice("m", 2)], path))
	code := resp.Reveal().Code
	sym.ObserveInt("code", int(code))
	sym.ObserveInt("asked", len(zzos.Asked))
	path = trim(path)
	// is it below the base, and free of dot-dot segments?
	below := len(path) >= len(base) && path[:len(base)] == base
	name := ""
	if below {
		name = path[len(base):]
		if base == "/" {
			name = "/" + name
		}
		below = name == "" || name[0] == '/'
	}
	up, dots := false, false
	begin := 0
	for i := 0; i <= len(name); i++ {
		if i == len(name) || name[i] == '/' {
			up = up || name[begin:i] == ".."
			begin = i + 1
		}
		if i > 0 && i < len(name) && name[i] == '.' && name[i-1] == '.' {
			dots = true
		}
	}
	for _, asked := range zzos.Asked {
		want := root
		if want[len(want)-1] == '/' {
			want = want[:len(want)-1]
		}
		sym.Assert(below && !up, "a file outside of the served directory is asked for")
		sym.Assert(asked == want+name || name == "" && (asked == want || asked == want+"/") || name == "/" && (asked == want || asked == want+"/"), "another file than the requested one is asked for")
	}
	if !below || up {
		sym.Reach("outside")
		sym.Assert(code == status.NotFound && resp.Reveal().Attachment.Content() == nil, "a path outside of the served directory is not answered with 404")
		return
	}
	served := resp.Reveal().Attachment.Content() != nil
	if kind == 0 && !dots {
		sym.Reach("served")
		sym.Assert(code == status.OK && served && resp.Reveal().Attachment.Size() == 4, "an existing file is not served")
	}
	if kind != 0 {
		sym.Reach("missing")
		sym.Assert(!served && code >= 400, "something that is no readable file is served")
		for _, f := range zzos.Opened {
			sym.Assert(f.Closed == 1, "a descriptor is leaked")
		}
	} else {
		for _, f := range zzos.Opened {
			sym.Assert(f.Closed == 0 || !served, "a file is closed before it is sent")
		}
	}
}

// FilesShared: the answer to one connection does not depend on another one served in between.
func FilesShared() {
	r := inbuilt.New().Static("/s", "root")
	zzos.Asked, zzos.Lookup = nil, func(string) (zzos.Entry, bool) { return zzos.Entry{Data: "d"}, true }
	nested := false
	var rt interface {
		OnRequest(*http.Request) *http.Response
	}
	a, b := sym.String("a", sym.Param("n", 2)), sym.String("b", sym.Param("k", 2))
	clean(a, "./")
	clean(b, "./")
	zzos.Lookup = func(string) (zzos.Entry, bool) {
		if !nested {
			nested = true
			rt.OnRequest(newRequest(method.GET, "/s/"+b))
		}
		return zzos.Entry{Data: "d"}, true
	}
	rt = r.Initialize()
	rt.OnRequest(newRequest(method.GET, "/s/"+a))
	rt.OnRequest(newRequest(method.GET, "/s/"+a))
	sym.Assert(len(zzos.Asked) == 3 && zzos.Asked[0] == "root/"+a && zzos.Asked[1] == "root/"+b && zzos.Asked[2] == "root/"+a, "a file of another request is asked for")
	sym.Reach("done")
}

// Only: HTTPSOnly passes encrypted requests and redirects plain ones to the same place.
func Only() {
	n := sym.Param("n", 2)
	c := new(calls)
	params := middleware.HTTPOnlyParams{}
	to, port := sym.Bool("to"), sym.Bool("port")
	if to {
		params.RedirectTo = "other.org"
	}
	if port {
		params.Port = "8443"
	}
	r := inbuilt.New()
	if to || port {
		r.Use(middleware.HTTPSOnly(params))
	} else {
		r.Use(middleware.HTTPSOnly())
	}
	r.Get("/", c.handler(1)).Catch("/", c.handler(2))
	aliased := sym.Bool("aliased")
	if aliased {
		r.Alias("/al?", "/real")
	}
	rt := r.Initialize()
	if sym.Bool("previous") {
		prev := newRequest(method.GET, "/prev")
		prev.Env.Encryption = encryption.Plain
		prev.Headers.Add("Host", "previous")
		rt.OnRequest(prev)
	}
	raw := "/" + sym.String("path", n)
	if aliased {
		raw = "/al?"
	}
	req := newRequest(method.GET, raw)
	plain := sym.Bool("plain")
	if !plain {
		req.Env.Encryption = encryption.TLS
	} else {
		req.Env.Encryption = encryption.Plain
	}
	host := ""
	switch sym.Choice("host", 5) {
	case 1:
		host = sym.String("name", sym.Param("h", 2))
		clean(host, ":[]")
		req.Headers.Add("Host", host)
	case 2:
		host = sym.String("name", sym.Param("h", 2))
		clean(host, ":[]")
		req.Headers.Add("Host", host+":80")
	case 3:
		host = "[::1]"
		req.Headers.Add("Host", host+":80")
	case 4:
		host = "[::1]"
		req.Headers.Add("Host", host)
	}
	resp := rt.OnRequest(req)
	code := resp.Reveal().Code
	sym.ObserveInt("code", int(code))
	if !plain {
		sym.Reach("passed")
		sym.Assert(len(c.ids) == 1 && code > 600, "an encrypted request does not reach its handler")
		return
	}
	sym.Assert(len(c.ids) == 0, "an unencrypted request reaches the handler")
	loc, k := header(resp, "Location")
	if to {
		host = "other.org"
	}
	if host == "" {
		sym.Reach("bad")
		sym.Assert(code == status.BadRequest && k == 0, "a request without a host is not refused")
		return
	}
	sym.Reach("redirected")
	sym.ObserveStr("loc", loc)
	sym.Assert(code == status.MovedPermanently && k == 1, "an unencrypted request is not redirected")
	want := "https://" + host
	rest := ""
	if port {
		want += ":8443"
	}
	sym.Assert(len(loc) > len(want) && loc[:len(want)] == want, "the redirect goes to another host")
	rest = loc[len(want):]
	if !port && rest[0] == ':' {
		rest = rest[1:]
	}
	// the rest decodes to the path, and holds nothing a header or a path must not
	var back []byte
	for i := 0; i < len(rest); i++ {
		ch := rest[i]
		sym.Assert(ch > ' ' && ch < 0x7f && ch != '?' && ch != '#', "the redirect holds characters that must be escaped")
		if ch == '%' {
			sym.Assert(i+2 < len(rest), "the redirect holds a broken escape")
			back = append(back, byte(hex(rest[i+1])<<4|hex(rest[i+2])))
			i += 2
			continue
		}
		back = append(back, ch)
	}
	sym.Assert(string(back) == trim(raw), "the redirect goes to another path")
}

func hex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	}
	sym.Fail("the redirect holds a broken escape")
	return 0
}

// Redirected: Redirect and Alias apply to exactly their path.
func Redirected() {
	c := new(calls)
	r := inbuilt.New()
	r.Use(middleware.Redirect("/from", "/to"), middleware.ServerHeader("me"))
	r.Alias("/al", "/real")
	r.Group("/g").Alias("/al", "/real")
	var alias string
	r.Get("/real", func(req *http.Request) *http.Response {
		alias = req.Env.AliasFrom
		return c.handler(1)(req)
	})
	r.Get("/from", c.handler(2)).Get("/to", c.handler(3)).Catch("/", c.handler(4))
	rt := r.Initialize()
	paths := []string{"/from", "/al", "/g/al", "/real", "/to"}
	p := sym.Choice("p", 7)
	path := ""
	if p < 5 {
		path = paths[p]
	} else if p == 5 {
		path = "/" + sym.String("path", sym.Param("n", 2))
	} else {
		path = "/fr" + sym.String("path", 2)
	}
	req := newRequest(method.GET, path)
	resp := rt.OnRequest(req)
	code := resp.Reveal().Code
	sym.ObserveInt("code", int(code))
	loc, k := header(resp, "Location")
	server, _ := header(resp, "Server")
	if trim(path) == "/from" {
		sym.Reach("redirected")
		sym.Assert(code == status.TemporaryRedirect && k == 1 && loc == "/to" && len(c.ids) == 0, "the path is not redirected")
		return
	}
	sym.Assert(k == 0, "another path is redirected")
	sym.Assert(server == "me", "the server header is missing")
	want := 4
	switch path {
	case "/al", "/g/al":
		sym.Reach("alias")
		sym.Assert(alias == path, "the handler does not see where an alias came from")
		want = 1
	case "/real", "/real/":
		want = 1
	case "/to", "/to/":
		want = 3
	}
	sym.Assert(equal(c.ids, []int{want}), "an alias leads elsewhere, or another path is taken for it")
}

var _ = config.Default
