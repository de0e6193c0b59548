package zzh

import (
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

func newRequest(m method.Method, path string) *http.Request {
	r := construct.Request(config.Default(), dummy.NewNopClient(), nil)
	r.Method, r.Path = m, path
	return r
}

var methods = []method.Method{method.GET, method.HEAD, method.POST, method.PUT, method.DELETE, method.CONNECT, method.OPTIONS, method.TRACE, method.PATCH}

func trim(path string) string {
	for len(path) > 1 && path[len(path)-1] == '/' {
		path = path[:len(path)-1]
	}
	return path
}

func split(path string) (segs []string) {
	path = trim(path)
	if len(path) == 1 {
		return nil
	}
	begin := 1
	for i := 1; i <= len(path); i++ {
		if i == len(path) || path[i] == '/' {
			segs = append(segs, path[begin:i])
			begin = i + 1
		}
	}
	return segs
}

type route struct {
	m    method.Method
	path string
	id   int
}

// calls records which handlers ran, in order.
type calls struct {
	ids    []int
	params [][2]string
}

func (c *calls) handler(id int) inbuilt.Handler {
	return func(r *http.Request) *http.Response {
		c.ids = append(c.ids, id)
		for _, p := range r.Params.Unwrap() {
			c.params = append(c.params, [2]string{p.Key, p.Value})
		}
		return r.Respond().Code(status.Code(600 + id))
	}
}

func (c *calls) middleware(id int) inbuilt.Middleware {
	return func(next inbuilt.Handler, r *http.Request) *http.Response {
		c.ids = append(c.ids, id)
		return next(r)
	}
}

func wild(seg string) bool { return len(seg) > 1 && seg[0] == '{' && seg[len(seg)-1] == '}' }

// resolve is the reference: segment by segment, a static segment goes before a dynamic one.
func resolve(routes []route, path string) (left []route, params [][2]string) {
	left = routes
	segs := split(path)
	for i, seg := range segs {
		var static, dynamic []route
		for _, r := range left {
			t := split(r.path)
			if i >= len(t) {
				continue
			}
			if wild(t[i]) {
				dynamic = append(dynamic, r)
			} else if t[i] == seg {
				static = append(static, r)
			}
		}
		switch {
		case len(static) > 0:
			left = static
		case len(dynamic) > 0 && seg != "":
			left = dynamic
			if name := split(dynamic[0].path)[i]; len(name) > 2 {
				params = append(params, [2]string{name[1 : len(name)-1], seg})
			}
		default:
			return nil, nil
		}
	}
	var done []route
	for _, r := range left {
		if len(split(r.path)) == len(segs) {
			done = append(done, r)
		}
	}
	return done, params
}

func contains(m method.Method, routes []route) (route, bool) {
	for _, r := range routes {
		if r.m == m {
			return r, true
		}
	}
	return route{}, false
}

// allow is the set of methods as the Allow header lists it.
func allow(routes []route) (str string) {
	for _, m := range methods {
		if _, ok := contains(m, routes); ok {
			if str != "" {
				str += ","
			}
			str += m.String()
		}
	}
	return str
}

func header(resp *http.Response, key string) (value string, n int) {
	for _, h := range resp.Reveal().Headers {
		if h.Key == key {
			value = h.Value
			n++
		}
	}
	return value, n
}

// settle compares the answer to one request with the reference.
func settle(rt router.Router, c *calls, routes []route, m method.Method, path string) {
	c.ids, c.params = nil, nil
	req := newRequest(m, path)
	resp := rt.OnRequest(req)
	code := resp.Reveal().Code
	sym.ObserveInt("code", int(code))
	var (
		found  []route
		params [][2]string
	)
	if len(path) > 0 && path[0] == '/' {
		found, params = resolve(routes, path)
	}
	sym.Assert(len(path) == 0 || req.Path == trim(path), "the path a handler sees is not the requested one without trailing slashes")
	if len(found) == 0 {
		sym.Reach("404")
		sym.Assert(len(c.ids) == 0, "a handler runs although no route matches")
		sym.Assert(code == status.NotFound, "a path without a route is not answered with 404")
		return
	}
	r, ok := contains(m, found)
	if !ok && m == method.HEAD {
		r, ok = contains(method.GET, found)
	}
	if !ok {
		sym.Assert(len(c.ids) == 0, "a handler runs although none is registered for the method")
		if m == method.TRACE {
			sym.Reach("trace")
			sym.Assert(code == status.OK, "TRACE without a handler is not answered")
			return
		}
		sym.Reach("405")
		sym.Assert(code == status.MethodNotAllowed, "a method without a handler is not answered with 405")
		value, n := header(resp, "Allow")
		sym.Assert(n == 1 && value == allow(found), "the Allow header does not list exactly the methods of the path")
		return
	}
	sym.Reach("handled")
	sym.Assert(len(c.ids) == 1 && c.ids[0] == r.id && code == status.Code(600+r.id), "another handler than the one of the route runs, or several")
	sym.Assert(len(c.params) == len(params), "the handler sees more or fewer parameters than the template has")
	for i, p := range params {
		sym.Assert(c.params[i] == p, "a parameter of the path differs")
	}
	if len(params) > 0 {
		sym.Reach("params")
	}
}

func clean(b string, not string) {
	for i := 0; i < len(b); i++ {
		for j := 0; j < len(not); j++ {
			sym.Assume(b[i] != not[j])
		}
	}
}

var sets = [][]route{
	{{method.GET, "/", 1}, {method.POST, "/", 2}, {method.POST, "/a", 3}},
	{{method.GET, "/a", 1}, {method.GET, "/a/b", 2}, {method.DELETE, "/a/b", 3}, {method.OPTIONS, "/a/b", 4}},
	{{method.HEAD, "/a", 1}, {method.GET, "/a", 2}, {method.TRACE, "/b", 3}, {method.PATCH, "/b", 4}, {method.CONNECT, "/b", 5}, {method.PUT, "/ab/", 6}},
	{{method.POST, "/a//b", 1}, {method.GET, "/a/b", 2}},
	{},
	// with dynamic segments
	{{method.GET, "/{id}", 1}, {method.POST, "/a", 2}, {method.GET, "/a", 3}},
	{{method.GET, "/a/{id}", 1}, {method.GET, "/a/b", 2}, {method.DELETE, "/a/{id}", 3}, {method.POST, "/a/{id}/c", 4}},
	{{method.GET, "/a/{x}/{y}", 1}, {method.PUT, "/a/b/{z}", 2}, {method.GET, "/c/", 3}, {method.GET, "/", 4}},
	{{method.GET, "/{}/b", 1}, {method.HEAD, "/a/{n}", 2}, {method.GET, "/a/{n}", 3}},
	{{method.GET, "/a//{x}", 1}, {method.POST, "/a/b", 2}, {method.POST, "/{q}/{r}", 3}},
	{{method.GET, "/ab/{x}/cd", 1}, {method.POST, "/ab/{x}", 2}, {method.TRACE, "/ab/{x}", 3}, {method.OPTIONS, "/", 4}},
}

// Routes: a router with one of several sets of routes, registered in any rotation of their order;
// any method, any path of n bytes, or one with arbitrary bytes in place.
func Routes() {
	set := sets[sym.Param("set", 0)]
	c := new(calls)
	r := inbuilt.New()
	rot := 0
	if len(set) > 1 {
		rot = sym.Choice("rot", 8)
		sym.Assume(rot < len(set))
	}
	// any of them may be registered by a group of its own, or by one within another
	group := 0
	if sym.Param("group", 0) == 1 {
		group = sym.Choice("group", 16)
	}
	for i := range set {
		x := set[(i+rot)%len(set)]
		switch {
		case group>>i&1 == 0:
			r.Route(x.m, x.path, c.handler(x.id))
		case i%2 == 0:
			r.Group(x.path).Route(x.m, "", c.handler(x.id))
		default:
			r.Group("").Group("").Route(x.m, x.path, c.handler(x.id))
		}
	}
	rt := r.Initialize()
	n := sym.Param("n", 3)
	var path string
	switch sym.Param("t", 0) {
	case 0:
		path = sym.String("path", n)
	case 1:
		path = "/" + sym.String("path", n)
	case 2:
		path = "/a/" + sym.String("path", n)
	case 3:
		path = "/a/b" + sym.String("path", n)
	case 4:
		path = "/ab/" + sym.String("path", n) + "/cd"
	case 5:
		path = "/a/" + sym.String("path", n) + "/" + sym.String("path", n)
	}
	m := sym.Choice("m", 9)
	settle(rt, c, set, methods[m], path)
	if sym.Param("twice", 0) == 1 {
		settle(rt, c, set, methods[m], path)
	}
}

// Templates: routes whose segments are arbitrary: k templates of up to s segments of up to n
// bytes, each of which may be dynamic.
func Templates() {
	k, s, n := sym.Param("k", 2), sym.Param("s", 2), sym.Param("n", 1)
	c := new(calls)
	r := inbuilt.New()
	var routes []route
	for i := 0; i < k; i++ {
		path, depth := "", 0
		for j := 0; j < s; j++ {
			switch kind := sym.Choice("kind", 3); {
			case kind == 1:
				path += "/{" + string([]byte{byte('p' + depth)}) + "}"
				depth++
			case kind == 0:
				// empty segments inside and slashes at the end
				seg := sym.String("seg", sym.Choice("len", n+1))
				clean(seg, "/{")
				path += "/" + seg
				depth++
			}
		}
		if path == "" {
			path = "/"
		}
		x := route{methods[i], path, i + 1}
		routes = append(routes, x)
		r.Route(x.m, x.path, c.handler(x.id))
	}
	rt := r.Initialize()
	path := "/"
	for j := 0; j < sym.Param("segs", s); j++ {
		seg := sym.String("req", sym.Choice("reqlen", n+1))
		clean(seg, "/")
		path += seg + "/"
	}
	settle(rt, c, routes, methods[sym.Choice("m", k+1)], path)
}

func panics(f func()) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = true
		}
	}()
	f()
	return false
}

// Refused: what cannot be routed is refused when it is registered, or at the start at the latest.
func Refused() {
	c := new(calls)
	n := sym.Param("n", 2)
	switch sym.Param("kind", 0) {
	case 0: // a malformed template is refused, a well-formed one is not
		tmpl := sym.String("tmpl", n)
		if sym.Param("slash", 1) == 1 {
			tmpl = "/" + tmpl
		}
		sym.Assume(len(tmpl) > 0)
		// reference: every segment is free of '{' or is a name in braces
		good := tmpl[0] == '/'
		for _, seg := range split("/" + tmpl[1:]) {
			brace := -1
			for i := 0; i < len(seg); i++ {
				if seg[i] == '{' {
					brace = i
				}
			}
			if brace > 0 {
				good = false
			}
			if brace == 0 {
				end := 0
				for end < len(seg) && seg[end] != '}' {
					end++
				}
				good = good && end == len(seg)-1
			}
		}
		got := panics(func() { inbuilt.New().Get(tmpl, c.handler(1)).Initialize() })
		sym.ObserveBool("refused", got)
		if good {
			sym.Reach("good")
		} else {
			sym.Reach("bad")
		}
		sym.Assert(got == !good, "a malformed path template is accepted, or a well-formed one refused")
	case 1: // the same method of the same path twice
		a, b := "/"+sym.String("a", n), "/"+sym.String("b", n)
		clean(a, "{")
		clean(b, "{")
		m1, m2 := methods[sym.Choice("m1", 3)], methods[sym.Choice("m2", 3)]
		dup := trim(a) == trim(b) && m1 == m2
		group := sym.Param("group", 0) == 1
		got := panics(func() {
			r := inbuilt.New()
			r.Route(m1, a, c.handler(1))
			if group {
				r.Group(b).Route(m2, "", c.handler(2))
			} else {
				r.Route(m2, b, c.handler(2))
			}
			r.Initialize()
		})
		if dup {
			sym.Reach("bad")
		} else {
			sym.Reach("good")
		}
		sym.Assert(got == dup, "a route registered twice is accepted, or distinct ones refused")
	case 2: // differently named dynamic segments in the same place
		a, b := sym.String("a", sym.Choice("an", n+1)), sym.String("b", n)
		clean(a, "{}/")
		clean(b, "{}/")
		got := panics(func() {
			inbuilt.New().Get("/x/{"+a+"}", c.handler(1)).Get("/x/{"+b+"}/y", c.handler(2)).Initialize()
		})
		if a != b {
			sym.Reach("bad")
		} else {
			sym.Reach("good")
		}
		sym.Assert(got == (a != b), "differently named dynamic segments in the same place are accepted, or equal ones refused")
	}
}
