package zzh

import (
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/router/virtual"
)

type calls struct {
	ids  []int
	errs []error
}

func (c *calls) router(id int) router.Fabric {
	return simple.New(func(r *http.Request) *http.Response {
		c.ids = append(c.ids, id)
		return r.Respond().Code(status.Code(600 + id))
	}, func(r *http.Request) *http.Response {
		c.ids = append(c.ids, -id)
		c.errs = append(c.errs, r.Env.Error)
		return r.Respond().Code(status.Code(700 + id))
	})
}

// canon is the reference: a host without www. and a default port, in lower case.
func canon(host string) string {
	if len(host) >= 4 && host[:4] == "www." {
		host = host[4:]
	}
	if l := len(host); l >= 3 && host[l-3:] == ":80" {
		host = host[:l-3]
	} else if l >= 4 && host[l-4:] == ":443" {
		host = host[:l-4]
	}
	b := []byte(host)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c | 0x20
		}
	}
	return string(b)
}

func aHost(label string, n int, upper bool) string {
	b := sym.Bytes(label, n)
	for _, c := range b {
		sym.Assume(c >= 'a' && c <= 'z' || upper && c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.')
	}
	host := string(b)
	if sym.Choice(label+" www", 2) == 1 {
		host = "www." + host
	}
	switch sym.Choice(label+" port", 4) {
	case 1:
		host += ":80"
	case 2:
		host += ":443"
	case 3:
		host += ":8080"
	}
	return host
}

// Hosts: k registered hosts of n characters, any requested host, any number of Host headers, with
// and without a default router.
func Hosts() {
	k, n := sym.Param("k", 2), sym.Param("n", 1)
	c := new(calls)
	v := virtual.New()
	def := 0
	switch sym.Choice("default", 4) {
	case 1:
		v.Default(c.router(50))
		def = 50
	case 2:
		v.Host("0.0.0.0", c.router(51))
		def = 51
	case 3:
		v.Host("0.0.0.0:8080", c.router(52))
		def = 52
	}
	var hosts []string
	for i := 0; i < k; i++ {
		h := aHost("reg", n, true)
		hosts = append(hosts, h)
		v.Host(h, c.router(i+1))
	}
	rt := v.Initialize()
	req := construct.Request(config.Default(), dummy.NewNopClient(), nil)
	req.Path = "/"
	num := sym.Param("headers", 1)
	asked := ""
	for i := 0; i < num; i++ {
		asked = aHost("req", n, true)
		req.Headers.Add("Host", asked)
		req.Headers.Add("X", "y")
	}
	id, code := 0, status.BadRequest
	switch num {
	case 0:
		id = def
	case 1:
		id, code = def, status.MisdirectedRequest
		for i := len(hosts) - 1; i >= 0; i-- {
			if canon(hosts[i]) == canon(asked) {
				id = i + 1
			}
		}
	}
	var resp *http.Response
	fail := sym.Bool("fail")
	if fail {
		resp = rt.OnError(req, status.ErrTooLarge)
	} else {
		resp = rt.OnRequest(req)
	}
	got := resp.Reveal().Code
	sym.ObserveInt("code", int(got))
	if id == 0 {
		sym.Reach("refused")
		sym.Assert(len(c.ids) == 0 && got == code, "a request for no known host is not refused, or with another code")
		return
	}
	if id < 50 {
		sym.Reach("virtual")
	} else {
		sym.Reach("default")
	}
	if fail {
		sym.Assert(len(c.ids) == 1 && c.ids[0] == -id && got == status.Code(700+id), "an error goes to the router of another host")
		sym.Assert(c.errs[0] == status.ErrTooLarge, "the router does not see the error")
		return
	}
	sym.Assert(len(c.ids) == 1 && c.ids[0] == id && got == status.Code(600+id), "a request goes to the router of another host")
}

// Shared: one and the same router serves several hosts and everything else.
func Shared() {
	c := new(calls)
	note := func(id int) func(*http.Request) *http.Response {
		return func(r *http.Request) *http.Response {
			c.ids = append(c.ids, id)
			return http.Respond(r)
		}
	}
	r := inbuilt.New()
	mw := func(id int) inbuilt.Middleware {
		return func(next inbuilt.Handler, req *http.Request) *http.Response {
			c.ids = append(c.ids, id)
			return next(req)
		}
	}
	r.Use(mw(1))
	r.Mutator(func(*http.Request) { c.ids = append(c.ids, 9) })
	r.Get("/", note(2))
	r.RouteError(note(3), status.NotFound)
	g := r.Group("/g")
	g.Use(mw(4))
	g.Get("/x", note(5))
	if sym.Bool("dynamic") {
		g.Get("/{name}", note(6))
	}
	v := virtual.New().Host("a", r)
	if sym.Bool("two") {
		v.Host("b", r)
	}
	if sym.Bool("default") {
		v.Default(r)
	} else {
		v.Host("c", r)
	}
	rt := v.Initialize()
	if sym.Bool("again") {
		rt = v.Initialize()
	}
	host := sym.String("host", 1)
	req := construct.Request(config.Default(), dummy.NewNopClient(), nil)
	req.Method = method.GET
	req.Headers.Add("Host", host)
	want := []int{9, 1}
	switch sym.Choice("path", 3) {
	case 0:
		req.Path = "/"
		want = append(want, 2)
	case 1:
		req.Path = "/g/x"
		want = append(want, 4, 5)
	case 2:
		req.Path = "/nowhere"
		want = append(want, 3)
	}
	resp := rt.OnRequest(req)
	if resp.Reveal().Code == status.MisdirectedRequest {
		sym.Reach("refused")
		sym.Assert(len(c.ids) == 0 && host != "a" && host != "A", "a request for a known host is refused")
		return
	}
	sym.Reach("served")
	ok := len(c.ids) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = c.ids[i] == want[i]
	}
	sym.Assert(ok, "a router that serves several hosts runs its mutators, middlewares or handlers not once")
}
