package zzh

import (
	"context"
	"strconv"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/zzos"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

// Many: k siblings on one level, with or without dynamic segments among them.
func Many() {
	k, n := sym.Param("k", 29), sym.Param("n", 1)
	c := new(calls)
	r := inbuilt.New()
	var routes []route
	add := func(m method.Method, path string) {
		x := route{m, path, len(routes) + 1}
		routes = append(routes, x)
		r.Route(m, path, c.handler(x.id))
	}
	kind := sym.Param("kind", 0)
	for i := 0; i < k; i++ {
		switch kind {
		case 0: // static only
			add(method.GET, "/s"+strconv.Itoa(i))
		case 1: // a dynamic sibling
			add(method.GET, "/s"+strconv.Itoa(i))
			if i == 3 {
				add(method.POST, "/{id}")
			}
		case 2: // on the second level, below both kinds
			add(method.GET, "/{id}/s"+strconv.Itoa(i))
		case 3:
			add(method.POST, "/s"+strconv.Itoa(i)+"/{x}")
		}
	}
	rt := r.Initialize()
	path := "/s" + sym.String("path", n)
	switch kind {
	case 2:
		path = "/x/s" + sym.String("path", n)
	case 3:
		path = "/s" + sym.String("path", n) + "/1"
	}
	settle(rt, c, routes, methods[sym.Choice("m", 3)], path)
}

// Shortcuts: every shortcut of a router and of a resource registers for its method.
func Shortcuts() {
	c := new(calls)
	r := inbuilt.New()
	r.Get("/r", c.handler(1)).Head("/r", c.handler(2)).Post("/r", c.handler(3)).Put("/r", c.handler(4)).Delete("/r", c.handler(5)).
		Connect("/r", c.handler(6)).Options("/r", c.handler(7)).Trace("/r", c.handler(8)).Patch("/r", c.handler(9))
	mw := c.middleware
	r.Resource("/res").Get(c.handler(11), mw(100)).Head(c.handler(12), mw(100)).Post(c.handler(13), mw(100)).Put(c.handler(14), mw(100)).Delete(c.handler(15), mw(100)).
		Connect(c.handler(16), mw(100)).Options(c.handler(17), mw(100)).Trace(c.handler(18), mw(100)).Patch(c.handler(19), mw(100)).Use(mw(200))
	r.Resource("/own").Use(mw(300)).Route(methods[sym.Choice("reg", 9)], c.handler(20), mw(400)).Static("/files", "root")
	if sym.Param("dynamic", 0) == 1 {
		r.Get("/x/{id}", c.handler(50))
	}
	rt := r.Initialize()
	i := sym.Choice("m", 9)
	rt.OnRequest(newRequest(methods[i], "/r"))
	sym.ObserveInt("calls", len(c.ids))
	sym.Assert(equal(c.ids, []int{i + 1}), "a shortcut registers its handler for another method")
	c.ids = nil
	rt.OnRequest(newRequest(methods[i], "/res"))
	sym.Assert(equal(c.ids, []int{200, 100, i + 11}), "a shortcut of a resource registers its handler for another method, or loses middlewares")
	c.ids = nil
	resp := rt.OnRequest(newRequest(methods[i], "/own"))
	if len(c.ids) > 0 {
		sym.Reach("own")
		sym.Assert(equal(c.ids, []int{300, 400, 20}), "a resource does not run its middlewares in order")
	} else {
		sym.Assert(resp.Reveal().Code == status.MethodNotAllowed || methods[i] == method.TRACE, "a resource answers a method without a handler with another code than 405")
	}
	c.ids = nil
	zzos.Asked, zzos.Opened = nil, nil
	zzos.Lookup = func(string) (zzos.Entry, bool) { return zzos.Entry{Data: "data"}, true }
	rt.OnRequest(newRequest(method.GET, "/own/files/a"))
	sym.Assert(len(zzos.Asked) == 1 && zzos.Asked[0] == "root/a" && equal(c.ids, []int{300}), "the static files of a resource are not those of its directory")
	sym.Reach("done")
}

type ownContext struct{ context.Context }

// Context: handlers behind CustomContext see its context, others the default one.
func Context() {
	ctx := context.Context(&ownContext{context.Background()})
	c := new(calls)
	var seen context.Context
	look := func(id int) inbuilt.Handler {
		h := c.handler(id)
		return func(r *http.Request) *http.Response {
			seen = r.Ctx
			return h(r)
		}
	}
	r := inbuilt.New()
	r.Get("/plain", look(1))
	r.Group("/g").Use(middleware.CustomContext(ctx)).Get("/x", look(2))
	rt := r.Initialize()
	path := []string{"/plain", "/g/x"}[sym.Choice("path", 2)]
	rt.OnRequest(newRequest(method.GET, path))
	if path == "/g/x" {
		sym.Assert(seen == ctx, "a handler behind CustomContext sees another context")
	} else {
		sym.Assert(seen != ctx && seen != nil, "a handler outside of CustomContext sees its context")
	}
	sym.Reach("done")
}
