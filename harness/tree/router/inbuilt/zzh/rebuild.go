package zzh

import (
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

// Rebuild: a router is built k times, and between two of the builds something is registered. Each
// of the built routers runs the same mutators, middlewares and handlers, each once; what was
// registered later is seen by those built later only.
func Rebuild() {
	k := sym.Param("k", 2)
	c := new(calls)
	r := inbuilt.New()
	root := c.use(r, 100, sym.Choice("root", 2))
	mutate := func(id int) inbuilt.Mutator {
		return func(*http.Request) { c.ids = append(c.ids, id) }
	}
	nm := sym.Choice("mutators", 3)
	var mutators []int
	if nm > 0 {
		r.Mutator(mutate(500))
		mutators = append(mutators, 500)
	}
	r.Get("/", c.handler(1)).Post("/", c.handler(2))
	r.Catch("/c", c.handler(3))
	if sym.Param("dynamic", 0) == 1 {
		r.Get("/dyn/{name}", c.handler(4))
	}
	var group, inner level
	groups := sym.Param("groups", 2)
	g, h := r, r
	if groups > 0 {
		g = r.Group("/g")
		group = c.use(g, 200, sym.Choice("group", 2))
		g.Get("/x", c.handler(5))
		g.Catch("/files", c.handler(6))
		if nm > 1 {
			g.Mutator(mutate(501))
			mutators = append(mutators, 501)
		}
	}
	if groups > 1 {
		h = g.Group("/h")
		inner = c.use(h, 300, sym.Choice("inner", 2))
		h.Put("/y", c.handler(7))
	}
	r.RouteError(c.handler(8), status.NotFound)
	var refused []int // there is a default handler
	if sym.Bool("own") {
		r.RouteError(c.handler(9), status.MethodNotAllowed)
		refused = []int{9}
	}
	// what is registered in between, and after how many builds
	extra, after := sym.Choice("extra", 6), k
	if k > 1 {
		after = 1 + sym.Param("after", 0)%(k-1)
	}
	var built []router.Router
	for i := 0; i < k; i++ {
		if i == after {
			switch extra {
			case 1:
				g.Get("/later", c.handler(20))
			case 2:
				r.Use(c.middleware(21))
			case 3:
				r.RouteError(c.handler(22), status.NotFound)
			case 4:
				r.Mutator(mutate(23))
			case 5:
				g.Catch("/late", c.handler(24))
			}
		}
		built = append(built, r.Initialize())
	}
	prefix := ""
	if groups > 0 {
		prefix = "/g"
	}
	req := sym.Choice("request", 9)
	rest := sym.String("rest", sym.Param("n", 2))
	// any of them is asked first
	first := sym.Choice("first", k)
	for n := 0; n < k; n++ {
		i := (first + n) % k
		x := 0
		if i >= after {
			x = extra
		}
		var (
			m, path = method.GET, "/"
			want    []int
			fail    = []int{8}
			top     = root.ids
			muts    = mutators
		)
		if x == 2 {
			top = join(top, []int{21})
		}
		if x == 3 {
			fail = []int{22}
		}
		if x == 4 {
			// those of the root come first
			muts = []int{}
			if nm > 0 {
				muts = append(muts, 500)
			}
			muts = append(muts, 23)
			if nm > 1 && groups > 0 {
				muts = append(muts, 501)
			}
		}
		lost := join(top, fail)
		switch req {
		case 0:
			want = join(top, []int{1})
		case 1:
			m, want = method.POST, join(top, []int{2})
		case 2:
			path, want = "/c"+rest, join(top, []int{3})
		case 3:
			path, want = "/dyn/joe", lost
			if sym.Param("dynamic", 0) == 1 {
				want = join(top, []int{4})
			}
		case 4:
			path, want = "/g/x", lost
			if groups > 0 {
				want = join(top, group.ids, []int{5})
			}
		case 5:
			path, want = "/g/files/a", lost
			if groups > 0 {
				want = join(top, group.ids, []int{6})
			}
		case 6:
			m, path, want = method.PUT, "/g/h/y", lost
			if groups > 1 {
				want = join(top, group.ids, inner.ids, []int{7})
			}
		case 7:
			m, want = method.DELETE, join(top, refused)
		case 8:
			path, want = prefix+"/later", lost
			if x == 1 {
				want = join(top, group.ids, []int{20})
			}
			if x == 5 {
				want = join(top, group.ids, []int{24})
			}
		}
		c.ids = nil
		resp := built[i].OnRequest(newRequest(m, path))
		sym.ObserveInt("code", int(resp.Reveal().Code))
		sym.ObserveInt("calls", len(c.ids))
		if i == 0 {
			sym.Reach("first")
		} else {
			sym.Reach("again")
		}
		sym.Assert(equal(c.ids, join(muts, want)), "a router that is built again runs other mutators, middlewares or handlers, or not each of them once")
	}
}
