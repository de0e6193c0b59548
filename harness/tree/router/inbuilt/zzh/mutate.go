package zzh

import (
	"errors"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router/inbuilt"
)

// Mutators: up to n mutators at the root, at two groups and at a group within one of them,
// registered before or after the groups are made; one of them may rewrite the request. All of them
// run once for every request, whether it is routed or refused, before anything else runs, and the
// request is routed as they left it.
func Mutators() {
	n := sym.Param("n", 1)
	c := new(calls)
	r := inbuilt.New()
	if sym.Param("dynamic", 0) == 1 {
		r.Get("/dyn/{name}", c.handler(9))
	}
	var (
		count = [4]int{}
		total = 0
	)
	for i, name := range []string{"root", "group", "inner", "other"} {
		count[i] = sym.Choice(name, n+1)
		total += count[i]
	}
	rewriter := -1
	if total > 0 {
		rewriter = sym.Choice("rewriter", total+1) - 1
	}
	how := 0
	if rewriter >= 0 {
		how = sym.Choice("how", 4)
	}
	var (
		want []int
		seen []string
		made = map[*inbuilt.Router]bool{}
	)
	add := func(to *inbuilt.Router, level int) {
		if made[to] {
			return
		}
		made[to] = true
		for i := 0; i < count[level]; i++ {
			id := 100*(level+1) + i
			at := i
			for l := 0; l < level; l++ {
				at += count[l]
			}
			res := to.Mutator(func(req *http.Request) {
				c.ids = append(c.ids, id)
				seen = append(seen, req.Path)
				if at == rewriter {
					switch how {
					case 0:
						req.Path = "/to"
					case 1:
						req.Method = method.POST
					case 2:
						req.Path = "/to//"
					case 3:
						req.Path = "/nowhere"
					}
				}
			})
			sym.Assert(res == to, "the router is not returned")
		}
	}
	late := sym.Bool("late")
	if !late {
		add(r, 0)
	}
	g := r.Group("/g")
	if !late {
		add(g, 1)
	}
	h := g.Group("/h")
	o := r.Group("/o")
	add(o, 3)
	add(h, 2)
	add(g, 1)
	add(r, 0)
	r.Use(c.middleware(50))
	r.Get("/from", c.handler(1)).Post("/from", c.handler(2)).Get("/to", c.handler(3))
	h.Get("/in", c.handler(4))
	r.RouteError(c.handler(5), inbuilt.AllErrors, status.MethodNotAllowed)
	rt := r.Initialize()
	for level := 0; level < 4; level++ {
		for i := 0; i < count[level]; i++ {
			want = append(want, 100*(level+1)+i)
		}
	}
	for round := 0; round < sym.Param("k", 1); round++ {
		c.ids, seen = nil, nil
		path := []string{"/from", "/g/h/in", "/fr"}[sym.Choice("path", 3)]
		if path == "/fr" {
			path += sym.String("path", sym.Param("len", 2))
		}
		m := []method.Method{method.GET, method.HEAD, method.POST}[sym.Choice("m", 3)]
		req := newRequest(m, path)
		final, fm := trim(path), m
		if rewriter >= 0 {
			switch how {
			case 0, 2:
				final = "/to"
			case 1:
				fm = method.POST
			case 3:
				final = "/nowhere"
			}
		}
		refused := sym.Bool("refused")
		var resp *http.Response
		if refused {
			e := []error{status.ErrBadRequest, status.ErrNotFound, errors.New("plain")}[sym.Choice("err", 3)]
			resp = rt.OnError(req, e)
		} else {
			resp = rt.OnRequest(req)
		}
		sym.ObserveInt("code", int(resp.Reveal().Code))
		sym.Assert(len(c.ids) >= len(want), "a mutator does not run")
		sym.Assert(equal(c.ids[:len(want)], want), "mutators do not run once each in their order before anything else")
		for i, p := range seen {
			if rewriter < 0 || i <= rewriter {
				sym.Assert(p == path, "a mutator sees another path than the requested one")
			} else if how != 1 {
				sym.Assert(p != path, "a mutator does not see what an earlier one did")
			}
		}
		rest := c.ids[len(want):]
		if refused {
			sym.Reach("refused")
			for _, id := range rest {
				sym.Assert(id == 50 || id == 5, "a refused request is routed or mutated again")
			}
			continue
		}
		id := 5
		switch {
		case final == "/from" && fm == method.POST:
			id = 2
		case final == "/from":
			id = 1
		case final == "/to" && fm != method.POST:
			id = 3
		case final == "/g/h/in" && fm != method.POST:
			id = 4
		}
		if rewriter >= 0 {
			sym.Reach("rewritten")
		}
		sym.Reach("routed")
		sym.Assert(equal(rest, []int{50, id}), "the request is not routed once as the mutators left it")
	}
}
