// Package zzh holds the harnesses of the inbuilt router.
package zzh

import (
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router/inbuilt/uri"
)

// Normalize: trailing slashes are dropped, the first character always stays.
func Normalize() {
	fixed := func(n int, c byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = c
		}
		return string(b)
	}
	path := fixed(sym.Param("pre", 0), 'a') + sym.String("path", sym.Param("n", 3)) + fixed(sym.Param("slashes", 0), '/')
	n := len(path)
	got := uri.Normalize(path)
	sym.ObserveStr("got", got)
	end := n
	for end > 1 && path[end-1] == '/' {
		end--
	}
	if end < n {
		sym.Reach("trimmed")
	}
	sym.Reach("done")
	sym.Assert(got == path[:end], "the path is not what remains without its trailing slashes")
	sym.Assert(uri.Normalize(got) == got, "normalising twice differs from normalising once")
	sym.Assert(n == 0 || uri.Normalize(path+"/") == got, "one more trailing slash makes a difference")
}
