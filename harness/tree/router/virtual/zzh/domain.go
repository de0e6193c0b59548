// Package zzh holds the harnesses of the virtual-host router.
package zzh

import (
	sym "github.com/indigo-web/indigo/internal/zzsym"
	"github.com/indigo-web/indigo/router/virtual/internal/domain"
)

// shape returns a string of n arbitrary bytes, or one framed by the affixes that matter.
func shape(n int) string {
	s := sym.String("d", n)
	for i := 0; i < sym.Param("big", 0); i++ {
		s += "label."[i%6 : i%6+1]
	}
	switch sym.Choice("pre", 2) {
	case 1:
		s = "www." + s
	}
	switch sym.Choice("suf", 5) {
	case 1:
		s += ":80"
	case 2:
		s += ":443"
	case 3:
		s += ":" + sym.String("port", sym.Param("p", 2))
	case 4:
		s += "." + sym.String("tld", sym.Param("p", 2))
	}
	return s
}

// Domain: a leading www. and a trailing default port are dropped, all else is kept.
func Domain() {
	d := shape(sym.Param("n", 3))
	got := domain.Normalize(d)
	sym.ObserveStr("got", got)
	want := d
	if len(want) >= 4 && want[:4] == "www." {
		want = want[4:]
		sym.Reach("www")
	}
	if l := len(want); l >= 3 && want[l-3:] == ":80" {
		want = want[:l-3]
		sym.Reach("80")
	} else if l >= 4 && want[l-4:] == ":443" {
		want = want[:l-4]
		sym.Reach("443")
	}
	sym.Reach("done")
	sym.Assert(got == want, "a domain is not normalised to itself without www. and the default port")
}

// TrimPort: everything before the colon, or everything.
func TrimPort() {
	d := ""
	for i := 0; i < sym.Param("big", 0); i++ {
		d += "label."[i%6 : i%6+1]
	}
	d += sym.String("d", sym.Param("n", 3))
	n := len(d)
	got := domain.TrimPort(d)
	sym.ObserveStr("got", got)
	end := n
	for i := n - 1; i >= 0; i-- {
		if d[i] == ':' {
			end = i
		}
	}
	sym.Reach("done")
	sym.Assert(got == d[:end], "trimming the port yields something else than the host")
}
