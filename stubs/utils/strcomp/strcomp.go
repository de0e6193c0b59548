// Package strcomp is a stand-in for github.com/indigo-web/utils/strcomp (not available offline).
package strcomp

// EqualFold reports whether two ASCII strings are equal ignoring case.
func EqualFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := 0; i < len(a); i++ {
		eq = eq && lower(a[i]) == lower(b[i])
	}
	return eq
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		c |= 0x20
	}
	return c
}
