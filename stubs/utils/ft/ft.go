// Package ft is a stand-in for github.com/indigo-web/utils/ft (not available offline).
package ft

func Map[T, U any](f func(T) U, in []T) []U {
	out := make([]U, 0, len(in))
	for _, x := range in {
		out = append(out, f(x))
	}
	return out
}

func Sum[T ~int | ~string | ~float64](in []T) (s T) {
	for _, x := range in {
		s += x
	}
	return s
}
