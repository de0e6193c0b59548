// Package constraint is a stand-in for github.com/indigo-web/utils/constraint (not available offline).
package constraint

type Number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}
