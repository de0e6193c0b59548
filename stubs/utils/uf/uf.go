// Package uf is a stand-in for github.com/indigo-web/utils/uf (not available offline).
package uf

import "unsafe"

// B2S reinterprets the bytes as a string without copying.
func B2S(b []byte) string {
	return *(*string)(unsafe.Pointer(&b))
}

// S2B reinterprets the string as bytes without copying.
func S2B(s string) []byte {
	return *(*[]byte)(unsafe.Pointer(&struct {
		string
		int
	}{s, len(s)}))
}
