// Package zzlog stands in for package log in the application: it counts what is logged.
package zzlog

var Lines int

func Printf(format string, args ...any) { Lines++ }
func Println(args ...any)               { Lines++ }
func Print(args ...any)                 { Lines++ }
