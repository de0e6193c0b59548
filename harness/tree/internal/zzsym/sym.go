// Package zzsym is the harness runtime. The symbolic engine intercepts every exported
// function of this file; compiled natively the same functions read one concrete
// assignment, so that a solver model can be replayed against the real code.
package zzsym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

type input struct {
	Model  map[string]uint64 `json:"model"`
	Params map[string]string `json:"params"`
}

var (
	in     input
	counts = map[string]int{}
)

// Load reads a replay file (native only).
func Load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	in = input{}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	counts = map[string]int{}
}

func raw(label string) uint64 {
	n := counts[label]
	counts[label] = n + 1
	return in.Model[label+"#"+strconv.Itoa(n)]
}

// Byte returns an arbitrary byte.
func Byte(label string) byte { return byte(raw(label)) }

// Bool returns an arbitrary bool.
func Bool(label string) bool { return raw(label)&1 != 0 }

// Int returns an arbitrary integer in [lo, hi].
func Int(label string, lo, hi int) int { return lo + int(raw(label)) }

// Uint64 returns an arbitrary 64-bit value.
func Uint64(label string) uint64 { return raw(label) }

// Choice returns an arbitrary integer in [0, n); the engine explores each value separately.
func Choice(label string, n int) int { return int(raw(label)) }

// Bytes returns n arbitrary bytes (len == cap == n).
func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(raw(label))
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(label string, n int) string { return string(Bytes(label, n)) }

// Param returns a bound of this shard.
func Param(name string, def int) int {
	if s, ok := in.Params[name]; ok {
		v, err := strconv.Atoi(s)
		if err != nil {
			panic(err)
		}
		return v
	}
	return def
}

// ParamS returns a textual parameter of this shard.
func ParamS(name, def string) string {
	if s, ok := in.Params[name]; ok {
		return s
	}
	return def
}

// Assume restricts the inputs.
func Assume(cond bool) {
	if !cond {
		fmt.Println("ZZASSUME")
		os.Exit(43)
	}
}

// Assert states the property.
func Assert(cond bool, msg string) {
	if !cond {
		fmt.Println("ZZFAIL " + msg)
		os.Exit(42)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// Reach marks a point which some explored path must reach (vacuity guard).
func Reach(label string) {}

// ObserveBytes, ObserveInt and ObserveBool record outputs: the engine's value on a path and the
// native value for that path's witness must agree (this validates the translation).
func ObserveBytes(label string, b []byte) { fmt.Println("ZZOBS", label, "x"+hex.EncodeToString(b)) }
func ObserveStr(label string, s string) {
	fmt.Println("ZZOBS", label, "x"+hex.EncodeToString([]byte(s)))
}
func ObserveInt(label string, v int)   { fmt.Println("ZZOBS", label, strconv.Itoa(v)) }
func ObserveBool(label string, v bool) { fmt.Println("ZZOBS", label, strconv.FormatBool(v)) }

// Freeze declares the object p points to immutable from now on: any later write through the real
// code is reported by the engine. Natively it does nothing.
func Freeze(label string, p interface{}) {}

// NoMerge disables state merging from here on (engine only).
func NoMerge() {}

// Native reports whether this is a native run.
func Native() bool { return true }
