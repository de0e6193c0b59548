package zzsym

// Go-level models of runtime helpers that have no Go source (assembly) or rely on reflection.
// The engine executes these bodies in their place.

import (
	"io"
	"sync"
	"time"
	"unicode/utf8"
)

type RuntimeError struct{ Msg string }

func (r RuntimeError) Error() string { return r.Msg }
func (r RuntimeError) RuntimeError() {}

func DecodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func RunesToString(r []rune) string {
	var out []byte
	for _, x := range r {
		out = utf8.AppendRune(out, x)
	}
	return string(out)
}

func RuneToString(r int64) string {
	if r < 0 || r > 0x10ffff {
		return "\uFFFD"
	}
	return string(utf8.AppendRune(nil, rune(r)))
}

func StringToRunes(s string) []rune {
	var out []rune
	for _, r := range s {
		out = append(out, r)
	}
	return out
}

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func IndexString(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func Index(s, sub []byte) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if string(s[i:i+len(sub)]) == string(sub) {
			return i
		}
	}
	return -1
}

func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

func BytesEqual(a, b []byte) bool { return string(a) == string(b) }

func MakeNoZero(n int) []byte { return make([]byte, n) }

func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x interface{}) {}

func OnceDo(o *sync.Once, f func()) { onceDo(o, f) }

func onceDo(o *sync.Once, f func()) { f() }

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for err != nil {
		if sameErr(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func sameErr(a, b error) bool { return a == b }

// ErrorsAs is errors.As; asAssign (the engine's) tests and makes the assignment.
func ErrorsAs(err error, target any) bool {
	for err != nil {
		if asAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func asAssign(err error, target any) bool { panic("engine only") }

// WrapErr and WrapErrs are what fmt.Errorf yields.
type WrapErr struct {
	Msg string
	Err error
}

func (w *WrapErr) Error() string { return w.Msg }
func (w *WrapErr) Unwrap() error { return w.Err }

type WrapErrs struct {
	Msg  string
	Errs []error
}

func (w *WrapErrs) Error() string   { return w.Msg }
func (w *WrapErrs) Unwrap() []error { return w.Errs }

func rawSprintf(format string, a []any) string { panic("engine only") }
func rawErrMsg(format string, a []any) string  { panic("engine only") }
func isString(a any) bool                      { panic("engine only") }

// textual replaces errors and Stringers by their text.
func textual(a any) any {
	switch x := a.(type) {
	case error:
		return x.Error()
	case interface{ String() string }:
		return x.String()
	}
	return a
}

// prepare does so for the arguments of the verbs that print text.
func prepare(format string, a []any) []any {
	out := make([]any, len(a))
	copy(out, a)
	n := 0
	for i := 0; i < len(format) && n < len(out); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			break
		}
		switch format[i] {
		case '%':
			continue
		case 'v', 's', 'q', 'w':
			out[n] = textual(out[n])
		}
		n++
	}
	return out
}

func Sprintf(format string, a ...any) string { return rawSprintf(format, prepare(format, a)) }

func Sprint(a ...any) string {
	s := ""
	for i := range a {
		if i > 0 && !isString(a[i]) && !isString(a[i-1]) {
			s += " "
		}
		s += rawSprintf("%v", []any{textual(a[i])})
	}
	return s
}

func Sprintln(a ...any) string {
	s := ""
	for i := range a {
		if i > 0 {
			s += " "
		}
		s += rawSprintf("%v", []any{textual(a[i])})
	}
	return s + "\n"
}

func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}

func Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprintln(a...))) }

func Appendf(b []byte, format string, a ...any) []byte { return append(b, Sprintf(format, a...)...) }
func Append(b []byte, a ...any) []byte                 { return append(b, Sprint(a...)...) }
func Appendln(b []byte, a ...any) []byte               { return append(b, Sprintln(a...)...) }

func Errorf(format string, a ...any) error {
	f := []byte(format)
	var wrapped []error
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '.' || f[i] >= '0' && f[i] <= '9') {
			i++
		}
		if i >= len(f) || f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			f[i] = 'v'
			if n < len(a) {
				if e, ok := a[n].(error); ok {
					wrapped = append(wrapped, e)
				}
			}
		}
		n++
	}
	msg := rawErrMsg(string(f), prepare(string(f), a))
	if len(wrapped) > 1 {
		return &WrapErrs{msg, wrapped}
	}
	if len(wrapped) == 1 {
		return &WrapErr{msg, wrapped[0]}
	}
	return &WrapErr{msg, nil}
}

// A sync.Map is a list of pairs found by the map's address.
type pair struct{ k, v any }

var maps = map[*sync.Map]*[]pair{}

func pairs(m *sync.Map) *[]pair {
	Yield()
	if maps[m] == nil {
		maps[m] = new([]pair)
	}
	return maps[m]
}

func MapLoad(m *sync.Map, k any) (any, bool) {
	for _, p := range *pairs(m) {
		if p.k == k {
			return p.v, true
		}
	}
	return nil, false
}

func MapStore(m *sync.Map, k, v any) { MapSwap(m, k, v) }

func MapSwap(m *sync.Map, k, v any) (any, bool) {
	l := pairs(m)
	for i, p := range *l {
		if p.k == k {
			(*l)[i].v = v
			return p.v, true
		}
	}
	*l = append(*l, pair{k, v})
	return nil, false
}

func MapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if x, ok := MapLoad(m, k); ok {
		return x, true
	}
	MapSwap(m, k, v)
	return v, false
}

func MapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	l := pairs(m)
	for i, p := range *l {
		if p.k == k {
			*l = append(append([]pair(nil), (*l)[:i]...), (*l)[i+1:]...)
			return p.v, true
		}
	}
	return nil, false
}

func MapDelete(m *sync.Map, k any) { MapLoadAndDelete(m, k) }

func MapRange(m *sync.Map, f func(k, v any) bool) {
	for _, p := range *pairs(m) {
		if !f(p.k, p.v) {
			return
		}
	}
}

// anyLen and anySwap are implemented by the engine.
func anyLen(x any) int        { panic("engine only") }
func anySwap(x any, i, j int) { panic("engine only") }

// SortSlice is what sort.Slice does with up to 12 elements (an insertion sort, which is stable).
func SortSlice(x any, less func(i, j int) bool) {
	n := anyLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			anySwap(x, j, j-1)
		}
	}
}

// ---------- timers: may expire at any moment ----------

type timerState struct{ stopped, fired bool }

var timers = map[*time.Timer]*timerState{}

func fire(t *time.Timer, f func()) {
	s := &timerState{}
	timers[t] = s
	go func() {
		Yield()
		if !s.stopped {
			s.fired = true
			f()
		}
	}()
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	fire(t, func() { c <- time.Time{} })
	return t
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	fire(t, f)
	return t
}

// TimerStop is (*time.Timer).Stop.
func TimerStop(t *time.Timer) bool {
	s := timers[t]
	active := !s.fired && !s.stopped
	s.stopped = true
	return active
}

// TimerReset is (*time.Timer).Reset of timers made by NewTimer.
func TimerReset(t *time.Timer, d time.Duration) bool {
	panic("not modelled: Timer.Reset")
}
