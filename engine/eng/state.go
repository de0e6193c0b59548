package eng

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StrV struct{ obj, off, n int }
type SliceV struct{ obj, off, n, cap int }
type PtrV struct{ obj, off int }
type IfaceV struct {
	t types.Type
	v Value
}
type FuncV struct {
	fn      *ssa.Function
	builtin *ssa.Builtin
	bind    []Value
	bound   *boundIntr
}
type boundIntr struct{ name string }
type MapV struct{ obj int }
type ChanV struct{ obj int }
type IterV struct{ obj int }
type TupleV []Value
type AggV []Value
type FloatV float64
type ComplexV complex128
type Poison struct{ why string }
type UnsafeV struct{ v Value } // unsafe.Pointer wrapping a PtrV

type mapEntry struct{ k, v Value }

type Obj struct {
	owner uint32
	cells []Value
	ent   []mapEntry // map objects
	ch    *chanData
	it    *iterData
	typ   types.Type
	// frozen marks memory which must not be written any more (sym.Freeze)
	frozen string
}

type chanData struct {
	buf         []Value
	cap         int
	closed      bool
	sent, recvd int
	// resv: the value was handed by a select to the waiting receiver (thread resv-1)
	resv int
}

type iterData struct {
	str  *StrV
	pos  int
	m    int
	keys []Value
	i    int
}

type deferRec struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

const (
	retNormal = iota
	retDiscard
	retUnwind
	retNext
	retThread
)

type Frame struct {
	owner   uint32
	fi      *FnInfo
	block   int
	prev    int
	pc      int
	regs    []Value
	defers  []deferRec
	panicV  *IfaceV // this frame is unwinding with that value
	recov   bool
	unwind  bool // frame is in unwinding/recovering mode
	retMode int
	dst     int // destination register in the caller
	aux     Value
}

type Thread struct {
	id     int
	frames []*Frame
	done   bool
	// blocked on: re-evaluated each time the scheduler looks
	wait func(e *Engine, st *State) bool
	desc string
	// channels a blocked receiver waits for, and (the channel of) a value handed to it by a select
	recvOn  []int
	selSend []int
	grant   int
}

type obs struct {
	prev  *obs
	label string
	val   Value
	n     int
}

type State struct {
	id         uint32
	threads    []*Thread
	cur        int
	heap       []*Obj
	over       map[int]*Obj
	pc         PC
	model      Model
	labels     map[string]int
	obs        *obs
	reach      map[string]bool
	join       *Join
	steps      int
	nconc      int
	isInit     bool
	sched      int // number of scheduling decisions taken
	preempt    int
	clock      int
	depth      int
	noMerge    bool
	off        bool // finished or parked
	tok        bool // the chosen thread may execute its pending visible operation
	pickedSelf bool
	sync       map[[3]int]int
	retVal     Value
}

func (e *Engine) newState() *State {
	e.nextState++
	return &State{id: e.nextState, over: map[int]*Obj{}, labels: map[string]int{}, reach: map[string]bool{}, pc: PC{multi: e.ctx.empty}}
}

func (e *Engine) clone(st *State) *State {
	e.nextState++
	n := *st
	n.id = e.nextState
	e.nextState++
	st.id = e.nextState
	n.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		nt := *t
		nt.frames = append([]*Frame(nil), t.frames...)
		n.threads[i] = &nt
	}
	n.heap = append(make([]*Obj, 0, len(st.heap)+16), st.heap...)
	n.over = make(map[int]*Obj, len(st.over))
	for k, v := range st.over {
		n.over[k] = v
	}
	n.labels = make(map[string]int, len(st.labels))
	for k, v := range st.labels {
		n.labels[k] = v
	}
	n.reach = make(map[string]bool, len(st.reach))
	for k, v := range st.reach {
		n.reach[k] = v
	}
	n.pc = st.pc.clone()
	e.Stats.Forks++
	return &n
}

func (st *State) thread() *Thread { return st.threads[st.cur] }

// top returns the current frame, private to this state.
func (st *State) top() *Frame {
	t := st.threads[st.cur]
	return st.frameAt(t, len(t.frames)-1)
}

func (st *State) frameAt(t *Thread, i int) *Frame {
	f := t.frames[i]
	if f.owner != st.id {
		n := *f
		n.owner = st.id
		n.regs = append([]Value(nil), f.regs...)
		n.defers = append([]deferRec(nil), f.defers...)
		t.frames[i] = &n
		return &n
	}
	return f
}

func (e *Engine) obj(st *State, id int) *Obj {
	if id > 0 {
		return st.heap[id-1]
	}
	if id == 0 {
		panic(engErr("nil object dereference"))
	}
	if st != nil {
		if o, ok := st.over[id]; ok {
			return o
		}
	}
	return e.base[-id-1]
}

func (o *Obj) clone(owner uint32) *Obj {
	n := *o
	n.owner = owner
	n.cells = append([]Value(nil), o.cells...)
	n.ent = append([]mapEntry(nil), o.ent...)
	if o.ch != nil {
		c := *o.ch
		c.buf = append([]Value(nil), o.ch.buf...)
		n.ch = &c
	}
	if o.it != nil {
		c := *o.it
		n.it = &c
	}
	return &n
}

func (e *Engine) wobj(st *State, id int) *Obj {
	if id > 0 {
		o := st.heap[id-1]
		if o.owner != st.id {
			o = o.clone(st.id)
			st.heap[id-1] = o
		}
		return o
	}
	if id == 0 {
		panic(engErr("nil object dereference"))
	}
	if st.isInit {
		return e.base[-id-1]
	}
	if o, ok := st.over[id]; ok {
		if o.owner != st.id {
			o = o.clone(st.id)
			st.over[id] = o
		}
		return o
	}
	o := e.base[-id-1].clone(st.id)
	st.over[id] = o
	return o
}

func (e *Engine) alloc(st *State, o *Obj) int {
	if st == nil || st.isInit {
		e.base = append(e.base, o)
		return -len(e.base)
	}
	o.owner = st.id
	st.heap = append(st.heap, o)
	return len(st.heap)
}

func (e *Engine) allocT(st *State, t types.Type) int {
	return e.alloc(st, &Obj{cells: e.zeroCells(t), typ: t})
}

type engErr string

func (e engErr) Error() string { return string(e) }

func unsup(f string, a ...interface{}) { panic(engErr("unsupported: " + fmt.Sprintf(f, a...))) }

// ---------- type layout ----------

func (e *Engine) size(t types.Type) int {
	if n, ok := e.sizes[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += e.size(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * e.size(u.Elem())
	case *types.Tuple:
		n = u.Len()
	}
	e.sizes[t] = n
	return n
}

func (e *Engine) fieldOff(t *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += e.size(t.Field(j).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (e *Engine) zeroCells(t types.Type) []Value {
	out := make([]Value, 0, e.size(t))
	return e.appendZero(out, t)
}

func (e *Engine) appendZero(out []Value, t types.Type) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = e.appendZero(out, u.Field(i).Type())
		}
		return out
	case *types.Array:
		if u.Len() == 0 {
			return out
		}
		one := e.zeroCells(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, one...)
		}
		return out
	}
	return append(out, e.zero(t))
}

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, ok := intWidth(u); ok {
			return e.ctx.K(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.ctx.False
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Info()&types.IsComplex != 0:
			return ComplexV(0)
		case u.Kind() == types.UnsafePointer:
			return UnsafeV{PtrV{}}
		case u.Kind() == types.UntypedNil:
			return PtrV{}
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Struct, *types.Array:
		return AggV(e.zeroCells(t))
	case *types.Tuple:
		out := make(TupleV, u.Len())
		for i := range out {
			out[i] = e.zero(u.At(i).Type())
		}
		return out
	}
	unsup("zero of %v", t)
	return nil
}

func intWidth(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int8, types.Uint8:
		return 8, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (e *Engine) load(st *State, p PtrV, t types.Type) Value {
	o := e.obj(st, p.obj)
	n := e.size(t)
	if isAgg(t) {
		if p.off < 0 || p.off+n > len(o.cells) {
			unsup("load out of object: off %d size %d of %d", p.off, n, len(o.cells))
		}
		return AggV(append([]Value(nil), o.cells[p.off:p.off+n]...))
	}
	if p.off < 0 || p.off >= len(o.cells) {
		unsup("load out of object: off %d of %d", p.off, len(o.cells))
	}
	v := o.cells[p.off]
	switch x := v.(type) {
	case SliceV: // *(*string)(unsafe.Pointer(&slice))
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.n == 0 {
				return StrV{}
			}
			return StrV{x.obj, x.off, x.n}
		}
	case StrV: // the cast of a string to a struct or slice would read past it
		if _, ok := t.Underlying().(*types.Slice); ok {
			unsup("a string read as a slice")
		}
	}
	return v
}

func (e *Engine) store(st *State, p PtrV, v Value) {
	o := e.wobj(st, p.obj)
	if o.frozen != "" {
		e.frozenWrite(st, o)
	}
	if a, ok := v.(AggV); ok {
		if p.off < 0 || p.off+len(a) > len(o.cells) {
			unsup("store out of object")
		}
		copy(o.cells[p.off:], a)
		return
	}
	if p.off < 0 || p.off >= len(o.cells) {
		unsup("store out of object: off %d of %d", p.off, len(o.cells))
	}
	o.cells[p.off] = v
}

// ---------- strings ----------

func (e *Engine) constStr(s string) StrV {
	if s == "" {
		return StrV{}
	}
	if v, ok := e.strs[s]; ok {
		return v
	}
	cells := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		cells[i] = e.ctx.K(8, uint64(s[i]))
	}
	e.base = append(e.base, &Obj{cells: cells})
	v := StrV{-len(e.base), 0, len(s)}
	e.strs[s] = v
	return v
}

func (e *Engine) bytesOf(st *State, obj, off, n int) []Value {
	if n == 0 {
		return nil
	}
	o := e.obj(st, obj)
	return o.cells[off : off+n]
}

func (e *Engine) strBytes(st *State, s StrV) []Value { return e.bytesOf(st, s.obj, s.off, s.n) }

func (e *Engine) newStr(st *State, b []Value) StrV {
	if len(b) == 0 {
		return StrV{}
	}
	// fully constant strings could be interned, but identity does not matter
	id := e.alloc(st, &Obj{cells: append([]Value(nil), b...)})
	return StrV{id, 0, len(b)}
}

// goStr returns the concrete Go string, if it is one.
func (e *Engine) goStr(st *State, s StrV) (string, bool) {
	b := e.strBytes(st, s)
	out := make([]byte, len(b))
	for i, c := range b {
		t, ok := c.(*Term)
		if !ok || !t.IsConst() {
			return "", false
		}
		out[i] = byte(t.k)
	}
	return string(out), true
}

func (e *Engine) strEq(st *State, a, b StrV) *Term {
	if a.n != b.n {
		return e.ctx.False
	}
	if a == b {
		return e.ctx.True
	}
	x, y := e.strBytes(st, a), e.strBytes(st, b)
	r := e.ctx.True
	for i := range x {
		r = e.ctx.And(r, e.ctx.Eq(x[i].(*Term), y[i].(*Term)))
		if r == e.ctx.False {
			return r
		}
	}
	return r
}
