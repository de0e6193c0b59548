package eng

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "github.com/indigo-web/indigo/internal/zzsym"

var skipInit = map[string]bool{
	"runtime": true, "internal/runtime/atomic": true, "os": false, "syscall": true, "internal/cpu": true,
	"internal/godebug": true, "internal/poll": false, "reflect": true, "internal/reflectlite": true,
	"crypto/internal/fips140": true, "vendor/golang.org/x/sys/cpu": true,
}

// redirects replaces functions without usable Go source by models in zzsym.
var redirects = map[string]string{
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.Count":               "Count",
	"internal/bytealg.CountString":         "CountString",
	"internal/bytealg.Index":               "Index",
	"internal/bytealg.IndexString":         "IndexString",
	"internal/bytealg.Compare":             "Compare",
	"internal/bytealg.CompareString":       "CompareString",
	"internal/bytealg.Equal":               "BytesEqual",
	"internal/bytealg.MakeNoZero":          "MakeNoZero",
	"bytes.Equal":                          "BytesEqual",
	"strings.Index":                        "IndexString",
	"bytes.Index":                          "Index",
	"(*sync.Pool).Get":                     "PoolGet",
	"(*sync.Pool).Put":                     "PoolPut",
	"errors.Is":                            "ErrorsIs",
	"errors.As":                            "ErrorsAs",
	"fmt.Sprintf":                          "Sprintf",
	"fmt.Sprint":                           "Sprint",
	"fmt.Sprintln":                         "Sprintln",
	"fmt.Errorf":                           "Errorf",
	"fmt.Fprintf":                          "Fprintf",
	"fmt.Fprint":                           "Fprint",
	"fmt.Fprintln":                         "Fprintln",
	"fmt.Appendf":                          "Appendf",
	"fmt.Append":                           "Append",
	"fmt.Appendln":                         "Appendln",
	"(*sync.Map).Load":                     "MapLoad",
	"(*sync.Map).Store":                    "MapStore",
	"(*sync.Map).LoadOrStore":              "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":            "MapLoadAndDelete",
	"(*sync.Map).Delete":                   "MapDelete",
	"(*sync.Map).Range":                    "MapRange",
	"(*sync.Map).Swap":                     "MapSwap",
	"time.After":                           "After",
	"time.AfterFunc":                       "AfterFunc",
	"time.NewTimer":                        "NewTimer",
	"time.Tick":                            "After",
	"(*time.Timer).Stop":                   "TimerStop",
	"(*time.Timer).Reset":                  "TimerReset",
	"sort.Slice":                           "SortSlice",
	"sort.SliceStable":                     "SortSlice",
}

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		symPkg + ".Byte": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return e.symVar(st, e.lab(st, c.args[0]), 8), actDone
		},
		symPkg + ".Bool": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return e.symVar(st, e.lab(st, c.args[0]), 0), actDone
		},
		symPkg + ".Uint64": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return e.symVar(st, e.lab(st, c.args[0]), 64), actDone
		},
		symPkg + ".Int": func(e *Engine, st *State, c *callCtx) (Value, int) {
			lo, hi := e.concInt(st, c.args[1]), e.concInt(st, c.args[2])
			return e.symRange(st, e.lab(st, c.args[0]), lo, hi), actDone
		},
		symPkg + ".Choice": func(e *Engine, st *State, c *callCtx) (Value, int) {
			n := e.concInt(st, c.args[1])
			l := e.lab(st, c.args[0])
			if n <= 0 {
				unsup("Choice of %d", n)
			}
			if n > 256 {
				unsup("Choice of %d", n)
			}
			t := e.rangeTerm(st, l, 0, n-1)
			k := e.concretize(st, t)
			st.labels[l]++
			return e.ctx.K(64, k), actDone
		},
		symPkg + ".Bytes": func(e *Engine, st *State, c *callCtx) (Value, int) {
			n := e.concInt(st, c.args[1])
			l := e.lab(st, c.args[0])
			cells := make([]Value, n)
			for i := range cells {
				cells[i] = e.symVar(st, l, 8)
			}
			return SliceV{e.alloc(st, &Obj{cells: cells}), 0, n, n}, actDone
		},
		symPkg + ".String": func(e *Engine, st *State, c *callCtx) (Value, int) {
			n := e.concInt(st, c.args[1])
			l := e.lab(st, c.args[0])
			cells := make([]Value, n)
			for i := range cells {
				cells[i] = e.symVar(st, l, 8)
			}
			return e.newStr(st, cells), actDone
		},
		symPkg + ".anyLen": func(e *Engine, st *State, c *callCtx) (Value, int) {
			s, ok := c.args[0].(IfaceV).v.(SliceV)
			if !ok {
				unsup("sorting %T", c.args[0].(IfaceV).v)
			}
			if s.n > 12 {
				unsup("sorting more than 12 elements")
			}
			return e.ctx.K(64, uint64(s.n)), actDone
		},
		symPkg + ".anySwap": func(e *Engine, st *State, c *callCtx) (Value, int) {
			iv := c.args[0].(IfaceV)
			s, t := iv.v.(SliceV), iv.t.Underlying().(*types.Slice).Elem()
			i, j := e.concInt(st, c.args[1]), e.concInt(st, c.args[2])
			n := e.size(t)
			a, b := PtrV{s.obj, s.off + i*n}, PtrV{s.obj, s.off + j*n}
			x, y := e.load(st, a, t), e.load(st, b, t)
			e.store(st, a, y)
			e.store(st, b, x)
			return nil, actDone
		},
		symPkg + ".Param": func(e *Engine, st *State, c *callCtx) (Value, int) {
			if s, ok := e.cfg.Params[e.lab(st, c.args[0])]; ok {
				v, err := strconv.Atoi(s)
				if err != nil {
					unsup("param %v", err)
				}
				return e.ctx.K(64, uint64(v)), actDone
			}
			return c.args[1], actDone
		},
		symPkg + ".ParamS": func(e *Engine, st *State, c *callCtx) (Value, int) {
			if s, ok := e.cfg.Params[e.lab(st, c.args[0])]; ok {
				return e.constStr(s), actDone
			}
			return c.args[1], actDone
		},
		symPkg + ".Assume": func(e *Engine, st *State, c *callCtx) (Value, int) {
			if !e.assume(st, c.args[0].(*Term)) {
				return nil, actDead
			}
			return nil, actDone
		},
		symPkg + ".Assert": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return e.assert(st, c.args[0].(*Term), e.lab(st, c.args[1]))
		},
		symPkg + ".Fail": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return e.assert(st, e.ctx.False, e.lab(st, c.args[0]))
		},
		symPkg + ".Reach": func(e *Engine, st *State, c *callCtx) (Value, int) {
			st.reach[e.lab(st, c.args[0])] = true
			return nil, actDone
		},
		symPkg + ".ObserveBytes": func(e *Engine, st *State, c *callCtx) (Value, int) {
			s := c.args[1].(SliceV)
			e.observe(st, e.lab(st, c.args[0]), TupleV(append([]Value(nil), e.bytesOf(st, s.obj, s.off, s.n)...)))
			return nil, actDone
		},
		symPkg + ".ObserveStr": func(e *Engine, st *State, c *callCtx) (Value, int) {
			e.observe(st, e.lab(st, c.args[0]), TupleV(append([]Value(nil), e.strBytes(st, c.args[1].(StrV))...)))
			return nil, actDone
		},
		symPkg + ".ObserveInt": func(e *Engine, st *State, c *callCtx) (Value, int) {
			e.observe(st, e.lab(st, c.args[0]), c.args[1])
			return nil, actDone
		},
		symPkg + ".ObserveBool": func(e *Engine, st *State, c *callCtx) (Value, int) {
			e.observe(st, e.lab(st, c.args[0]), c.args[1])
			return nil, actDone
		},
		symPkg + ".Freeze": func(e *Engine, st *State, c *callCtx) (Value, int) {
			e.freeze(st, e.lab(st, c.args[0]), c.args[1].(IfaceV))
			return nil, actDone
		},
		symPkg + ".NoMerge": func(e *Engine, st *State, c *callCtx) (Value, int) {
			st.noMerge = true
			return nil, actDone
		},
		symPkg + ".Native": func(e *Engine, st *State, c *callCtx) (Value, int) { return e.ctx.False, actDone },
		symPkg + ".Yield": func(e *Engine, st *State, c *callCtx) (Value, int) {
			if !e.visible(st) {
				return nil, actRetry
			}
			return nil, actDone
		},
		symPkg + ".Await": func(e *Engine, st *State, c *callCtx) (Value, int) {
			p := c.args[0].(PtrV)
			return e.awaitOp(st, "await", func(e *Engine, s *State) bool {
				t, ok := e.load(s, p, types.Typ[types.Bool]).(*Term)
				return ok && t.op == OConst && t.k != 0
			}, func() Value { return nil })
		},

		"github.com/indigo-web/utils/uf.B2S": func(e *Engine, st *State, c *callCtx) (Value, int) {
			s := c.args[0].(SliceV)
			if s.n == 0 {
				return StrV{}, actDone
			}
			return StrV{s.obj, s.off, s.n}, actDone
		},
		"github.com/indigo-web/utils/uf.S2B": func(e *Engine, st *State, c *callCtx) (Value, int) {
			s := c.args[0].(StrV)
			return SliceV{s.obj, s.off, s.n, s.n}, actDone
		},
		"github.com/indigo-web/utils/strcomp.EqualFold": func(e *Engine, st *State, c *callCtx) (Value, int) {
			a, b := c.args[0].(StrV), c.args[1].(StrV)
			if a.n != b.n {
				return e.ctx.False, actDone
			}
			r := e.ctx.True
			x, y := e.strBytes(st, a), e.strBytes(st, b)
			for i := range x {
				r = e.ctx.And(r, e.ctx.Eq(e.lower(x[i].(*Term)), e.lower(y[i].(*Term))))
			}
			return r, actDone
		},

		"internal/abi.NoEscape":               ident,
		"internal/abi.Escape":                 ident,
		"strings.noescape":                    ident,
		"runtime.KeepAlive":                   noop,
		"runtime.SetFinalizer":                noop,
		"runtime.Gosched":                     intrYield,
		"log.Println":                         noop,
		"log.Printf":                          noop,
		"log.Print":                           noop,
		"fmt.Println":                         printNoop,
		"fmt.Printf":                          printNoop,
		"fmt.Print":                           printNoop,
		symPkg + ".rawSprintf":                intrSprintf,
		symPkg + ".rawErrMsg":                 intrErrMsg,
		symPkg + ".isString":                  intrIsString,
		symPkg + ".asAssign":                  intrAsAssign,
		"slices.overlaps":                     intrOverlaps,
		"maps.clone":                          intrMapClone,
		"(*sync/atomic.Value).Load":           valueLoad,
		"(*sync/atomic.Value).Store":          valueStore,
		"(*sync/atomic.Value).Swap":           atomicSwap,
		"(*sync/atomic.Value).CompareAndSwap": atomicCAS,
		"(*sync.Mutex).Lock":                  intrLock,
		"(*sync.Mutex).Unlock":                intrUnlock,
		"(*sync.Mutex).TryLock":               intrTryLock,
		"(*sync.RWMutex).Lock":                intrLock,
		"(*sync.RWMutex).Unlock":              intrUnlock,
		"(*sync.RWMutex).RLock":               intrRLock,
		"(*sync.RWMutex).RUnlock":             intrRUnlock,
		"(*sync.RWMutex).TryLock":             intrTryLock,
		"(*sync.RWMutex).TryRLock":            intrTryRLock,
		"(*sync.copyChecker).check":           noop,
		"sync.runtime_notifyListAdd":          intrNotifyAdd,
		"sync.runtime_notifyListWait":         intrNotifyWait,
		"sync.runtime_notifyListNotifyOne":    intrNotifyOne,
		"sync.runtime_notifyListNotifyAll":    intrNotifyAll,
		"(*sync.WaitGroup).Add":               intrWgAdd,
		"(*sync.WaitGroup).Done":              intrWgDone,
		"(*sync.WaitGroup).Wait":              intrWgWait,
		"time.Sleep":                          intrYield,
		"time.Now":                            intrNow,
		"unique.Make":                         intrUnique,
		"internal/race.Enabled":               noop,
		"math.Float64bits": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return e.ctx.K(64, math.Float64bits(float64(c.args[0].(FloatV)))), actDone
		},
		"math.Float64frombits": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return FloatV(math.Float64frombits(e.concretize(st, c.args[0].(*Term)))), actDone
		},
		"math.Float32bits": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return e.ctx.K(32, uint64(math.Float32bits(float32(c.args[0].(FloatV))))), actDone
		},
		"internal/godebug.New": func(e *Engine, st *State, c *callCtx) (Value, int) {
			return PtrV{e.alloc(st, &Obj{cells: []Value{}}), 0}, actDone
		},
		"(*internal/godebug.Setting).Value":         func(e *Engine, st *State, c *callCtx) (Value, int) { return StrV{}, actDone },
		"(*internal/godebug.Setting).IncNonDefault": noop,
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		for _, pk := range []string{"sync/atomic."} {
			intrinsics[pk+"Load"+t.n] = atomicLoad
			intrinsics[pk+"Store"+t.n] = atomicStore
			intrinsics[pk+"Swap"+t.n] = atomicSwap
			intrinsics[pk+"CompareAndSwap"+t.n] = atomicCAS
			intrinsics[pk+"Add"+t.n] = atomicAdd
			intrinsics[pk+"And"+t.n] = atomicAnd
			intrinsics[pk+"Or"+t.n] = atomicOr
		}
	}
}

func ident(e *Engine, st *State, c *callCtx) (Value, int) { return c.args[0], actDone }
func noop(e *Engine, st *State, c *callCtx) (Value, int)  { return nil, actDone }
func printNoop(e *Engine, st *State, c *callCtx) (Value, int) {
	return TupleV{e.ctx.K(64, 0), IfaceV{}}, actDone
}
func intrYield(e *Engine, st *State, c *callCtx) (Value, int) {
	if !e.visible(st) {
		return nil, actRetry
	}
	return nil, actDone
}

// intrNow: the clock is not modelled; every call yields the zero instant plus a call counter.
func intrNow(e *Engine, st *State, c *callCtx) (Value, int) {
	// type Time struct { wall uint64; ext int64; loc *Location }
	t := c.fn.Signature.Results().At(0).Type()
	z := e.zero(t).(AggV)
	st.clock++
	// a microsecond passes between two calls
	z[0] = e.ctx.K(64, uint64(st.clock%1000000)*1000)
	z[1] = e.ctx.K(64, uint64(63000000000+st.clock/1000000))
	return z, actDone
}

// intrUnique canonicalises constant values: equal values of one type share one base cell.
func intrUnique(e *Engine, st *State, c *callCtx) (Value, int) {
	var cells []Value
	if a, ok := c.args[0].(AggV); ok {
		cells = a
	} else {
		cells = []Value{c.args[0]}
	}
	key := c.fn.Signature.String()
	for _, x := range cells {
		switch y := x.(type) {
		case *Term:
			if y.op != OConst {
				unsup("unique.Make of a symbolic value")
			}
			key += fmt.Sprintf("|%d:%d", y.w, y.k)
		case StrV:
			s, ok := e.goStr(st, y)
			if !ok {
				unsup("unique.Make of a symbolic value")
			}
			key += "|" + strconv.Quote(s)
		default:
			unsup("unique.Make of %T", x)
		}
	}
	id, ok := e.uniq[key]
	if !ok {
		id = e.alloc(nil, &Obj{cells: append([]Value(nil), cells...)})
		if e.uniq == nil {
			e.uniq = map[string]int{}
		}
		e.uniq[key] = id
	}
	return AggV{PtrV{id, 0}}, actDone
}

func (e *Engine) lab(st *State, v Value) string {
	s, ok := e.goStr(st, v.(StrV))
	if !ok {
		unsup("symbolic label")
	}
	return s
}

func (e *Engine) symVar(st *State, label string, w uint8) *Term {
	if st.isInit {
		unsup("symbolic input in init")
	}
	n := st.labels[label]
	st.labels[label] = n + 1
	return e.ctx.Var(label+"#"+strconv.Itoa(n), label, w)
}

// rangeTerm does not advance the label counter.
func (e *Engine) rangeTerm(st *State, label string, lo, hi int) *Term {
	if hi < lo {
		unsup("empty range")
	}
	name := label + "#" + strconv.Itoa(st.labels[label])
	span := uint64(hi - lo)
	w := uint8(64)
	if span < 256 {
		w = 8
	}
	_, had := e.ctx.byName[name]
	v := e.ctx.Var(name, label, w)
	if v.w != w {
		unsup("label %s reused with another width", name)
	}
	if span != 255 || w != 8 {
		c := e.ctx.Ule(v, e.ctx.K(w, span))
		if !had {
			e.assumeC = append(e.assumeC, c)
		}
		st.pc.add(e.ctx, c)
		if st.model.get(int32(v.k)) > span {
			st.model = st.model.with(int32(v.k), 0)
		}
	}
	return e.ctx.Bin(OAdd, e.ctx.ZExt(v, 64), e.ctx.K(64, uint64(int64(lo))))
}

func (e *Engine) symRange(st *State, label string, lo, hi int) *Term {
	t := e.rangeTerm(st, label, lo, hi)
	st.labels[label]++
	return t
}

func (e *Engine) assert(st *State, cond *Term, msg string) (Value, int) {
	e.Stats.Asserts++
	if cond.op == OConst {
		e.Stats.AssertsConst++
		if cond.k != 0 {
			return nil, actDone
		}
		e.violation(st, "assert", msg, e.ctx.True)
		e.finish(st, "assert")
		return nil, actDead
	}
	e.Stats.AssertsSolver++
	nc := e.ctx.Not(cond)
	r, _ := e.satSolver(st, nc)
	switch r {
	case Unsat:
		return nil, actDone
	case Unknown:
		e.Abandon["solver unknown at assertion: "+msg]++
		e.Incompl = "solver-unknown"
		return nil, actDone
	}
	e.violation(st, "assert", msg, nc)
	// continue with the inputs that satisfy it
	rr, m := e.sat(st, cond)
	if rr != SatYes {
		e.finish(st, "assert")
		return nil, actDead
	}
	st.pc.add(e.ctx, cond)
	st.model = m
	if e.cfg.Coverage {
		e.cfg.Coverage = false
		e.Coverage = "skipped: violations"
	}
	return nil, actDone
}

func (e *Engine) observe(st *State, label string, v Value) {
	n := 0
	if st.obs != nil {
		n = st.obs.n + 1
	}
	st.obs = &obs{prev: st.obs, label: label, val: v, n: n}
}

// ---------- freezing ----------

func (e *Engine) freeze(st *State, label string, v IfaceV) {
	seen := map[int]bool{}
	var visit func(v Value)
	visitObj := func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o := e.wobj(st, id)
		o.frozen = label
		for _, c := range o.cells {
			visit(c)
		}
		for _, en := range o.ent {
			visit(en.k)
			visit(en.v)
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case SliceV:
			visitObj(x.obj)
		case PtrV:
			visitObj(x.obj)
		case MapV:
			visitObj(x.obj)
		case UnsafeV:
			visit(x.v)
		case IfaceV:
			if x.t != nil {
				visit(x.v)
			}
		case *FuncV:
			if x != nil {
				for _, b := range x.bind {
					visit(b)
				}
			}
		case AggV:
			for _, b := range x {
				visit(b)
			}
		case TupleV:
			for _, b := range x {
				visit(b)
			}
		}
	}
	visit(v)
}

func (e *Engine) frozenWrite(st *State, o *Obj) {
	e.violation(st, "frozen", "write to shared state "+o.frozen+" at "+e.stack(st), e.ctx.True)
	o.frozen = ""
}

// ---------- builtins ----------

func (e *Engine) builtin(st *State, b *ssa.Builtin, args []Value, av []ssa.Value, rt types.Type) (Value, int) {
	c := e.ctx
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case StrV:
			return c.K(64, uint64(x.n)), actDone
		case SliceV:
			if b.Name() == "cap" {
				return c.K(64, uint64(x.cap)), actDone
			}
			return c.K(64, uint64(x.n)), actDone
		case MapV:
			if x.obj == 0 {
				return c.K(64, 0), actDone
			}
			return c.K(64, uint64(len(e.obj(st, x.obj).ent))), actDone
		case AggV:
			return c.K(64, uint64(av[0].Type().Underlying().(*types.Array).Len())), actDone
		case PtrV:
			return c.K(64, uint64(av[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())), actDone
		case ChanV:
			if x.obj == 0 {
				return c.K(64, 0), actDone
			}
			ch := e.obj(st, x.obj).ch
			if b.Name() == "cap" {
				return c.K(64, uint64(ch.cap)), actDone
			}
			if ch.cap == 0 {
				return c.K(64, 0), actDone
			}
			return c.K(64, uint64(len(ch.buf))), actDone
		}
		unsup("len of %T %v", args[0], args[0])
	case "append":
		dst := args[0].(SliceV)
		el := av[0].Type().Underlying().(*types.Slice).Elem()
		esz := e.size(el)
		var src []Value
		n := 0
		switch s := args[1].(type) {
		case StrV:
			src = append([]Value(nil), e.strBytes(st, s)...)
			n = s.n
		case SliceV:
			if s.n > 0 {
				src = append([]Value(nil), e.bytesOf(st, s.obj, s.off, s.n*esz)...)
			}
			n = s.n
		default:
			unsup("append of %T", args[1])
		}
		if n == 0 {
			return dst, actDone
		}
		if dst.n+n <= dst.cap {
			if esz > 0 {
				o := e.wobj(st, dst.obj)
				if o.frozen != "" {
					e.frozenWrite(st, o)
				}
				copy(o.cells[dst.off+dst.n*esz:], src)
			}
			return SliceV{dst.obj, dst.off, dst.n + n, dst.cap}, actDone
		}
		nc := growCap(dst.cap, dst.n+n, el)
		cells := make([]Value, 0, nc*esz)
		if dst.n > 0 {
			cells = append(cells, e.bytesOf(st, dst.obj, dst.off, dst.n*esz)...)
		}
		cells = append(cells, src...)
		if k := nc - dst.n - n; k > 0 && esz > 0 {
			one := e.zeroCells(el)
			for i := 0; i < k; i++ {
				cells = append(cells, one...)
			}
		}
		return SliceV{e.alloc(st, &Obj{cells: cells, typ: el}), 0, dst.n + n, nc}, actDone
	case "copy":
		dst := args[0].(SliceV)
		esz := e.size(av[0].Type().Underlying().(*types.Slice).Elem())
		var src []Value
		n := 0
		switch s := args[1].(type) {
		case StrV:
			n = min(dst.n, s.n)
			src = e.bytesOf(st, s.obj, s.off, n)
		case SliceV:
			n = min(dst.n, s.n)
			src = e.bytesOf(st, s.obj, s.off, n*esz)
		}
		if n > 0 && esz > 0 {
			src = append([]Value(nil), src...)
			o := e.wobj(st, dst.obj)
			if o.frozen != "" {
				e.frozenWrite(st, o)
			}
			copy(o.cells[dst.off:dst.off+n*esz], src)
		}
		return c.K(64, uint64(n)), actDone
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return nil, actDone
		}
		i := e.mapFind(st, m, args[1])
		if i >= 0 {
			o := e.wobj(st, m.obj)
			o.ent = append(o.ent[:i:i], o.ent[i+1:]...)
		}
		return nil, actDone
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.obj != 0 {
				e.wobj(st, x.obj).ent = nil
			}
		case SliceV:
			el := av[0].Type().Underlying().(*types.Slice).Elem()
			esz := e.size(el)
			if x.n > 0 {
				o := e.wobj(st, x.obj)
				one := e.zeroCells(el)
				for i := 0; i < x.n; i++ {
					copy(o.cells[x.off+i*esz:], one)
				}
			}
		}
		return nil, actDone
	case "min", "max":
		r := args[0]
		t := av[0].Type()
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *Term:
				bt := y.(*Term)
				var lt *Term
				if isSigned(t) {
					lt = c.Slt(a, bt)
				} else {
					lt = c.Ult(a, bt)
				}
				if b.Name() == "max" {
					lt = c.Not(lt)
				}
				r = c.Ite(lt, a, bt)
			case FloatV:
				if b.Name() == "min" {
					r = FloatV(math.Min(float64(a), float64(y.(FloatV))))
				} else {
					r = FloatV(math.Max(float64(a), float64(y.(FloatV))))
				}
			default:
				unsup("min/max of %T", r)
			}
		}
		return r, actDone
	case "panic":
		e.goPanic(st, args[0].(IfaceV))
		return nil, actHandled
	case "recover":
		t := st.thread()
		n := len(t.frames)
		if n >= 2 && t.frames[n-1].retMode == retUnwind {
			p := st.frameAt(t, n-2)
			if p.panicV != nil && !p.recov {
				v := *p.panicV
				p.recov = true
				return v, actDone
			}
		}
		return IfaceV{}, actDone
	case "print", "println":
		return nil, actDone
	case "close":
		return e.closeChan(st, args[0].(ChanV))
	case "String": // unsafe.String(ptr, len)
		p := args[0].(PtrV)
		n := e.concInt(st, args[1])
		if n == 0 {
			return StrV{}, actDone
		}
		return StrV{p.obj, p.off, n}, actDone
	case "StringData":
		s := args[0].(StrV)
		return PtrV{s.obj, s.off}, actDone
	case "Slice":
		p := args[0].(PtrV)
		n := e.concInt(st, args[1])
		if p.obj == 0 {
			return SliceV{}, actDone
		}
		return SliceV{p.obj, p.off, n, n}, actDone
	case "SliceData":
		s := args[0].(SliceV)
		return PtrV{s.obj, s.off}, actDone
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.obj == 0 {
			e.rtPanic(st, "value method called using nil pointer")
			return nil, actHandled
		}
		return args[0], actDone
	}
	if b.Name() == "Sizeof" && len(av) == 1 {
		return e.ctx.K(64, uint64(types.SizesFor("gc", "amd64").Sizeof(av[0].Type()))), actDone
	}
	unsup("builtin %s", b.Name())
	return nil, actDone
}

// growCap mirrors runtime.growslice closely enough (size classes matter only for cap()).
func growCap(old, need int, el types.Type) int {
	dbl := old * 2
	n := need
	if need <= dbl {
		if old < 256 {
			n = dbl
		} else {
			n = old
			for n < need {
				n += (n + 3*256) / 4
			}
		}
	}
	sz := goSizes.Sizeof(el)
	if sz == 0 {
		return need
	}
	total := int64(n) * sz
	for _, c := range sizeClasses {
		if total <= c {
			return int(c / sz)
		}
	}
	// page granularity
	total = (total + 8191) &^ 8191
	return int(total / sz)
}

var goSizes = types.SizesFor("gc", "amd64")
var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// ---------- fmt ----------

// fmtVal renders v for %v; result is a list of byte terms.
func (e *Engine) fmtVal(st *State, v Value, t types.Type, verb byte) []Value {
	k := func(s string) []Value { return append([]Value(nil), e.strBytes(st, e.constStr(s))...) }
	switch x := v.(type) {
	case IfaceV:
		if x.t == nil {
			return k("<nil>")
		}
		return e.fmtVal(st, x.v, x.t, verb)
	case StrV:
		b := append([]Value(nil), e.strBytes(st, x)...)
		if verb == 'q' {
			s, ok := e.goStr(st, x)
			if !ok {
				unsup("%%q of symbolic string")
			}
			return k(strconv.Quote(s))
		}
		return b
	case *Term:
		if x.w == 0 {
			if e.concretize(st, x) != 0 {
				return k("true")
			}
			return k("false")
		}
		u := e.concretize(st, x)
		switch verb {
		case 'x':
			return k(strconv.FormatUint(u, 16))
		case 'X':
			return k(strings.ToUpper(strconv.FormatUint(u, 16)))
		case 'c':
			return k(string(rune(u)))
		}
		if t != nil && isSigned(t) {
			return k(strconv.FormatInt(sext(u, x.w), 10))
		}
		return k(strconv.FormatUint(u, 10))
	case SliceV:
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb == 's' {
				return append([]Value(nil), e.bytesOf(st, x.obj, x.off, x.n)...)
			}
			out := k("[")
			esz := e.size(sl.Elem())
			for i := 0; i < x.n; i++ {
				if i > 0 {
					out = append(out, k(" ")...)
				}
				out = append(out, e.fmtVal(st, e.load(st, PtrV{x.obj, x.off + i*esz}, sl.Elem()), sl.Elem(), verb)...)
			}
			return append(out, k("]")...)
		}
	case FloatV:
		return k(strconv.FormatFloat(float64(x), 'g', -1, 64))
	}
	unsup("formatting %T", v)
	return nil
}

// needsCall reports an argument whose Error/String method would have to run.
func (e *Engine) fmtArgs(st *State, s SliceV) []IfaceV {
	out := make([]IfaceV, s.n)
	for i := range out {
		out[i] = e.obj(st, s.obj).cells[s.off+i].(IfaceV)
	}
	return out
}

func (e *Engine) fmtMethod(t types.Type) bool {
	for _, n := range []string{"Error", "String"} {
		methMu.Lock()
		ms := e.prog.SSA.MethodSets.MethodSet(t)
		sel := ms.Lookup(nil, n)
		methMu.Unlock()
		if sel != nil {
			if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
				return true
			}
		}
	}
	return false
}

func (e *Engine) sprintf(st *State, format string, args []IfaceV) []Value {
	var out []Value
	ai := 0
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' {
			out = append(out, e.ctx.K(8, uint64(ch)))
			continue
		}
		i++
		flags := ""
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			flags += string(format[i])
			i++
		}
		if i >= len(format) {
			unsup("bad format")
		}
		if format[i] == '%' {
			out = append(out, e.ctx.K(8, '%'))
			continue
		}
		if ai >= len(args) {
			unsup("missing format argument")
		}
		if flags != "" {
			// only zero-padded concrete integers
			if t, ok := args[ai].v.(*Term); ok && t.w > 0 {
				u := e.concretize(st, t)
				var s string
				if isSigned(args[ai].t) {
					s = fmt.Sprintf("%"+flags+string(format[i]), sext(u, t.w))
				} else {
					s = fmt.Sprintf("%"+flags+string(format[i]), u)
				}
				out = append(out, e.strBytes(st, e.constStr(s))...)
				ai++
				continue
			}
			unsup("format flags %q", flags)
		}
		if args[ai].t != nil && format[i] != 'd' && format[i] != 'T' && e.fmtMethod(args[ai].t) {
			s, ok := e.pureMethodString(st, args[ai])
			if !ok {
				unsup("formatting a Stringer/error of %v", args[ai].t)
			}
			out = append(out, s...)
			ai++
			continue
		}
		if format[i] == 'T' {
			out = append(out, e.strBytes(st, e.constStr(args[ai].t.String()))...)
			ai++
			continue
		}
		out = append(out, e.fmtVal(st, args[ai].v, args[ai].t, format[i])...)
		ai++
	}
	return out
}

// pureMethodString handles the usual error types without running code.
func (e *Engine) pureMethodString(st *State, v IfaceV) ([]Value, bool) {
	if p, ok := v.v.(PtrV); ok && p.obj != 0 {
		o := e.obj(st, p.obj)
		ts := v.t.String()
		if ts == "*errors.errorString" || ts == "*"+symPkg+".WrapErr" {
			return append([]Value(nil), e.strBytes(st, o.cells[p.off].(StrV))...), true
		}
	}
	return nil, false
}

func intrSprintf(e *Engine, st *State, c *callCtx) (Value, int) {
	f := e.lab(st, c.args[0])
	return e.newStr(st, e.sprintf(st, f, e.fmtArgs(st, c.args[1].(SliceV)))), actDone
}

// intrErrMsg is Sprintf for error texts: what cannot be rendered leaves the format as the text.
func intrErrMsg(e *Engine, st *State, c *callCtx) (Value, int) {
	f := e.lab(st, c.args[0])
	args := e.fmtArgs(st, c.args[1].(SliceV))
	var msg StrV
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(engErr); !ok {
					panic(r)
				}
				msg = e.constStr(f)
			}
		}()
		msg = e.newStr(st, e.sprintf(st, f, args))
	}()
	return msg, actDone
}

func intrIsString(e *Engine, st *State, c *callCtx) (Value, int) {
	v := c.args[0].(IfaceV)
	if v.t == nil {
		return e.ctx.False, actDone
	}
	b, ok := v.t.Underlying().(*types.Basic)
	return e.ctx.B(ok && b.Info()&types.IsString != 0), actDone
}

// intrAsAssign is the assignment of errors.As: it stores err in *target when the types allow it.
func intrAsAssign(e *Engine, st *State, c *callCtx) (Value, int) {
	err, target := c.args[0].(IfaceV), c.args[1].(IfaceV)
	if target.t == nil {
		unsup("errors.As with a nil target")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	p, ok2 := target.v.(PtrV)
	if !ok || !ok2 || p.obj == 0 {
		unsup("errors.As with a target of %v", target.t)
	}
	if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
		if !types.Implements(err.t, it) {
			return e.ctx.False, actDone
		}
		e.store(st, p, err)
		return e.ctx.True, actDone
	}
	if !types.Identical(err.t, pt.Elem()) {
		return e.ctx.False, actDone
	}
	e.store(st, p, err.v)
	return e.ctx.True, actDone
}

func valueLoad(e *Engine, st *State, c *callCtx) (Value, int) { return atomicLoad(e, st, c) }

func valueStore(e *Engine, st *State, c *callCtx) (Value, int) {
	if v, ok := c.args[1].(IfaceV); ok && v.t == nil {
		e.rtPanic(st, "sync/atomic: store of nil value into Value")
		return nil, actHandled
	}
	return atomicStore(e, st, c)
}

// intrOverlaps: whether two slices share memory.
func intrOverlaps(e *Engine, st *State, c *callCtx) (Value, int) {
	a, b := c.args[0].(SliceV), c.args[1].(SliceV)
	n := e.size(c.fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem())
	return e.ctx.B(a.n > 0 && b.n > 0 && a.obj == b.obj && a.off < b.off+b.n*n && b.off < a.off+a.n*n), actDone
}

func intrMapClone(e *Engine, st *State, c *callCtx) (Value, int) {
	v := c.args[0].(IfaceV)
	m, ok := v.v.(MapV)
	if !ok || m.obj == 0 {
		return v, actDone
	}
	o := *e.obj(st, m.obj)
	o.ent = append([]mapEntry(nil), o.ent...)
	o.frozen = ""
	return IfaceV{v.t, MapV{e.alloc(st, &o)}}, actDone
}

// ---------- rendering ----------

func (e *Engine) render(st *State, v Value) string { return e.renderM(st, v, st.model) }

func (e *Engine) renderM(st *State, v Value, m Model) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		u := e.ctx.Eval(x, m)
		if x.w == 0 {
			return strconv.FormatBool(u != 0)
		}
		return strconv.FormatInt(sext(u, x.w), 10)
	case TupleV: // observed bytes
		var sb strings.Builder
		sb.WriteString("x")
		for _, b := range x {
			fmt.Fprintf(&sb, "%02x", byte(e.ctx.Eval(b.(*Term), m)))
		}
		return sb.String()
	case StrV:
		var sb strings.Builder
		for _, b := range e.strBytes(st, x) {
			sb.WriteByte(byte(e.ctx.Eval(b.(*Term), m)))
		}
		return strconv.Quote(sb.String())
	case AggV:
		var p []string
		for i, c := range x {
			if i > 8 {
				break
			}
			p = append(p, e.renderM(st, c, m))
		}
		return "{" + strings.Join(p, " ") + "}"
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return e.renderM(st, x.v, m)
	case PtrV:
		if x.obj == 0 {
			return "nil"
		}
		o := e.obj(st, x.obj)
		if x.off < len(o.cells) {
			if s, ok := o.cells[x.off].(StrV); ok {
				return "&" + e.renderM(st, s, m)
			}
		}
		return "ptr"
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *Engine) lower(t *Term) *Term {
	c := e.ctx
	up := c.And(c.Ule(c.K(8, 'A'), t), c.Ule(t, c.K(8, 'Z')))
	return c.Ite(up, c.Bin(OOr, t, c.K(8, 0x20)), t)
}
