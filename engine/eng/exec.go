package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Stats struct {
	Paths, Steps, Forks, Merges, Asserts, AssertsConst, AssertsSolver int
	Abandoned, Assumed, States, MaxSteps                              int
}

type Violation struct {
	Kind  string // assert, panic, hang, deadlock, ...
	Msg   string
	Model map[string]uint64
	Where string
	Obs   []ObsOut
}

type ObsOut struct{ Label, Val string }

type PathSample struct {
	Model map[string]uint64
	Obs   []ObsOut
	// Abandoned is the reason, when the path was not followed to its end.
	Abandoned string
}

type Config struct {
	Params      map[string]string
	MaxSteps    int
	MaxPaths    int
	Deadline    time.Time
	QueryMS     int
	Merge       bool
	MaxSample   int
	Preempt     int
	OneSchedule bool // only one schedule is explored
	Verbose     bool
	MaxViol     int
	Coverage    bool
	// Grace bounds the exploration after the first violation.
	Grace time.Duration
}

// Halt makes every engine give up what it has not explored yet (memory watchdog).
var Halt atomic.Bool

type Engine struct {
	// what the current channel operation waits for (see Thread)
	recvOn, selSend []int
	uniq            map[string]int // unique.Make
	prog            *Program
	ctx             *Ctx
	sol             *Solver
	cfg             Config
	fns             map[*ssa.Function]*FnInfo
	base            []*Obj
	globals         map[*ssa.Global]int
	inited          map[*ssa.Package]int
	sizes           map[types.Type]int
	strs            map[string]StrV
	meth            map[methKey]*ssa.Function
	nextState       uint32
	work            []*State
	Stats           Stats
	Viol            []*Violation
	Samples         []PathSample
	Abandon         map[string]int
	Reach           map[string]int
	Funcs           map[string]int
	leaves          []*Term
	violKeys        map[string]int
	Coverage        string
	Incompl         string
	initDepth       int
	initErrs        []string
	nsample         int
	curLimit        int
	assumeC         []*Term
	tok             bool
	rng             uint64
	forkSites       map[string]int
	firstViol       time.Time
	onPanic         func()
}

type methKey struct {
	t types.Type
	m *types.Func
}

func NewEngine(p *Program, cfg Config) *Engine {
	ctx := NewCtx()
	if cfg.QueryMS == 0 {
		cfg.QueryMS = 10000
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 2000000
	}
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 1 << 30
	}
	if cfg.MaxViol == 0 {
		cfg.MaxViol = 12
	}
	return &Engine{prog: p, ctx: ctx, sol: NewSolver(ctx, cfg.QueryMS), cfg: cfg, fns: map[*ssa.Function]*FnInfo{}, globals: map[*ssa.Global]int{},
		inited: map[*ssa.Package]int{}, sizes: map[types.Type]int{}, strs: map[string]StrV{}, meth: map[methKey]*ssa.Function{}, Abandon: map[string]int{},
		Reach: map[string]int{}, Funcs: map[string]int{}, violKeys: map[string]int{}, rng: 1, forkSites: map[string]int{}}
}

var methMu sync.Mutex

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := e.meth[k]; ok {
		return f
	}
	methMu.Lock()
	f := e.prog.SSA.LookupMethod(t, m.Pkg(), m.Name())
	methMu.Unlock()
	e.meth[k] = f
	return f
}

// ---------- package initialisation (lazy, tolerant) ----------

func (e *Engine) ensureInit(p *ssa.Package) {
	if p == nil || e.inited[p] != 0 {
		return
	}
	e.inited[p] = 1
	fn := p.Func("init")
	if fn == nil || skipInit[p.Pkg.Path()] {
		e.inited[p] = 2
		return
	}
	st := e.newState()
	st.isInit = true
	st.threads = []*Thread{{}}
	saved := e.work
	e.work = nil
	e.initDepth++
	fi := e.info(fn)
	e.pushFrame(st, fi, nil, nil, -1, retThread)
	for tries := 0; tries < 100000; tries++ {
		err := e.burstSafe(st)
		if err == nil {
			break
		}
		// tolerate: unwind to the init frame of this package, poison the result and go on
		e.initErrs = append(e.initErrs, fmt.Sprintf("%s: %v", p.Pkg.Path(), err))
		t := st.thread()
		if len(t.frames) == 0 {
			break
		}
		keep := 1
		for i := len(t.frames) - 1; i >= 1; i-- {
			// explicit init#N functions are abandoned as a whole
			_ = i
		}
		popped := len(t.frames) > keep
		t.frames = t.frames[:keep]
		f := st.top()
		if popped {
			// the call had already advanced pc
			in := &f.fi.blocks[f.block][f.pc-1]
			if in.dst >= 0 {
				f.regs[in.dst] = Poison{err.Error()}
			}
		} else {
			in := &f.fi.blocks[f.block][f.pc]
			switch in.in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				t.frames = nil
			default:
				if in.dst >= 0 {
					f.regs[in.dst] = Poison{err.Error()}
				}
				f.pc++
			}
		}
		e.work = nil
		if len(t.frames) == 0 {
			break
		}
	}
	e.work = saved
	e.initDepth--
	e.inited[p] = 2
}

// ---------- frames ----------

func (e *Engine) pushFrame(st *State, fi *FnInfo, args, bind []Value, dst, mode int) {
	if len(fi.blocks) == 0 {
		unsup("call of external function %s", fi.name)
	}
	t := st.thread()
	if len(t.frames) > 400 {
		unsup("call depth")
	}
	f := &Frame{owner: st.id, fi: fi, regs: make([]Value, fi.nregs), dst: dst, retMode: mode, prev: -1}
	copy(f.regs, args)
	copy(f.regs[len(fi.fn.Params):], bind)
	if len(args) != len(fi.fn.Params) {
		unsup("arity mismatch calling %s: %d vs %d", fi.name, len(args), len(fi.fn.Params))
	}
	t.frames = append(t.frames, f)
	if !st.isInit {
		e.Funcs[fi.name]++
	}
}

func (f *Frame) get(o *Opnd) Value {
	if o.kind == okReg {
		return f.regs[o.idx]
	}
	return o.val
}

type stop struct{} // state left the current burst (parked, dead, forked away)

type assumeFail struct{}

// burst runs the state until it dies, parks or completes. It panics with engErr when unsupported.
func (e *Engine) burst(st *State) {
	n := 0
	for {
		t := st.thread()
		if t.done || len(t.frames) == 0 {
			if !e.threadDone(st) {
				return
			}
			continue
		}
		if t.wait != nil {
			if !e.schedule(st, false) {
				return
			}
			continue
		}
		if !e.step(st) || st.off {
			return
		}
		st.steps++
		e.Stats.Steps++
		n++
		if st.steps > e.cfg.MaxSteps && !st.isInit {
			e.hang(st)
			return
		}
		if n&1023 == 0 && !st.isInit {
			if why := e.overdue(); why != "" {
				e.abandon(st, why)
				return
			}
		}
	}
}

// anyViol is the time of the first violation of any of the engines.
var anyViol atomic.Int64

// overdue tells why exploring must not go on.
func (e *Engine) overdue() string {
	if Halt.Load() {
		return "memory bound"
	}
	now := time.Now()
	if !e.cfg.Deadline.IsZero() && now.After(e.cfg.Deadline) {
		return "deadline"
	}
	if e.cfg.Grace > 0 && len(e.Viol) > 0 && now.After(e.firstViol.Add(e.cfg.Grace)) {
		return "stopped after a violation"
	}
	if t := anyViol.Load(); e.cfg.Grace > 0 && t != 0 && now.After(time.Unix(0, t).Add(3*e.cfg.Grace)) {
		return "stopped after a violation elsewhere"
	}
	return ""
}

func (e *Engine) burstSafe(st *State) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case engErr:
				err = x
			case stop:
				err = nil
			case error:
				err = engErr("engine: " + x.Error() + " @ " + e.where(st))
				if debugPanics {
					panic(r)
				}
			default:
				err = engErr(fmt.Sprint("engine: ", r, " @ ", e.where(st)))
				if debugPanics {
					panic(r)
				}
			}
		}
	}()
	e.burst(st)
	return nil
}

var debugPanics = false

func SetDebug(b bool) { debugPanics = b }

func (e *Engine) where(st *State) string {
	t := st.thread()
	if len(t.frames) == 0 {
		return "?"
	}
	f := t.frames[len(t.frames)-1]
	if f.block >= len(f.fi.blocks) || f.pc >= len(f.fi.blocks[f.block]) {
		return f.fi.name
	}
	in := f.fi.blocks[f.block][f.pc].in
	pos := e.prog.SSA.Fset.Position(in.Pos())
	return fmt.Sprintf("%s %s:%d [%v]", f.fi.name, pos.Filename, pos.Line, in)
}

func (e *Engine) stack(st *State) string {
	s := ""
	t := st.thread()
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		var pos token.Position
		for k := min(f.pc, len(f.fi.blocks[f.block])-1); k >= 0; k-- {
			if p := f.fi.blocks[f.block][k].in.Pos(); p.IsValid() {
				pos = e.prog.SSA.Fset.Position(p)
				break
			}
		}
		s += fmt.Sprintf("%s (%s:%d) <- ", f.fi.name, shortFile(pos.Filename), pos.Line)
		if i < len(t.frames)-12 {
			break
		}
	}
	return s
}

func shortFile(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			for j := i - 1; j >= 0; j-- {
				if s[j] == '/' {
					return s[j+1:]
				}
			}
			break
		}
	}
	return s
}

// ---------- feasibility and branching ----------

// sat decides whether pc ∧ cond is satisfiable and returns a witness.
func (e *Engine) sat(st *State, cond *Term) (Sat, Model) {
	if cond.op == OConst {
		if cond.k != 0 {
			return SatYes, st.model
		}
		return Unsat, nil
	}
	if v, ok := e.ctx.singleByte(cond); ok {
		d := st.pc.domOf(e.ctx, v)
		n := d.and(e.ctx.BsetOf(cond))
		if n.empty() {
			return Unsat, nil
		}
		if n == d {
			return SatYes, st.model
		}
		if n.has(st.model.get(v)) {
			return SatYes, st.model
		}
		if !st.pc.multi.has(v) {
			return SatYes, st.model.with(v, n.pick())
		}
	} else if e.ctx.Eval(cond, st.model) != 0 {
		return SatYes, st.model
	}
	return e.satSolver(st, cond)
}

func (e *Engine) satSolver(st *State, cond *Term) (Sat, Model) {
	q := append(st.pc.relevant(e.ctx, cond), cond)
	r, m := e.sol.Check(q)
	if r == SatYes {
		out := append(Model(nil), st.model...)
		for v, x := range m {
			for int(v) >= len(out) {
				out = append(out, 0)
			}
			out[v] = x
		}
		return r, out
	}
	return r, nil
}

// branch decides cond on the current state. When both outcomes are possible the state is
// cloned: the clone (with the negation) re-executes the current instruction.
func (e *Engine) branch(st *State, cond *Term) bool {
	if cond.op == OConst {
		return cond.k != 0
	}
	if st.isInit {
		panic(engErr("symbolic branch in init"))
	}
	nc := e.ctx.Not(cond)
	rt, mt := e.sat(st, cond)
	if rt == Unsat {
		return false
	}
	rf, mf := e.sat(st, nc)
	if rf == Unsat {
		return true
	}
	if rt == Unknown || rf == Unknown {
		// keep only sides with a witness; note the reduction
		e.Incompl = "solver-unknown"
		e.Abandon["solver unknown at branch"]++
		if rt == Unknown && rf == Unknown {
			panic(engErr("solver unknown"))
		}
		if rt == Unknown {
			st.pc.add(e.ctx, nc)
			st.model = mf
			return false
		}
		st.pc.add(e.ctx, cond)
		st.model = mt
		return true
	}
	n := e.clone(st)
	n.pc.add(e.ctx, nc)
	n.model = mf
	e.spawn(st, n)
	st.pc.add(e.ctx, cond)
	st.model = mt
	return true
}

// spawn queues a state forked from st.
func (e *Engine) spawn(st, n *State) {
	if n.join != nil {
		n.join.live++
	}
	if e.cfg.Verbose {
		e.forkSites[e.where(st)]++
	}
	e.work = append(e.work, n)
}

// concretize returns a concrete value of t, forking on alternatives.
func (e *Engine) concretize(st *State, t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	for {
		v := e.ctx.Eval(t, st.model)
		st.nconc++
		if st.nconc > 3000 {
			unsup("too many concretizations")
		}
		if e.branch(st, e.ctx.Eq(t, e.ctx.K(t.w, v))) {
			return v
		}
	}
}

func (e *Engine) concInt(st *State, v Value) int {
	t := v.(*Term)
	return int(sext(e.concretize(st, t), t.w))
}

func (e *Engine) assume(st *State, cond *Term) bool {
	if cond.op == OConst {
		if cond.k != 0 {
			return true
		}
		e.dropAssumed(st, nil)
		return false
	}
	r, m := e.sat(st, cond)
	if r != SatYes {
		if r == Unknown {
			e.abandon(st, "solver unknown at assume")
		} else {
			e.dropAssumed(st, nil)
		}
		return false
	}
	if e.cfg.Coverage {
		if rn, _ := e.sat(st, e.ctx.Not(cond)); rn == SatYes {
			e.leaves = append(e.leaves, e.ctx.And(e.pcTerm(st), e.ctx.Not(cond)))
		}
	}
	st.pc.add(e.ctx, cond)
	st.model = m
	return true
}

func (e *Engine) dropAssumed(st *State, _ *Term) {
	e.Stats.Assumed++
	if e.cfg.Coverage {
		e.leaves = append(e.leaves, e.pcTerm(st))
	}
	e.leave(st)
}

func (e *Engine) pcTerm(st *State) *Term {
	r := e.ctx.True
	for _, c := range st.pc.cons {
		r = e.ctx.And(r, c)
	}
	return r
}

// ---------- joins ----------

type Join struct {
	parent *Join
	live   int
	depth  int // frame depth at the fork
	block  int // join block, -1: return from the frame
	fi     *FnInfo
	parked []*State
}

// atJoin parks the state when it has reached its innermost join point.
func (e *Engine) atJoin(st *State) bool {
	j := st.join
	if j == nil {
		return false
	}
	t := st.thread()
	d := len(t.frames)
	if d > j.depth {
		return false
	}
	if d == j.depth {
		f := t.frames[d-1]
		if f.fi != j.fi || f.block != j.block || f.pc != f.fi.nphi[f.block] {
			return false
		}
		if f.unwind {
			return false
		}
	}
	if d == 0 {
		return false
	}
	st.off = true
	j.parked = append(j.parked, st)
	j.live--
	e.maybeRelease(j)
	return true
}

// leave detaches a finished state from its joins.
func (e *Engine) leave(st *State) {
	j := st.join
	st.join = nil
	st.off = true
	if j != nil {
		j.live--
		e.maybeRelease(j)
	}
}

func (e *Engine) maybeRelease(j *Join) {
	for j != nil && j.live == 0 {
		parked := j.parked
		j.parked = nil
		p := j.parent
		if len(parked) > 1 {
			parked = e.mergeAll(parked)
		}
		if p != nil {
			p.live += len(parked) - 1
		}
		for _, s := range parked {
			s.join = p
		}
		// released states continue; they may immediately sit at the parent's join point
		for i := len(parked) - 1; i >= 0; i-- {
			e.work = append(e.work, parked[i])
		}
		if len(parked) > 0 {
			return
		}
		j = p
	}
}

// ---------- step ----------

func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.fi.fn.Blocks[f.block]
	f.prev = f.block
	f.block = to.Index
	f.pc = 0
	n := f.fi.nphi[to.Index]
	if n > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		ins := f.fi.blocks[to.Index]
		if n == 1 {
			f.regs[ins[0].dst] = f.get(&ins[0].ops[pi])
		} else {
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = f.get(&ins[i].ops[pi])
			}
			for i := 0; i < n; i++ {
				f.regs[ins[i].dst] = tmp[i]
			}
		}
		f.pc = n
	}
}

func (e *Engine) step(st *State) bool {
	f := st.top()
	if f.unwind {
		// a deferred operation of an unwinding frame was suspended
		return e.unwindLoop(st)
	}
	x := &f.fi.blocks[f.block][f.pc]
	switch in := x.in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		id := e.allocT(st, in.Type().Underlying().(*types.Pointer).Elem())
		f.regs[x.dst] = PtrV{id, 0}
		f.pc++
	case *ssa.Store:
		a := f.get(&x.ops[0])
		p, ok := e.ptr(st, a)
		if !ok {
			return true
		}
		v := f.get(&x.ops[1])
		if v == nil {
			unsup("store of undefined value")
		}
		e.store(st, p, v)
		st.top().pc++
	case *ssa.UnOp:
		return e.unop(st, f, x, in)
	case *ssa.BinOp:
		v, ok := e.binop(st, in.Op, f.get(&x.ops[0]), f.get(&x.ops[1]), in.X.Type(), in.Y.Type())
		if !ok {
			return true
		}
		f = st.top()
		f.regs[x.dst] = v
		f.pc++
	case *ssa.Jump:
		e.jump(st, f, f.fi.fn.Blocks[f.block].Succs[0])
		if e.atJoin(st) {
			return false
		}
	case *ssa.If:
		return e.ifInstr(st, f, x)
	case *ssa.Phi:
		unsup("stray phi")
	case *ssa.Return:
		var rv Value
		if len(x.ops) == 1 {
			rv = f.get(&x.ops[0])
		} else if len(x.ops) > 1 {
			t := make(TupleV, len(x.ops))
			for i := range x.ops {
				t[i] = f.get(&x.ops[i])
			}
			rv = t
		}
		return e.doReturn(st, rv)
	case *ssa.Call:
		return e.callInstr(st, f, x, in)
	case *ssa.Go:
		return e.goInstr(st, f, x, in)
	case *ssa.Defer:
		d := deferRec{fn: f.get(&x.ops[0]), inv: &in.Call}
		// the last operand is the defer stack, not an argument
		for i := 1; i <= len(in.Call.Args); i++ {
			d.args = append(d.args, f.get(&x.ops[i]))
		}
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return true
		}
		return e.runDefer(st, f, retDiscard)
	case *ssa.Panic:
		v := f.get(&x.ops[0]).(IfaceV)
		return e.goPanic(st, v)
	case *ssa.FieldAddr:
		v := f.get(&x.ops[0])
		var off int
		if x.ext == nil {
			s := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			off = e.fieldOff(s, in.Field)
			x.ext = off
		} else {
			off = x.ext.(int)
		}
		switch p := v.(type) {
		case PtrV:
			if p.obj == 0 {
				return e.rtPanic(st, "invalid memory address or nil pointer dereference")
			}
			f.regs[x.dst] = PtrV{p.obj, p.off + off}
		case SymPtrV:
			p.off += off
			f.regs[x.dst] = p
		default:
			unsup("FieldAddr of %T %v", v, v)
		}
		f.pc++
	case *ssa.Field:
		a, ok := f.get(&x.ops[0]).(AggV)
		if !ok {
			unsup("Field of %T", f.get(&x.ops[0]))
		}
		s := in.X.Type().Underlying().(*types.Struct)
		off := e.fieldOff(s, in.Field)
		f.regs[x.dst] = e.fromCells(a, off, in.Type())
		f.pc++
	case *ssa.IndexAddr:
		return e.indexAddr(st, f, x, in)
	case *ssa.Index:
		return e.index(st, f, x, in.X.Type(), in.Type())
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return e.mapLookup(st, f, x, in)
		}
		return e.index(st, f, x, in.X.Type(), in.Type())
	case *ssa.Slice:
		return e.sliceInstr(st, f, x, in)
	case *ssa.MakeSlice:
		return e.makeSlice(st, f, x, in)
	case *ssa.MakeMap:
		f.regs[x.dst] = MapV{e.alloc(st, &Obj{typ: in.Type()})}
		f.pc++
	case *ssa.MakeChan:
		n := e.concInt(st, f.get(&x.ops[0]))
		f = st.top()
		f.regs[x.dst] = ChanV{e.alloc(st, &Obj{typ: in.Type(), ch: &chanData{cap: n}})}
		f.pc++
	case *ssa.MakeClosure:
		fv := &FuncV{fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(x.ops); i++ {
			fv.bind = append(fv.bind, f.get(&x.ops[i]))
		}
		f.regs[x.dst] = fv
		f.pc++
	case *ssa.MakeInterface:
		f.regs[x.dst] = IfaceV{in.X.Type(), f.get(&x.ops[0])}
		f.pc++
	case *ssa.ChangeInterface:
		f.regs[x.dst] = f.get(&x.ops[0])
		f.pc++
	case *ssa.ChangeType:
		f.regs[x.dst] = f.get(&x.ops[0])
		f.pc++
	case *ssa.Convert:
		return e.convert(st, f, x, f.get(&x.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return e.convert(st, f, x, f.get(&x.ops[0]), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		s := f.get(&x.ops[0]).(SliceV)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.n < n {
			return e.rtPanic(st, fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.n, n))
		}
		f.regs[x.dst] = PtrV{s.obj, s.off}
		f.pc++
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, x, in)
	case *ssa.Extract:
		t, ok := f.get(&x.ops[0]).(TupleV)
		if !ok {
			unsup("extract of %T", f.get(&x.ops[0]))
		}
		f.regs[x.dst] = t[in.Index]
		f.pc++
	case *ssa.MapUpdate:
		return e.mapUpdate(st, f, x, in)
	case *ssa.Range:
		f.regs[x.dst] = e.makeRange(st, f.get(&x.ops[0]))
		f.pc++
	case *ssa.Next:
		return e.nextInstr(st, f, x, in)
	case *ssa.Send:
		return e.sendInstr(st, f, x)
	case *ssa.Select:
		return e.selectInstr(st, f, x, in)
	default:
		unsup("instruction %T", in)
	}
	return true
}

func (e *Engine) fromCells(a AggV, off int, t types.Type) Value {
	if isAgg(t) {
		n := e.size(t)
		return AggV(append([]Value(nil), a[off:off+n]...))
	}
	return a[off]
}

// SymPtrV addresses cells[off + idx*stride] for a symbolic idx in [0,n).
type SymPtrV struct {
	obj, off, stride, n int
	idx                 *Term
}

// ptr resolves an address to a concrete pointer; false when a nil dereference panic was raised.
func (e *Engine) ptr(st *State, v Value) (PtrV, bool) {
	switch p := v.(type) {
	case PtrV:
		if p.obj == 0 {
			e.rtPanic(st, "invalid memory address or nil pointer dereference")
			return p, false
		}
		return p, true
	case SymPtrV:
		k := e.concretize(st, p.idx)
		return PtrV{p.obj, p.off + int(k)*p.stride}, true
	}
	unsup("pointer %T %v", v, v)
	return PtrV{}, false
}

func (e *Engine) ifInstr(st *State, f *Frame, x *Instr) bool {
	cv := f.get(&x.ops[0])
	cond, ok := cv.(*Term)
	if !ok {
		unsup("branch on %T %v", cv, cv)
	}
	b := f.fi.fn.Blocks[f.block]
	if cond.op == OConst {
		if cond.k != 0 {
			e.jump(st, f, b.Succs[0])
		} else {
			e.jump(st, f, b.Succs[1])
		}
		return !e.atJoin(st)
	}
	if st.isInit {
		panic(engErr("symbolic branch in init"))
	}
	nc := e.ctx.Not(cond)
	rt, mt := e.sat(st, cond)
	rf, mf := Unsat, Model(nil)
	if rt != Unsat {
		rf, mf = e.sat(st, nc)
	} else {
		rf, mf = SatYes, st.model
	}
	if rt == Unknown || rf == Unknown {
		e.Incompl = "solver-unknown"
		e.Abandon["solver unknown at branch"]++
		if rt == Unknown && rf == Unknown {
			panic(engErr("solver unknown"))
		}
	}
	if rt == SatYes && rf == SatYes {
		n := e.clone(st)
		f = st.top()
		if e.cfg.Merge && !st.noMerge && len(st.threads) == 1 {
			j := &Join{parent: st.join, live: 2, depth: len(st.thread().frames), block: f.fi.ipdom[f.block], fi: f.fi}
			st.join = j
			n.join = j
		} else if n.join != nil {
			n.join.live++
		}
		if e.cfg.Verbose {
			e.forkSites[e.where(st)]++
		}
		n.pc.add(e.ctx, nc)
		n.model = mf
		e.jump(n, n.top(), b.Succs[1])
		st.pc.add(e.ctx, cond)
		st.model = mt
		e.jump(st, f, b.Succs[0])
		e.Stats.States++
		// both continue through the work list so that joins see them uniformly
		if !e.atJoin(n) {
			e.work = append(e.work, n)
		}
		return !e.atJoin(st)
	}
	if rt == SatYes {
		if rf == Unknown {
			st.pc.add(e.ctx, cond)
		}
		st.model = mt
		e.jump(st, f, b.Succs[0])
	} else {
		if rt == Unknown {
			st.pc.add(e.ctx, nc)
			st.model = mf
		}
		e.jump(st, f, b.Succs[1])
	}
	return !e.atJoin(st)
}

func (e *Engine) doReturn(st *State, rv Value) bool {
	t := st.thread()
	f := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	if f.retMode == retThread || len(t.frames) == 0 {
		t.done = true
		t.frames = nil
		st.retVal = rv
		return true
	}
	p := st.top()
	switch f.retMode {
	case retNormal:
		if f.dst >= 0 {
			p.regs[f.dst] = rv
		}
	case retNext:
		e.finishNext(st, p, f, rv)
	case retDiscard:
	case retUnwind:
		return e.unwindLoop(st)
	}
	return !e.atJoin(st)
}

// ---------- calls ----------

const (
	actDone    = iota
	actHandled // frames already arranged
	actRetry   // not enabled now (blocked); thread.wait was set
	actDead    // state left
)

type callCtx struct {
	args  []Value
	fn    *ssa.Function
	dst   int
	mode  int
	instr ssa.Instruction
}

type intrinsic func(e *Engine, st *State, c *callCtx) (Value, int)

// resolve finds the callee of a call.
func (e *Engine) resolve(st *State, cc *ssa.CallCommon, fv Value, args []Value) (*FuncV, []Value, bool) {
	if cc.IsInvoke() {
		iv, ok := fv.(IfaceV)
		if !ok {
			unsup("invoke on %T %v", fv, fv)
		}
		if iv.t == nil {
			e.rtPanic(st, "invalid memory address or nil pointer dereference")
			return nil, nil, false
		}
		fn := e.lookupMethod(iv.t, cc.Method)
		if fn == nil {
			unsup("no method %s on %v", cc.Method.Name(), iv.t)
		}
		return &FuncV{fn: fn}, append([]Value{iv.v}, args...), true
	}
	f, ok := fv.(*FuncV)
	if !ok {
		unsup("call of %T %v", fv, fv)
	}
	if f == nil {
		e.rtPanic(st, "invalid memory address or nil pointer dereference")
		return nil, nil, false
	}
	return f, args, true
}

func (e *Engine) callInstr(st *State, f *Frame, x *Instr, in *ssa.Call) bool {
	args := make([]Value, len(x.ops)-1)
	for i := range args {
		args[i] = f.get(&x.ops[i+1])
	}
	fv, args, ok := e.resolve(st, &in.Call, f.get(&x.ops[0]), args)
	if !ok {
		return true
	}
	if fv.builtin != nil {
		v, act := e.builtin(st, fv.builtin, args, in.Call.Args, in.Type())
		switch act {
		case actDone:
			f = st.top()
			f.regs[x.dst] = v
			f.pc++
			return true
		case actDead:
			return false
		}
		return true
	}
	return e.enter(st, f, fv, args, x.dst, retNormal, in, func() { st.top().pc++ })
}

// enter transfers control into fv; advance is called on the caller frame once the call is committed.
func (e *Engine) enter(st *State, f *Frame, fv *FuncV, args []Value, dst, mode int, in ssa.Instruction, advance func()) bool {
	fn := fv.fn
	// package initialisers of other packages are run lazily
	if st.isInit && fn.Name() == "init" && fn.Synthetic == "package initializer" {
		advance()
		return true
	}
	fi := e.info(fn)
	if fi.redir != nil {
		fi = e.info(fi.redir)
	}
	if fi.intr != nil {
		c := &callCtx{args: args, fn: fn, dst: dst, mode: mode, instr: in}
		if in == nil {
			e.onPanic = advance
		}
		v, act := fi.intr(e, st, c)
		e.onPanic = nil
		switch act {
		case actDone:
			advance()
			f = st.top()
			if mode == retNormal && dst >= 0 {
				f.regs[dst] = v
			}
			if mode == retUnwind {
				return e.unwindLoop(st)
			}
			return true
		case actDead:
			return false
		}
		return true
	}
	if len(fi.blocks) == 0 {
		unsup("external function %s", fi.name)
	}
	advance()
	e.pushFrame(st, fi, args, fv.bind, dst, mode)
	return true
}

func (e *Engine) runDefer(st *State, f *Frame, mode int) bool {
	d := f.defers[len(f.defers)-1]
	pop := func() {
		g := st.top()
		g.defers = g.defers[:len(g.defers)-1]
	}
	var fv *FuncV
	args := d.args
	if d.inv.IsInvoke() {
		iv := d.fn.(IfaceV)
		if iv.t == nil {
			pop()
			return e.rtPanicR(st, "invalid memory address or nil pointer dereference")
		}
		fv = &FuncV{fn: e.lookupMethod(iv.t, d.inv.Method)}
		args = append([]Value{iv.v}, args...)
	} else {
		fv, _ = d.fn.(*FuncV)
		if fv == nil {
			pop()
			return e.rtPanicR(st, "invalid memory address or nil pointer dereference")
		}
	}
	if fv.builtin != nil {
		_, act := e.builtin(st, fv.builtin, args, d.inv.Args, nil)
		if act == actDone {
			pop()
			if mode == retUnwind {
				return e.unwindLoop(st)
			}
		}
		return act != actDead
	}
	return e.enter(st, f, fv, args, -1, mode, nil, pop)
}

// ---------- panics ----------

func (e *Engine) rtPanicR(st *State, msg string) bool { return e.rtPanic(st, msg) }

func (e *Engine) rtPanic(st *State, msg string) bool {
	if st.isInit {
		panic(engErr("panic in init: " + msg))
	}
	t := e.prog.rtErrType
	return e.goPanic(st, IfaceV{t, AggV{e.constStr("runtime error: " + msg)}})
}

func (e *Engine) goPanic(st *State, v IfaceV) bool {
	if st.isInit {
		panic(engErr("panic in init: " + e.panicStr(st, v)))
	}
	if h := e.onPanic; h != nil {
		// raised by a deferred operation, which is not run again
		e.onPanic = nil
		h()
	}
	f := st.top()
	f.panicV = &v
	f.unwind = true
	f.recov = false
	return e.unwindLoop(st)
}

// unwindLoop continues unwinding the top frame (after a panic or after one of its deferred calls returned).
func (e *Engine) unwindLoop(st *State) bool {
	for {
		f := st.top()
		if f.recov {
			f.recov = false
			f.panicV = nil
		}
		if len(f.defers) > 0 {
			return e.runDefer(st, f, retUnwind)
		}
		if f.panicV == nil {
			// recovered: continue at the Recover block
			f.unwind = false
			if f.fi.fn.Recover != nil {
				f.prev = f.block
				f.block = f.fi.fn.Recover.Index
				f.pc = 0
				return !e.atJoin(st)
			}
			var rv Value
			res := f.fi.fn.Signature.Results()
			if res.Len() == 1 {
				rv = e.zero(res.At(0).Type())
			} else if res.Len() > 1 {
				rv = e.zero(res)
			}
			return e.doReturn(st, rv)
		}
		// propagate to the caller
		t := st.thread()
		pv := f.panicV
		if len(t.frames) == 1 {
			e.violation(st, "panic", e.panicStr(st, *pv), e.ctx.True)
			e.finish(st, "panic")
			return false
		}
		t.frames = t.frames[:len(t.frames)-1]
		p := st.top()
		p.panicV = pv
		p.recov = false
		p.unwind = true
	}
}

func (e *Engine) panicStr(st *State, v IfaceV) string {
	if v.t == nil {
		return "nil"
	}
	return e.render(st, v.v) + " (" + v.t.String() + ") at " + e.stack(st)
}

// ---------- unary / binary ops ----------

func (e *Engine) unop(st *State, f *Frame, x *Instr, in *ssa.UnOp) bool {
	v := f.get(&x.ops[0])
	switch in.Op {
	case token.MUL:
		if sp, ok := v.(SymPtrV); ok && !isAgg(in.Type()) {
			if t := e.symLoad(st, sp); t != nil {
				f.regs[x.dst] = t
				f.pc++
				return true
			}
		}
		p, ok := e.ptr(st, v)
		if !ok {
			return true
		}
		f = st.top()
		f.regs[x.dst] = e.load(st, p, in.Type())
	case token.NOT:
		f.regs[x.dst] = e.ctx.Not(v.(*Term))
	case token.SUB:
		if fl, ok := v.(FloatV); ok {
			f.regs[x.dst] = -fl
		} else {
			f.regs[x.dst] = e.ctx.Neg(v.(*Term))
		}
	case token.XOR:
		f.regs[x.dst] = e.ctx.BNot(v.(*Term))
	case token.ARROW:
		return e.recvInstr(st, f, x, in)
	default:
		unsup("unop %v", in.Op)
	}
	f.pc++
	return true
}

func (e *Engine) symLoad(st *State, p SymPtrV) *Term {
	o := e.obj(st, p.obj)
	ts := make([]*Term, p.n)
	for i := range ts {
		t, ok := o.cells[p.off+i*p.stride].(*Term)
		if !ok || (i > 0 && t.w != ts[0].w) {
			return nil
		}
		ts[i] = t
	}
	return e.table(ts, p.idx)
}

// table builds a balanced selection tree.
func (e *Engine) table(ts []*Term, idx *Term) *Term {
	if mx := mask(idx.w); idx.w < 63 && uint64(len(ts)) > mx+1 {
		ts = ts[:mx+1]
	}
	root := idx
	if idx.op == OZExt { // select on the narrow index
		root = idx.a
		if mx := mask(root.w); root.w < 63 && uint64(len(ts)) > mx+1 {
			ts = ts[:mx+1]
		}
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		same := true
		for i := lo + 1; i < hi; i++ {
			if ts[i] != ts[lo] {
				same = false
				break
			}
		}
		if same {
			return ts[lo]
		}
		mid := (lo + hi) / 2
		return e.ctx.Ite(e.ctx.Ult(root, e.ctx.K(root.w, uint64(mid))), rec(lo, mid), rec(mid, hi))
	}
	return rec(0, len(ts))
}

func (e *Engine) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) (Value, bool) {
	c := e.ctx
	switch op {
	case token.EQL:
		return e.eq(st, a, b), true
	case token.NEQ:
		return c.Not(e.eq(st, a, b)), true
	}
	switch x := a.(type) {
	case StrV:
		y := b.(StrV)
		switch op {
		case token.ADD:
			if x.n == 0 {
				return y, true
			}
			if y.n == 0 {
				return x, true
			}
			bs := append(append(make([]Value, 0, x.n+y.n), e.strBytes(st, x)...), e.strBytes(st, y)...)
			return e.newStr(st, bs), true
		case token.LSS:
			return e.strLess(st, x, y), true
		case token.GTR:
			return e.strLess(st, y, x), true
		case token.LEQ:
			return c.Not(e.strLess(st, y, x)), true
		case token.GEQ:
			return c.Not(e.strLess(st, x, y)), true
		}
	case FloatV:
		y := b.(FloatV)
		switch op {
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		case token.MUL:
			return x * y, true
		case token.QUO:
			return x / y, true
		case token.LSS:
			return c.B(x < y), true
		case token.GTR:
			return c.B(x > y), true
		case token.LEQ:
			return c.B(x <= y), true
		case token.GEQ:
			return c.B(x >= y), true
		}
	case *Term:
		y := b.(*Term)
		signed := isSigned(ta)
		switch op {
		case token.ADD:
			return c.Bin(OAdd, x, y), true
		case token.SUB:
			return c.Sub(x, y), true
		case token.MUL:
			return c.Bin(OMul, x, y), true
		case token.AND:
			if x.w == 0 {
				return c.And(x, y), true
			}
			return c.Bin(OAnd, x, y), true
		case token.OR:
			if x.w == 0 {
				return c.Or(x, y), true
			}
			return c.Bin(OOr, x, y), true
		case token.XOR:
			return c.Bin(OXor, x, y), true
		case token.AND_NOT:
			return c.Bin(OAnd, x, c.BNot(y)), true
		case token.QUO, token.REM:
			if e.branch(st, c.Eq(y, c.K(y.w, 0))) {
				e.rtPanic(st, "integer divide by zero")
				return nil, false
			}
			switch {
			case op == token.QUO && signed:
				return c.Bin(OSDiv, x, y), true
			case op == token.QUO:
				return c.Bin(OUDiv, x, y), true
			case signed:
				return c.Bin(OSRem, x, y), true
			default:
				return c.Bin(OURem, x, y), true
			}
		case token.SHL, token.SHR:
			if isSigned(tb) {
				if e.branch(st, c.Slt(y, c.K(y.w, 0))) {
					e.rtPanic(st, "negative shift amount")
					return nil, false
				}
			}
			w := max(x.w, y.w)
			yy := c.ZExt(y, w)
			switch {
			case op == token.SHL:
				return c.Trunc(c.Bin(OShl, c.ZExt(x, w), yy), x.w), true
			case signed:
				return c.Trunc(c.Bin(OAShr, c.SExt(x, w), yy), x.w), true
			default:
				return c.Trunc(c.Bin(OLShr, c.ZExt(x, w), yy), x.w), true
			}
		case token.LSS:
			if signed {
				return c.Slt(x, y), true
			}
			return c.Ult(x, y), true
		case token.GTR:
			if signed {
				return c.Slt(y, x), true
			}
			return c.Ult(y, x), true
		case token.LEQ:
			if signed {
				return c.Sle(x, y), true
			}
			return c.Ule(x, y), true
		case token.GEQ:
			if signed {
				return c.Sle(y, x), true
			}
			return c.Ule(y, x), true
		}
	}
	unsup("binop %v on %T %v", op, a, a)
	return nil, false
}

func (e *Engine) strLess(st *State, a, b StrV) *Term {
	x, y := e.strBytes(st, a), e.strBytes(st, b)
	n := min(len(x), len(y))
	r := e.ctx.B(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := x[i].(*Term), y[i].(*Term)
		r = e.ctx.Ite(e.ctx.Eq(p, q), r, e.ctx.Ult(p, q))
	}
	return r
}

func (e *Engine) eq(st *State, a, b Value) *Term {
	c := e.ctx
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case StrV:
		return e.strEq(st, x, b.(StrV))
	case PtrV:
		switch y := b.(type) {
		case PtrV:
			return c.B(x == y)
		case SymPtrV:
			return c.B(false)
		}
	case SliceV:
		y := b.(SliceV)
		if x.obj == 0 || y.obj == 0 {
			return c.B(x.obj == y.obj)
		}
	case MapV:
		return c.B(x == b.(MapV))
	case ChanV:
		return c.B(x == b.(ChanV))
	case *FuncV:
		y := b.(*FuncV)
		if x == nil || y == nil {
			return c.B(x == nil && y == nil)
		}
	case FloatV:
		return c.B(x == b.(FloatV))
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			unsup("iface eq %T", b)
		}
		if x.t == nil || y.t == nil {
			return c.B(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return e.eq(st, x.v, y.v)
	case AggV:
		y := b.(AggV)
		r := c.True
		for i := range x {
			r = c.And(r, e.eq(st, x[i], y[i]))
		}
		return r
	case UnsafeV:
		return e.eq(st, x.v, b.(UnsafeV).v)
	}
	unsup("eq on %T %T", a, b)
	return nil
}

// ---------- indexing, slicing ----------

func (e *Engine) idx64(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		unsup("index %T", v)
	}
	if isSigned(t) {
		return e.ctx.SExt(x, 64)
	}
	return e.ctx.ZExt(x, 64)
}

// inBounds checks 0 <= i < n, raising a Go panic otherwise.
func (e *Engine) inBounds(st *State, i *Term, n int) bool {
	if e.branch(st, e.ctx.Ult(i, e.ctx.K(64, uint64(n)))) {
		return true
	}
	e.rtPanic(st, fmt.Sprintf("index out of range with length %d", n))
	return false
}

func (e *Engine) indexAddr(st *State, f *Frame, x *Instr, in *ssa.IndexAddr) bool {
	v := f.get(&x.ops[0])
	i := e.idx64(f.get(&x.ops[1]), in.Index.Type())
	esz := e.size(in.Type().Underlying().(*types.Pointer).Elem())
	var obj, off, n int
	switch s := v.(type) {
	case SliceV:
		obj, off, n = s.obj, s.off, s.n
	case PtrV:
		if s.obj == 0 {
			return e.rtPanic(st, "invalid memory address or nil pointer dereference")
		}
		obj, off = s.obj, s.off
		n = int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case SymPtrV:
		p, _ := e.ptr(st, s)
		obj, off = p.obj, p.off
		n = int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	default:
		unsup("IndexAddr of %T %v", v, v)
	}
	if !e.inBounds(st, i, n) {
		return true
	}
	f = st.top()
	if i.IsConst() {
		f.regs[x.dst] = PtrV{obj, off + int(i.k)*esz}
	} else {
		f.regs[x.dst] = SymPtrV{obj, off, esz, n, i}
	}
	f.pc++
	return true
}

func (e *Engine) index(st *State, f *Frame, x *Instr, tx, te types.Type) bool {
	v := f.get(&x.ops[0])
	var it types.Type
	switch in := x.in.(type) {
	case *ssa.Index:
		it = in.Index.Type()
	case *ssa.Lookup:
		it = in.Index.Type()
	}
	i := e.idx64(f.get(&x.ops[1]), it)
	var cells []Value
	n := 0
	switch s := v.(type) {
	case StrV:
		n = s.n
		cells = e.strBytes(st, s)
	case AggV:
		n = int(tx.Underlying().(*types.Array).Len())
		cells = s
	default:
		unsup("Index of %T %v", v, v)
	}
	if !e.inBounds(st, i, n) {
		return true
	}
	f = st.top()
	esz := e.size(te)
	if !i.IsConst() && esz == 1 {
		ts := make([]*Term, n)
		ok := true
		for k := range ts {
			ts[k], ok = cells[k].(*Term)
			if !ok {
				break
			}
		}
		if ok {
			f.regs[x.dst] = e.table(ts, i)
			f.pc++
			return true
		}
	}
	k := int(e.concretize(st, i))
	f = st.top()
	f.regs[x.dst] = e.fromCells(AggV(cells), k*esz, te)
	f.pc++
	return true
}

func (e *Engine) sliceInstr(st *State, f *Frame, x *Instr, in *ssa.Slice) bool {
	v := f.get(&x.ops[0])
	get := func(i int, def int, t ssa.Value) int {
		if x.ops[i].kind == okNone {
			return def
		}
		tm := e.idx64(f.get(&x.ops[i]), t.Type())
		return int(int64(e.concretize(st, tm)))
	}
	if s, ok := v.(StrV); ok {
		lo := get(1, 0, in.Low)
		hi := get(2, s.n, in.High)
		f = st.top()
		if hi < 0 || hi > s.n {
			return e.rtPanic(st, fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, s.n))
		}
		if lo < 0 || lo > hi {
			return e.rtPanic(st, fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		r := StrV{s.obj, s.off + lo, hi - lo}
		if r.n == 0 {
			r = StrV{}
		}
		f.regs[x.dst] = r
		f.pc++
		return true
	}
	var obj, off, n, cp, esz int
	switch s := v.(type) {
	case SliceV:
		obj, off, n, cp = s.obj, s.off, s.n, s.cap
		esz = e.size(in.X.Type().Underlying().(*types.Slice).Elem())
	case PtrV:
		if s.obj == 0 {
			return e.rtPanic(st, "invalid memory address or nil pointer dereference")
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		obj, off = s.obj, s.off
		n = int(at.Len())
		cp = n
		esz = e.size(at.Elem())
	default:
		unsup("slice of %T %v", v, v)
	}
	lo := get(1, 0, in.Low)
	hi := get(2, n, in.High)
	mx := get(3, cp, in.Max)
	f = st.top()
	if mx < 0 || mx > cp {
		return e.rtPanic(st, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cp))
	}
	if hi < 0 || hi > mx {
		return e.rtPanic(st, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
	}
	if lo < 0 || lo > hi {
		return e.rtPanic(st, fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	f.regs[x.dst] = SliceV{obj, off + lo*esz, hi - lo, mx - lo}
	f.pc++
	return true
}

const maxAlloc = 1 << 22

func (e *Engine) makeSlice(st *State, f *Frame, x *Instr, in *ssa.MakeSlice) bool {
	lt := e.idx64(f.get(&x.ops[0]), in.Len.Type())
	ct := e.idx64(f.get(&x.ops[1]), in.Cap.Type())
	el := in.Type().Underlying().(*types.Slice).Elem()
	// lengths beyond the address space panic; huge ones are memory exhaustion
	if e.branch(st, e.ctx.Slt(lt, e.ctx.K(64, 0))) {
		return e.rtPanic(st, "makeslice: len out of range")
	}
	if e.branch(st, e.ctx.Slt(e.ctx.K(64, 1<<46), lt)) {
		return e.rtPanic(st, "makeslice: len out of range")
	}
	if e.branch(st, e.ctx.Slt(ct, lt)) {
		return e.rtPanic(st, "makeslice: cap out of range")
	}
	if e.branch(st, e.ctx.Slt(e.ctx.K(64, 1<<46), ct)) {
		return e.rtPanic(st, "makeslice: cap out of range")
	}
	if e.branch(st, e.ctx.Slt(e.ctx.K(64, maxAlloc), ct)) {
		unsup("allocation larger than the engine's limit")
	}
	n := int(e.concretize(st, lt))
	c := int(e.concretize(st, ct))
	f = st.top()
	f.regs[x.dst] = e.newSlice(st, el, n, c)
	f.pc++
	return true
}

func (e *Engine) newSlice(st *State, el types.Type, n, c int) SliceV {
	esz := e.size(el)
	cells := make([]Value, 0, c*esz)
	if c > 0 {
		one := e.zeroCells(el)
		for i := 0; i < c; i++ {
			cells = append(cells, one...)
		}
	}
	return SliceV{e.alloc(st, &Obj{cells: cells, typ: el}), 0, n, c}
}

// ---------- conversions ----------

func (e *Engine) convert(st *State, f *Frame, x *Instr, v Value, from, to types.Type) bool {
	set := func(r Value) bool {
		f = st.top()
		f.regs[x.dst] = r
		f.pc++
		return true
	}
	uf, ut := from.Underlying(), to.Underlying()
	if _, ok := v.(Poison); ok {
		return set(v)
	}
	switch b := ut.(type) {
	case *types.Basic:
		if b.Kind() == types.UnsafePointer {
			if u, ok := v.(UnsafeV); ok {
				return set(u)
			}
			return set(UnsafeV{v})
		}
		if b.Info()&types.IsString != 0 {
			switch s := v.(type) {
			case StrV:
				return set(s)
			case SliceV:
				el := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return set(e.newStr(st, e.bytesOf(st, s.obj, s.off, s.n)))
				}
				f.pc++
				e.pushFrame(st, e.info(e.prog.rt("RunesToString")), []Value{v}, nil, x.dst, retNormal)
				return true
			case *Term:
				t := e.ctx.SExt(s, 64)
				if !isSigned(from) {
					t = e.ctx.ZExt(s, 64)
				}
				if t.IsConst() {
					return set(e.constStr(string(rune(t.k))))
				}
				f.pc++
				e.pushFrame(st, e.info(e.prog.rt("RuneToString")), []Value{t}, nil, x.dst, retNormal)
				return true
			}
		}
		if w, ok := intWidth(b); ok {
			switch s := v.(type) {
			case *Term:
				if s.w == 0 {
					unsup("bool to int")
				}
				if w <= s.w {
					return set(e.ctx.Trunc(s, w))
				}
				if isSigned(from) {
					return set(e.ctx.SExt(s, w))
				}
				return set(e.ctx.ZExt(s, w))
			case FloatV:
				if b.Info()&types.IsUnsigned != 0 {
					return set(e.ctx.K(w, uint64(s)))
				}
				return set(e.ctx.K(w, uint64(int64(s))))
			case UnsafeV:
				unsup("uintptr of pointer")
			}
		}
		if b.Info()&types.IsFloat != 0 {
			switch s := v.(type) {
			case FloatV:
				if b.Kind() == types.Float32 {
					return set(FloatV(float32(s)))
				}
				return set(s)
			case *Term:
				k := e.concretize(st, s)
				if isSigned(from) {
					return set(FloatV(float64(sext(k, s.w))))
				}
				return set(FloatV(float64(k)))
			}
		}
		if b.Info()&types.IsBoolean != 0 {
			return set(v)
		}
	case *types.Pointer:
		if u, ok := v.(UnsafeV); ok {
			return set(u.v)
		}
		return set(v)
	case *types.Slice:
		switch s := v.(type) {
		case StrV:
			el := b.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				cells := append([]Value(nil), e.strBytes(st, s)...)
				return set(SliceV{e.alloc(st, &Obj{cells: cells, typ: b.Elem()}), 0, len(cells), len(cells)})
			}
			f.pc++
			e.pushFrame(st, e.info(e.prog.rt("StringToRunes")), []Value{v}, nil, x.dst, retNormal)
			return true
		case SliceV:
			return set(s)
		}
	}
	_ = math.Pi
	unsup("convert %T from %v to %v", v, from, to)
	return false
}

// ---------- interfaces ----------

func (e *Engine) typeAssert(st *State, f *Frame, x *Instr, in *ssa.TypeAssert) bool {
	v := f.get(&x.ops[0])
	iv, ok := v.(IfaceV)
	if !ok {
		unsup("type assert on %T %v", v, v)
	}
	match := false
	var res Value
	if iv.t != nil {
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			if e.implements(iv.t, it) {
				match = true
				res = iv
			}
		} else if types.Identical(iv.t, in.AssertedType) {
			match = true
			res = iv.v
		}
	}
	if in.CommaOk {
		if !match {
			res = e.zero(in.AssertedType)
		}
		f.regs[x.dst] = TupleV{res, e.ctx.B(match)}
		f.pc++
		return true
	}
	if !match {
		d := "nil"
		if iv.t != nil {
			d = iv.t.String()
		}
		return e.rtPanic(st, fmt.Sprintf("interface conversion: interface is %s, not %v", d, in.AssertedType))
	}
	f.regs[x.dst] = res
	f.pc++
	return true
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	methMu.Lock()
	defer methMu.Unlock()
	return types.Implements(t, it)
}

// ---------- maps ----------

func (e *Engine) mapFind(st *State, m MapV, k Value) int {
	if m.obj == 0 {
		return -1
	}
	o := e.obj(st, m.obj)
	for i := range o.ent {
		if e.branch(st, e.eqKey(st, o.ent[i].k, k)) {
			return i
		}
	}
	return -1
}

func (e *Engine) eqKey(st *State, a, b Value) *Term { return e.eq(st, a, b) }

func (e *Engine) mapLookup(st *State, f *Frame, x *Instr, in *ssa.Lookup) bool {
	m, ok := f.get(&x.ops[0]).(MapV)
	if !ok {
		unsup("lookup in %T", f.get(&x.ops[0]))
	}
	i := e.mapFind(st, m, f.get(&x.ops[1]))
	f = st.top()
	var v Value
	if i >= 0 {
		v = e.obj(st, m.obj).ent[i].v
	} else {
		v = e.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		f.regs[x.dst] = TupleV{v, e.ctx.B(i >= 0)}
	} else {
		f.regs[x.dst] = v
	}
	f.pc++
	return true
}

func (e *Engine) mapUpdate(st *State, f *Frame, x *Instr, in *ssa.MapUpdate) bool {
	m, ok := f.get(&x.ops[0]).(MapV)
	if !ok {
		unsup("map update on %T", f.get(&x.ops[0]))
	}
	if m.obj == 0 {
		return e.goPanic(st, IfaceV{e.prog.rtErrType, AggV{e.constStr("assignment to entry in nil map")}})
	}
	k, v := f.get(&x.ops[1]), f.get(&x.ops[2])
	i := e.mapFind(st, m, k)
	o := e.wobj(st, m.obj)
	if o.frozen != "" {
		e.frozenWrite(st, o)
	}
	if i >= 0 {
		o.ent[i].v = v
	} else {
		o.ent = append(o.ent, mapEntry{k, v})
	}
	st.top().pc++
	return true
}

func (e *Engine) makeRange(st *State, v Value) Value {
	it := &iterData{}
	switch s := v.(type) {
	case StrV:
		it.str = &s
	case MapV:
		it.m = s.obj
		if s.obj != 0 {
			for _, en := range e.obj(st, s.obj).ent {
				it.keys = append(it.keys, en.k)
			}
		}
	default:
		unsup("range over %T", v)
	}
	return IterV{e.alloc(st, &Obj{it: it})}
}

func (e *Engine) nextInstr(st *State, f *Frame, x *Instr, in *ssa.Next) bool {
	id := f.get(&x.ops[0]).(IterV).obj
	it := e.obj(st, id).it
	c := e.ctx
	if in.IsString {
		if it.pos >= it.str.n {
			f.regs[x.dst] = TupleV{c.False, c.K(64, 0), c.K(32, 0)}
			f.pc++
			return true
		}
		b := e.strBytes(st, *it.str)[it.pos].(*Term)
		if e.branch(st, c.Ult(b, c.K(8, 0x80))) {
			it = e.wobj(st, id).it
			f = st.top()
			f.regs[x.dst] = TupleV{c.True, c.K(64, uint64(it.pos)), c.ZExt(b, 32)}
			it.pos++
			f.pc++
			return true
		}
		rest := StrV{it.str.obj, it.str.off + it.pos, it.str.n - it.pos}
		f = st.top()
		f.pc++
		e.pushFrame(st, e.info(e.prog.rt("DecodeRune")), []Value{rest}, nil, x.dst, retNext)
		st.top().aux = IterV{id}
		return true
	}
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		// still present?
		m := MapV{it.m}
		found := -1
		for i, en := range e.obj(st, m.obj).ent {
			if e.eq(st, en.k, k) == c.True {
				found = i
				break
			}
		}
		it = e.wobj(st, id).it
		it.i++
		if found >= 0 {
			f.regs[x.dst] = TupleV{c.True, k, e.obj(st, m.obj).ent[found].v}
			f.pc++
			return true
		}
	}
	tt := in.Type().(*types.Tuple)
	f.regs[x.dst] = TupleV{c.False, e.zeroOrNil(tt.At(1).Type()), e.zeroOrNil(tt.At(2).Type())}
	f.pc++
	return true
}

func (e *Engine) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Poison{"unused range variable"}
	}
	return e.zero(t)
}

func (e *Engine) finishNext(st *State, p *Frame, f *Frame, rv Value) {
	t := rv.(TupleV) // rune, size
	id := f.aux.(IterV).obj
	it := e.wobj(st, id).it
	p.regs[f.dst] = TupleV{e.ctx.True, e.ctx.K(64, uint64(it.pos)), t[0]}
	sz := t[1].(*Term)
	if !sz.IsConst() {
		unsup("symbolic rune size")
	}
	it.pos += int(sz.k)
}

// ---------- outcomes ----------

func (e *Engine) modelOut(m Model) map[string]uint64 {
	out := map[string]uint64{}
	for i, v := range e.ctx.vars {
		out[v.Name] = m.get(int32(i))
	}
	return out
}

// violation records a failed assertion: cond is the violated condition (satisfiable with pc).
func (e *Engine) violation(st *State, kind, msg string, cond *Term) {
	key := kind + "|" + msg
	if len(key) > 300 {
		key = key[:300]
	}
	e.violKeys[key]++
	if e.violKeys[key] > 2 || len(e.Viol) >= e.cfg.MaxViol {
		return
	}
	m := st.model
	if cond.op != OConst {
		r, mm := e.satSolver(st, cond)
		if r != SatYes {
			return
		}
		m = mm
	}
	if len(e.Viol) == 0 {
		e.firstViol = time.Now()
		anyViol.CompareAndSwap(0, e.firstViol.UnixNano())
	}
	e.Viol = append(e.Viol, &Violation{Kind: kind, Msg: msg, Model: e.modelOut(m), Where: e.stack(st), Obs: e.obsOut(st, m)})
}

func (e *Engine) hang(st *State) {
	e.violation(st, "hang", "step bound exceeded: "+e.stack(st), e.ctx.True)
	e.finish(st, "step bound")
}

func (e *Engine) abandon(st *State, why string) {
	e.Abandon[why]++
	e.Stats.Abandoned++
	if e.Incompl == "" {
		e.Incompl = why
	}
	n := 0
	for _, s := range e.Samples {
		if s.Abandoned != "" {
			n++
		}
	}
	if n < 200 {
		e.Samples = append(e.Samples, PathSample{Model: e.modelOut(st.model), Abandoned: why})
	}
	e.leave(st)
}

func (e *Engine) finish(st *State, kind string) {
	e.Stats.Paths++
	e.Stats.MaxSteps = max(e.Stats.MaxSteps, st.steps)
	if e.cfg.Coverage {
		e.leaves = append(e.leaves, e.pcTerm(st))
	}
	if kind == "ok" {
		for r := range st.reach {
			e.Reach[r]++
		}
		// reservoir of concrete witnesses for native validation
		e.nsample++
		k := e.cfg.MaxSample
		if k > 0 {
			s := PathSample{}
			if e.nsample <= k {
				s = PathSample{Model: e.modelOut(st.model), Obs: e.obsOut(st, st.model)}
				e.Samples = append(e.Samples, s)
			} else {
				e.rng = e.rng*6364136223846793005 + 1442695040888963407
				if i := int((e.rng >> 33) % uint64(e.nsample)); i < k && i < len(e.Samples) && e.Samples[i].Abandoned == "" {
					e.Samples[i] = PathSample{Model: e.modelOut(st.model), Obs: e.obsOut(st, st.model)}
				}
			}
		}
	}
	e.leave(st)
}

func (e *Engine) obsOut(st *State, m Model) []ObsOut {
	var out []ObsOut
	for o := st.obs; o != nil; o = o.prev {
		out = append(out, ObsOut{o.label, e.renderM(st, o.val, m)})
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Run explores the harness function.
func (e *Engine) Run(fn *ssa.Function) {
	defer e.sol.Close()
	st := e.newState()
	st.threads = []*Thread{{}}
	if err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		fi := e.info(fn)
		e.pushFrame(st, fi, nil, nil, -1, retThread)
		return nil
	}(); err != nil {
		e.Incompl = err.Error()
		e.Abandon[err.Error()]++
		return
	}
	e.work = append(e.work, st)
	for len(e.work) > 0 {
		if e.Stats.Paths >= e.cfg.MaxPaths {
			e.Incompl = "path bound"
			e.Abandon["path bound"] += len(e.work)
			break
		}
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		if debugPanics && e.Stats.Paths%100000 == 99999 {
			fmt.Printf("... paths %d work %d steps %d\n", e.Stats.Paths, len(e.work), e.Stats.Steps)
		}
		if why := e.overdue(); why != "" {
			e.abandon(s, why)
			continue
		}
		s.off = false
		if e.atJoin(s) {
			continue
		}
		if err := e.burstSafe(s); err != nil {
			if e.cfg.Verbose {
				fmt.Println("abandoned:", err, e.stack(s))
			}
			e.abandon(s, err.Error())
		}
	}
	if e.cfg.Coverage {
		e.coverageQuery()
	}
}

// coverageQuery asks the solver whether some input within the bounds lies on no explored path.
func (e *Engine) coverageQuery() {
	if e.Incompl != "" {
		e.Coverage = "skipped: " + e.Incompl
		return
	}
	if e.cfg.OneSchedule && len(e.leaves) > 1000 {
		e.Coverage = "skipped: the decisions of the only schedule are too many"
		return
	}
	if len(e.leaves) > 40000 {
		e.Coverage = fmt.Sprintf("skipped: %d leaves", len(e.leaves))
		return
	}
	q := append([]*Term(nil), e.assumeC...)
	for _, l := range e.leaves {
		q = append(q, e.ctx.Not(l))
	}
	r, m := e.sol.Check(q)
	switch r {
	case Unsat:
		e.Coverage = "unsat"
	case SatYes:
		e.Coverage = "SAT"
		_ = m
	default:
		e.Coverage = "unknown"
	}
}

// TopForks lists where the exploration forks most (verbose mode).
func (e *Engine) TopForks(n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range e.forkSites {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
	var out []string
	for i := 0; i < len(l) && i < n; i++ {
		out = append(out, fmt.Sprintf("%6d %s", l[i].v, l[i].k))
	}
	return out
}

func (e *Engine) InitErrs() []string { return e.initErrs }
func (e *Engine) Solver() *Solver    { return e.sol }
func (e *Engine) NumVars() int       { return len(e.ctx.vars) }
func (e *Engine) NumTerms() int      { return int(e.ctx.nterm) }
